#!/usr/bin/env python3
"""check.py <property id> [--thorough]   exit 0 held / 1 violated / 2 analysis broken"""
import sys, os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode=True
from sa import common
from sa.rules import RULES
if __name__=='__main__':
    a=[x for x in sys.argv[1:] if not x.startswith('-')]
    tier='thorough' if '--thorough' in sys.argv else 'quick'
    if a==['all']:
        ctx=common.Ctx(); rc=0
        for p in sorted(RULES): rc=max(rc,common.run(p,RULES[p],tier,ctx=ctx))
        sys.exit(rc)
    sys.exit(max(common.run(p,RULES[p],tier) for p in a))
