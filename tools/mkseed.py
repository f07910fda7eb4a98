#!/usr/bin/env python3
"""author planted changes: mkseed.py SPEC.py [id...]   (SPEC defines SEEDS=[dict(id,property,needs,breaks,edits,demo,files)])
Builds the base and the changed tree in scratch copies, runs the demo against both, and keeps the change only if
the demo passes on the base and fails with the change.  Not used by any check."""
import sys, os, subprocess, shutil, tempfile, json, runpy
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,ROOT+'/selftest')
spec=runpy.run_path(sys.argv[1]); want=sys.argv[2:]
SH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec timeout 200 python3 "$here/demo.py"
'''
from run import edit
for s in spec['SEEDS']:
    if want and s['id'] not in want: continue
    t=tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(['cp','-a','/repo',t+'/r'],check=True)
        def mk(): 
            r=subprocess.run(['make','-C',t+'/r/_build','-j8'],capture_output=True,text=True)
            if r.returncode: print(s['id'],'BUILD FAILED',r.stderr[-800:]); return False
            return True
        out=t+'/s'; os.makedirs(out)
        for f in ['dnsh.py']+s.get('files',[]): shutil.copy(ROOT+'/tools/demo/'+f,out)
        open(out+'/demo.py','w').write("import os,sys\nsys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))\nfrom dnsh import *\n"+s['demo'])
        open(out+'/demo.sh','w').write(s.get('sh',SH)); os.chmod(out+'/demo.sh',0o755)
        def demo():
            return subprocess.run([out+'/demo.sh'],cwd=t+'/r',capture_output=True,text=True)
        if not mk(): continue
        b=demo()
        err=edit(t+'/r',s['edits'])
        if err: print(s['id'],err); continue
        if not mk(): continue
        d=subprocess.run(['git','-C',t+'/r','diff','--binary'],capture_output=True).stdout
        open(out+'/patch.diff','wb').write(d)
        p=demo()
        print(s['id'],'base rc',b.returncode,'patched rc',p.returncode)
        if b.returncode!=0 or p.returncode==0:
            print(b.stdout[-800:],b.stderr[-800:],'-----',p.stdout[-800:],p.stderr[-800:]); continue
        print('   ',p.stdout.strip()[-300:],p.stderr.strip()[-200:])
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
        shutil.rmtree(out+'/__pycache__',True)
        dst=ROOT+'/seeded/'+s['id']; shutil.rmtree(dst,True); shutil.copytree(out,dst)
    finally: shutil.rmtree(t,True)
