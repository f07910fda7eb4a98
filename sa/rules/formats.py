"""P33: formats are literals of the program and match their arguments."""
import re
from ..common import Broken
from ..cg import strip
from .config import strings
PRINTF={'printf':0,'fprintf':1,'sprintf':1,'snprintf':2,'syslog':1,'dprintf':1,'__printf_chk':1,'__fprintf_chk':2,'__sprintf_chk':3,'__snprintf_chk':4}
SCANF={'sscanf':1,'__isoc99_sscanf':1,'fscanf':1,'__isoc99_fscanf':1,'scanf':0,'__isoc99_scanf':0}
V={'vprintf':0,'vfprintf':1,'vsprintf':1,'vsnprintf':2,'__vsnprintf_chk':4,'__vsprintf_chk':3,'strftime':None}
SPEC=re.compile(r'%(?:%|([-+ #0\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z]))')
BITS={'hh':32,'h':32,None:32,'l':64,'ll':64,'j':64,'z':64,'t':64}
def wants(fmt,scan):
    """[(kind, bits)] of the arguments a format takes, None if it is malformed"""
    out=[]; p=0
    while True:
        k=fmt.find('%',p)
        if k<0: return out
        m=SPEC.match(fmt,k)
        if not m: return None
        p=m.end()
        if m.group(0)=='%%': continue
        c=m.group(5)[0]
        if scan:
            if m.group(2)=='*': continue
            out.append(('ptr',(c,{'hh':8,'h':16,None:32}.get(m.group(4),64)))); continue
        for g in(2,3):
            if m.group(g)=='*': out.append(('int',32))
        if c in'diouxXc': out.append(('int',BITS[m.group(4)]))
        elif c in's': out.append(('ptr','s'))
        elif c=='p': out.append(('ptr','p'))
        elif c in'fFeEgGaA': out.append(('double',64))
        elif c=='n': out.append(('n',0))
        else: return None
def target(x):
    """bits of the integer variable a pointer names, None if not known"""
    x=strip(x); ty=None
    if x.kind=='instr' and x.op=='alloca': ty=x.allocty
    elif x.kind=='instr' and x.op=='gep' and x.srcty.kind=='array': ty=x.srcty
    while ty is not None and ty.kind=='array': ty=ty.elem
    return ty.bits if ty is not None and ty.kind=='int' else None
def P33(C,R,tier):
    P=C.P; fm=dict(PRINTF); scan=dict(SCANF); n=0
    # functions that hand their own format on
    ch=True; fwd={}
    while ch:
        ch=False
        for f in P.fns:
            for i in f.instrs():
                if i.op!='call': continue
                for t in P.targets(i):
                    k=V.get(t,fm.get(t)) 
                    if k is None or k>=len(i.ops): continue
                    a=strip(i.ops[k])
                    if a.kind=='arg' and fm.get(f.name)!=a.i: fm[f.name]=a.i; fwd[f.name]=t; ch=True
    for f in P.fns:
        for i in f.instrs():
            if i.op!='call': continue
            for t in P.targets(i):
                sc=t in scan; k=scan.get(t,fm.get(t,V.get(t)))
                if k is None or k>=len(i.ops): continue
                a=strip(i.ops[k])
                if a.kind=='arg' and fm.get(f.name)==a.i: continue
                fs=strings(C,i.ops[k]); n+=1
                if fs is None:
                    R.violation('nonliteral:%s:%s'%(f.src,C.name(t)),'the format given to %s is not a literal: text from elsewhere would be interpreted'%C.name(t),i.loc); continue
                if t in V: R.ok('%s: literal format'%i.loc); continue
                first=k+1
                args=i.ops[first:]
                vararg=t not in fwd or getattr(C.M.functions.get(t),'vararg',True)
                for s in sorted(fs):
                    w=wants(s,sc)
                    if w is None: R.violation('malformed:%s:%s'%(f.src,s[:20]),'the format "%s" is malformed'%s,i.loc); continue
                    if t in fwd and not vararg: continue
                    if len(w)>len(args): R.violation('few:%s:%s'%(f.src,s[:20].strip()),'the format "%s" takes %d arguments but %d are given'%(s.strip(),len(w),len(args)),i.loc); continue
                    bad=False
                    for (kind,b),x in zip(w,args):
                        ty=getattr(x,'ty',None); xk=x.kind
                        tk='ptr' if (ty is not None and ty.kind=='ptr') or xk in('global','null','func','cexpr') else 'double' if ty is not None and ty.kind in('double','float') else 'int'
                        bits=(ty.bits if ty is not None and ty.kind=='int' else getattr(x,'bits',None))
                        if kind=='n': R.violation('n:%s'%f.src,'a format writes to memory (%n)',i.loc); bad=True
                        elif sc and kind=='ptr' and b[0] in'diouxX' and target(x) not in(None,b[1]):
                            R.violation('size:%s:%s'%(f.src,s[:20].strip()),'the format "%s" stores a number of %d bits where there are %d'%(s.strip(),b[1],target(x)),i.loc); bad=True
                        elif kind=='ptr' and tk!='ptr' or kind!='ptr' and tk=='ptr' or kind=='double' and tk!='double' or kind=='int' and tk=='double' or kind=='int' and bits is not None and bits!=b:
                            R.violation('type:%s:%s'%(f.src,s[:20].strip()),'an argument of the format "%s" has another type than the format says'%s.strip(),i.loc); bad=True
                    if not bad: R.ok('%s: format and arguments of %s agree'%(i.loc,C.name(t)))
    R.need(n,40,'formatting calls'); R.cov['formatting_calls']=n; R.cov['forwarding_functions']=sorted(C.name(x) for x in fwd)
