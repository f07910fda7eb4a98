"""P31: the sockets between threads take messages from the program itself only."""
from ..flow import Rule, Engine, State, Bool, ZERO, const, sub, sym, base_of
from ..common import Broken
from ..cg import strip, tag_of, gep_walk
from .response import argsym

SK,AD=('ghost','sock'),('ghost','addr')
class Binder(Rule):
    """ts = none / open / bound / own (connected to the address it is bound to)"""
    def __init__(s,C): s.C=C; s.seen=set()
    def init(s,fn): return 'none'
    def descend(s,name,stack,i):
        f=s.C.M.functions[name]
        return s.small_helper(s.e,name,stack) and name!='AddressList_ConvertFromString'
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if n=='socket':
            e.opaque(st,i,[n],args,ctx); r=st.env[(ctx,i.uid)]; out=[]
            for b,k in((Bool('le',sub(ZERO,r)),'open'),(Bool('eq',sub(r,const(-1))),'none')):
                q=st.copy()
                if q.assume(b):
                    q.ts=k
                    for g in(SK,AD): q.env.pop(g,None)
                    if k=='open': q.env[SK]=q.norm(r)
                    out.append((q,q.norm(r)))
            return out
        mine=SK in st.env and len(args)>0 and st.decide(Bool('eq',sub(st.env[SK],args[0]))) is True
        if n in('bind','connect') and mine:
            s.seen.add((n,i.loc)); e.opaque(st,i,[n],args,ctx); r=st.env[(ctx,i.uid)]
            a=st.copy(); b=st
            if not a.assume(Bool('eq',r)): return None
            if n=='bind': a.ts='bound'; a.env[AD]=args[1]
            elif a.ts=='bound' and AD in a.env and a.env[AD]==args[1]: a.ts='own'
            b.nes.add(r); a.note('%s: %s succeeded'%(i.loc,n)); b.note('%s: %s failed'%(i.loc,n))
            return [(a,ZERO),(b,r)]
        if n=='close' and mine: st.ts='none'; st.env.pop(SK); return None
        if AD in st.env and n not in('bind','connect','memcpy') and not n.startswith('llvm.') and n!=s.C.fn('GetAddressLength').name:
            if any(base_of(a) is not None and base_of(a)==base_of(st.env[AD]) for a in args): st.env.pop(AD); st.ts='open'
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not hasattr(rv,'c'): return
        if st.decide(Bool('eq',sub(rv,const(-1)))) is True or st.decide(Bool('lt',rv)) is True: return
        s.seen.add(('returned',i.loc))
        if st.ts!='own': e.report(st.ts,{'none':'an internal socket is returned that is not open','open':'an internal socket is returned that is not bound','bound':'an internal socket is returned that accepts messages from anyone'}[st.ts],i.loc,st.trace)

def chain(v):
    """tags of every structure step of an address, and the global it starts from"""
    out=[]
    for _ in range(12):
        v=strip(v)
        if v is None: break
        if v.kind=='global': out.append(('G',v.name)); break
        if v.kind in('instr','cexpr') and v.op=='gep':
            t=gep_walk(v)
            if t: out.append(t)
            v=v.ops[0]; continue
        if v.kind=='instr' and v.op=='alloca': out.append(('A',v.uid))
        break
    return out
def const_of(v): return v.v if getattr(v,'kind','')=='const' else None
def roots(v,seen=None):
    """values a (possibly merged) SSA value comes from"""
    seen=set() if seen is None else seen; v=strip(v)
    if id(v) in seen: return []
    seen.add(id(v))
    if v.kind=='instr' and v.op in('phi','select'):
        return [r for o in (v.ops if v.op=='phi' else v.ops[1:]) for r in roots(o,seen)]
    return [v]

def P31(C,R,tier):
    f=C.fn('TryBindLocal'); r=Binder(C); e=Engine(C.P,r); e.run(f); R.take(e,'bind:')
    if not e.violations and not {'bind','connect','returned'}<={k for k,_ in r.seen}: raise Broken('internal binder: steps missing %s'%r.seen)
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    sites=C.P.sites.get(f.name,[]); R.need(len(sites),3,'internal sockets')
    owner={i.uid:g for g in C.P.fns for i in g.instrs() if i.op=='call'}
    vars_={}; pair={}
    for c in sites:
        g=owner[c.uid]; a=[t for t in chain(c.ops[2])]
        stored=[tag_of(i.ops[1]) for i in g.instrs() if i.op=='store' and any(x is c for x in roots(i.ops[0]))]
        for t in stored:
            if t: vars_[t]=c.loc
            for x in a[-1:] if a and a[-1][0]=='G' else a[:1]: pair[x]=t
        R.ok('%s: internal socket from the binder at %s'%(g.src,c.loc))
    for g in C.P.fns:
        for i in g.instrs():
            if i.op=='store':
                t=tag_of(i.ops[1])
                if t in vars_:
                    bad=[x for x in roots(i.ops[0]) if not(x.kind=='instr' and x.op=='call' and f.name in C.P.targets(x)) and const_of(x)!=-1]
                    if bad: R.violation('other:%s:%s'%(g.src,t[-1]),'an internal socket variable is set to something else than the loopback socket',i.loc)
                    else: R.ok('%s: %s holds the internal socket or none'%(i.loc,t[-1]))
            elif i.op=='call' and C.P.targets(i)=={'sendto'} and len(i.ops)>4:
                for t in chain(i.ops[4]):
                    if t in pair:
                        sv=strip(i.ops[0]); st=tag_of(sv.ops[0]) if sv.kind=='instr' and sv.op=='load' else None
                        if st!=pair[t]: R.violation('from:%s'%g.src,'a message to an internal socket is not sent from that socket and would be ignored',i.loc)
                        else: R.ok('%s: message to the internal socket is sent from itself at %s'%(g.src,i.loc))
