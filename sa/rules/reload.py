"""P15: a reload takes effect as a whole or not at all.  P16: retired data goes only after its threads ended."""
from ..flow import Rule, Engine, Bool, Lin, State, ZERO, sym, const, add, sub, base_of
from ..common import Broken
from ..cg import strip, tag_of
from .config import text
from .structures import argsym, args_state
from .replies import cyclic, reach
from . import loader

GATES={'domains':('DisabledDomain',['DisabledDomain','DisabledList'],'ReloadDisabledList'),
       'addresses':('CurrIpMiscMapping',['BlockIP','IPSubstituting','IPSubstitutingFile'],'ReloadIPSubstituting'),
       'groups':('CurModuleMap',['ServerGroup'],'ReloadGroupFile')}
WHAT={'domains':'disabled list','addresses':'address mapping','groups':'server groups','hosts':'hosts file'}
class Reload(Rule):
    """ts=(reloaded, options found off, options found on, download failed)"""
    def __init__(s,C,anch):
        s.C=C; s.anch=anch; s.a={f:k for k,fs in anch.items() for f in fs}
        s.getb={f.name for f in C.fns('ConfigGetBoolean')}; s.dl={f.name for f in C.fns('GetFromInternet_MultiFiles')}; s.seen=set()
        s.reach=C.P.reaching(set(s.a)|s.dl)
    def init(s,fn): return (frozenset(),frozenset(),frozenset(),0)
    def descend(s,name,stack,i): return name not in s.a and name not in s.dl and (name in s.reach or s.small_helper(s.e,name,stack))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if not ts: return None
        if ts<=set(s.a):
            k=s.a[next(iter(ts))]; d,off,on,f=st.ts; s.seen.add((k,i.loc))
            if k in GATES and GATES[k][2] not in on: e.report('ungated:'+k,'the %s is reloaded although %s was not found set'%(WHAT[k],GATES[k][2]),i.loc,st.trace)
            st.ts=(d|{k},off,on,f); return None
        if ts<=s.dl:
            e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]; a=st.copy(); a.nes.add(v); d,off,on,f=st.ts; a.ts=(d,off,on,1); return [(st,ZERO),(a,v)]
        if ts<=s.getb:
            x=text(s.C,args[1])
            if x is None: return None
            e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]; a=st.copy(); d,off,on,f=st.ts
            a.ts=(d,off|{x},on,f); st.nes.add(v); st.ts=(d,off,on|{x},f); return [(st,v),(a,ZERO)]
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        d,off,on,f=st.ts
        if f: return
        for k in s.anch:
            if k not in d and not(k in GATES and GATES[k][2] in off): e.report('missed:'+k,'a reload ends without having reloaded the %s'%WHAT[k],i.loc,st.trace)
def reload_rule(C,R):
    anch={}
    for k,(g,lits,_) in GATES.items():
        fs,miss=loader.anchors(C,set(lits),C.glob(g))
        if not fs: R.violation('loader:'+k,'nothing loads or publishes the %s'%WHAT[k],'',[]); return
        anch[k]={f.name for f in fs}
    g=C.glob('MainDynamicContainer'); rd=C.P.reaching({f.name for f in C.fns('ReadLine')})
    pubs={f.name for f in C.P.fns for i in f.instrs() if i.op=='store' and i.ops[1] is g and i.ops[0].kind not in('const','null')}
    c=rd&(C.P.reaching(pubs)|pubs); anch['hosts']={x for x in c if not(c&set(C.P.callees.get(x,()))-{x})}
    tt={f.name for f in C.fns('TimedTask_Add')}; tasks=set()
    for f in C.P.fns:
        for i in f.instrs():
            if i.op=='call' and C.P.targets(i)&tt:
                for o in i.ops: tasks|=set(C.P.fnvals(o) or ()) if 'Func' in (o.name if hasattr(o,'name') and isinstance(o.name,str) else '') or strip(o).kind=='func' else set()
    n=0
    for t in sorted(tasks):
        if t in C.P.reaching(anch['hosts']) or any(t in C.P.reaching(v) for v in anch.values()):
            f=C.M.functions[t]; r=Reload(C,anch); e=Engine(C.P,r); e.run(f); R.take(e,'task:%s:'%f.src); n+=1
            for k,l in sorted(r.seen): R.ok('%s: reload of the %s at %s when its option is set'%(f.src,WHAT[k],l))
    R.need(n,1,'reloading tasks')
def P15(C,R,tier):
    for f in(loader.domains,loader.addresses,loader.groups,loader.hosts_rules): f(C,R)
    reload_rule(C,R)

# ------------------------------------------------------------------ P16
def tagaddr(C,v):
    """(struct,field offset) a pointer operand designates"""
    v=strip(v)
    return tag_of(v) if v.kind=='instr' else None
def maptag(C):
    """is a tag that of the module buffer of a map (the linker merges structures of one layout)"""
    off=C.off('ModuleMap','Modules'); lay=sorted(x[0] for x in (C.M.fieldnames.get('struct._ModuleMap') or C.M.fieldnames.get('struct.ModuleMap')))
    def f(t):
        if not isinstance(t,tuple) or len(t)!=2 or t[1]!=off: return False
        g=C.M.structs.get(t[0]); return g is not None and g.offsets is not None and sorted(g.offsets)==lay
    return f
class ThreadEnd(Rule):
    """ts: 'on' / 'gone' (the module was told that its thread is over)"""
    small=400
    def __init__(s,C,f,m,off,what):
        s.C=C; s.m=m; s.off=off; s.what=what; s.f=f; s.seen=set()
        s.addr=add(m,const(off)); s.w={g.name for g in C.P.fns for i in g.instrs() if i.op=='store' and i.ops[0].kind in('null','const') and tagaddr(C,i.ops[1])==what}
        s.reach=C.P.reaching(s.w)
    def init(s,fn): return 'on'
    def descend(s,name,stack,i): return name in s.reach and name not in s.C.P.threads and len(stack)<4
    def touch(s,e,st,a,i):
        if st.ts=='gone' and isinstance(a,Lin) and any(x==s.m[1][0][0] for x,_ in a[1]): e.report('after','a thread still uses its module after saying that it has ended',i.loc,st.trace)
    def on_load(s,e,st,i,a,tag,ctx,fn): s.touch(e,st,a,i)
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if a==s.addr and isinstance(v,Lin) and v.isconst() and v.c==0:
            s.seen.add(i.loc)
            s.touch(e,st,a,i); st.ts='gone'; st.note('%s: the thread is marked as ended'%i.loc); return
        s.touch(e,st,a,i)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if st.ts=='gone':
            for a in args:
                if isinstance(a,Lin) and any(x==s.m[1][0][0] for x,_ in a[1]): s.touch(e,st,a,i)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root and st.ts!='gone': e.report('stays','a thread ends without marking itself as ended, so its module is never released',i.loc,st.trace)
class Retire(Rule):
    """release of a map of modules. ts: a thread of it was found alive in this round"""
    small=400
    def __init__(s,C,fields,serv,rel):
        s.C=C; s.fields=fields; s.serv=serv; s.rel=rel; s.seen=set(); s.reach=C.P.reaching(rel)
        s.again=set(C.P.ft.get(C.tag('StableBufferIterator','Reset'),()))|{f.name for f in C.fns('StableBufferIterator_Init')}
        s.mt=maptag(C)
    def init(s,fn): return 0
    def descend(s,name,stack,i): return name in s.reach or s.small_helper(s.e,name,stack)
    def split_load(s,e,st,i,a,tag,v):
        if tag in s.fields and isinstance(v,Lin):
            s.seen.add(('check',s.C.field(tag),i.loc))
            b=st.copy(); r=[]
            if st.assume(Bool('eq',v)): r.append(st)
            if b.assume(Bool('ne',v)): b.ts=1; r.append(b); b.note('%s: %s says that the thread still runs'%(i.loc,s.C.field(tag)))
            return r
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag in s.serv and isinstance(v,Lin) and v.isconst() and v.c==0: s.seen.add(('stop',s.C.field(tag),i.loc))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.again: st.ts=0; return None
        if ts&s.rel and s.mt(e.src(args[0])[0]):
            s.seen.add(('release','',i.loc))
            if st.ts: e.report('running','the modules are released although a thread of one of them was found running','%s'%i.loc,st.trace)
        return None
class Running(Rule):
    """a map with running modules is not released directly. ts: some module was started"""
    def __init__(s,C,rel,minit):
        s.C=C; s.rel=rel; s.minit=minit; s.mt=maptag(C); s.reach=C.P.reaching(rel|minit); s.seen=set()
    def init(s,fn): return 0
    def descend(s,name,stack,i): return name not in s.minit and not s.C.M.functions[name].file.endswith(('stringlist.c','readconfig.c')) and (name in s.reach or s.small_helper(s.e,name,stack))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.minit:
            e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]; a=st.copy(); a.nes.add(v); st.ts=1; s.seen.add(('start',i.loc)); return [(st,ZERO),(a,v)]
        if ts&s.rel and s.mt(e.src(args[0])[0]):
            s.seen.add(('release',i.loc))
            if st.ts: e.report('started','modules whose threads were started are released without waiting for the threads',i.loc,st.trace)
        return None
class Handed(Rule):
    """what is given to the retiring thread is not what is in use afterwards; what was in use is given to it. ts: something was given"""
    def __init__(s,C,g,retire,reach):
        s.C=C; s.g=g; s.retire=retire; s.reach=reach; s.seen=set()
    def init(s,fn): return 0
    def descend(s,name,stack,i): return name in s.reach and name not in s.retire or s.small_helper(s.e,name,stack)
    def cur(s,e,st): return e.cell(st,sym(('G',s.g.name)))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts=={'pthread_create'} and set(s.C.P.fnvals(i.ops[2]) or ())&s.retire:
            st.env[('ghost','handed')]=args[3]; st.env[('ghost','at')]=ZERO; s.seen.add(('handed over',i.loc)); st.ts=1
            s.at=i.loc
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not st.ts: return
        c=s.cur(e,st); h=st.env.get(('ghost','handed'))
        if c is not None and h is not None and st.norm(c)==st.norm(h) and not st.norm(c).isconst(): e.report('live','the server groups left in place are the ones given away to be ended and released',i.loc,st.trace)
def blocks_rule(C,R,roots):
    """loops over the entries of a block start with its first entry"""
    from .ends import loops, affine, key, cast
    nb=set(C.P.ft.get(C.tag('StableBufferIterator','NextBlock'),())); cu=set(C.P.ft.get(C.tag('StableBufferIterator','CurrentBlockUsed'),())); n=0
    for f in C.P.fns:
        if f.name not in roots: continue
        for h,body in loops(f)[0]:
            phis=[x for x in h.instrs if x.op=='phi']; c=strip(h.instrs[-1].ops[0]) if len(h.instrs[-1].succs or ())==2 else None
            if c is None or c.kind!='instr' or c.op!='icmp': continue
            used=[o for o in c.ops if cast(o).kind=='instr' and cast(o).op=='call' and C.P.targets(cast(o))&cu]
            if not used: continue
            ix=[p for p in phis if any(feeds(o,p) for o in c.ops if o is not used[0])]; el=[p for p in phis if p.ty.kind=='ptr' and p not in ix]
            for p in ix:
                i0=[strip(v) for v,b in p.incoming if b not in body]; m0=[strip(v) for q in el for v,b in q.incoming if b not in body]
                if not i0 or not el: continue
                n+=1
                if all(v.kind=='const' for v in i0) and any(v.v!=0 for v in i0) and all(v.kind=='instr' and v.op=='call' and C.P.targets(v)&nb for v in m0):
                    R.violation('%s:skipped'%f.src,'the loop starts with the first entry of a block but counts it as a later one, so the last entry is never looked at',c.loc,[])
                else: R.ok('%s: the loop at %s covers the entries of a block from the first one'%(f.src,c.loc))
    return n
def feeds(v,p,d=0):
    v=strip(v)
    return v is p or v.kind=='instr' and d<8 and v.op not in('call','load','phi') and any(feeds(o,p,d+1) for o in v.ops)

def P16(C,R,tier):
    rel=set(C.P.ft.get(C.tag('StableBuffer','Free'),()))
    if not rel: raise Broken('release of a buffer not found')
    # threads of modules
    fields={}; serv=set(); n=0
    for f in C.P.fns:
        for i in f.instrs():
            if i.op=='call' and i.callee.kind=='func' and i.callee.name=='pthread_create':
                t=tagaddr(C,i.ops[0])
                if t is None or not str(t[0]).startswith(('struct.','union.')): continue
                for g in sorted(C.P.fnvals(i.ops[2]) or ()): fields.setdefault(t,set()).add(g)
    names={}
    for sn in('UdpM','TcpM'):
        serv.add(C.tag(sn,'IsServer'))
        for fld in('WorkThread','SweepThread'):
            try: names[C.tag(sn,fld)]=sn
            except Broken: pass
    fields={t:v for t,v in fields.items() if t in names}
    R.need(len(fields),2,'threads that modules keep track of')
    block={'select','poll','usleep','sleep','nanosleep'}|set(C.P.ft.get(C.tag('SocketPuller','Select'),()))
    def looks(g):
        h=C.M.functions.get(g); return bool(h) and len(list(h.blocks))<6 and any(x.op=='load' and tagaddr(C,x.ops[0]) in serv for x in h.instrs())
    for t,fns in sorted(fields.items()):
        for g in sorted(fns):
            f=C.M.functions[g]; m=argsym(f,0); r=ThreadEnd(C,f,m,t[1],t); e=Engine(C.P,r); e.run(f,init=args_state(f,len(f.args),r)); R.take(e,'%s:'%f.src); n+=1
            if not e.violations:
                if not r.seen: R.violation('%s:never'%f.src,'the thread never ends: nothing in it marks the module as released by it, so a retired module is kept forever',f.src,[])
                for l in sorted(r.seen): R.ok('%s: ends by marking %s at %s and leaves the module alone afterwards'%(f.src,C.field(t),l))
            # every round looks at the flag
            blk=block
            look={b for b in f.blocks for i in b.instrs if i.op=='load' and tagaddr(C,i.ops[0]) in serv or i.op=='call' and any(looks(t) for t in C.P.targets(i))}
            def within(b,seen):
                for x in b.succs:
                    if x not in look and x not in seen: seen.add(x); within(x,seen)
                return seen
            for b in f.blocks:
                for i in b.instrs:
                    if i.op=='call' and C.P.targets(i)&blk and C.P.targets(i)-{f.name}:
                        if b in look or b not in within(b,set()): R.ok('%s: the wait at %s is followed by a look at whether to end'%(f.src,i.loc))
                        elif other(b,i,look): R.violation('%s:forever'%f.src,'the thread can wait here again and again without looking whether it is to end',i.loc,[])
    # releases
    rt=[f for f in C.threads_reaching(rel) if any(s_.op=='load' and tagaddr(C,s_.ops[0]) in fields for g in C.P.reach(f.name) if g in C.M.functions for s_ in C.M.functions[g].instrs())and any(maptag(C)(tagaddr(C,x.ops[0])) for g in C.P.reach(f.name) if g in C.M.functions for x in C.M.functions[g].instrs() if x.op=='load') and f.name not in {y for v in fields.values() for y in v}]
    rt=[f for f in rt if not C.P.reach(f.name)&{x.name for k in('UdpM_Init','TcpM_Init') for x in C.fns(k)}]
    if not rt: R.violation('nowait','nothing waits for the threads of a retired map before releasing it','',[]); return
    for f in rt:
        r=Retire(C,set(fields),serv,rel); e=Engine(C.P,r); e.run(f); R.take(e,'%s:'%f.src)
        kinds={k for k,_,_ in r.seen}
        for k,w,l in sorted(r.seen): R.ok('%s: %s %s at %s'%(f.src,k,w,l))
        got={w for k,w,_ in r.seen if k=='check'}
        for t in sorted(fields):
            if C.field(t) not in got: R.violation('%s:unchecked:%s'%(f.src,C.field(t)),'retired modules are released without having looked whether %s still runs'%C.field(t),f.src,[])
        got={w for k,w,_ in r.seen if k=='stop'}
        for t in sorted(serv):
            if C.field(t) not in got: R.violation('%s:unstopped:%s'%(f.src,C.field(t)),'the threads of retired modules are never told to end (%s)'%C.field(t),f.src,[])
        if not e.violations and 'release' not in kinds: raise Broken('%s: release not found'%f.src)
    blocks_rule(C,R,{g for f in rt for g in C.P.reach(f.name)}|{f.name for f in rt})
    g=C.glob('CurModuleMap'); pubs={f.name for f in C.P.fns for i in f.instrs() if i.op=='store' and strip(i.ops[1]) is g}
    rn={f.name for f in rt}; giv={f.name for f in C.P.fns for i in f.instrs() if i.op=='call' and C.P.targets(i)=={'pthread_create'} and set(C.P.fnvals(i.ops[2]) or ())&rn}
    rr=C.P.reaching(giv|pubs); tops=[f for f in C.P.fns if f.name in rr and (giv&(C.P.reach(f.name)|{f.name})) and (pubs&(C.P.reach(f.name)|{f.name}))]
    tops=[f for f in tops if not any(o is not f and o.name in C.P.reach(f.name) for o in tops)]
    for f in tops:
        r=Handed(C,g,rn,rr); e=Engine(C.P,r); e.run(f); R.take(e,'%s:'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s is no longer in use'%(f.src,k,l))
    minit={f.name for k in('UdpM_Init','TcpM_Init') for f in C.fns(k)}
    fs,_=loader.anchors(C,{'ServerGroup'},C.glob('CurModuleMap'))
    for f in fs or ():
        r=Running(C,rel,minit); e=Engine(C.P,r); e.run(f); R.take(e,'%s:'%f.src)
        if not e.violations and not any(k=='start' for k,_ in r.seen): raise Broken('%s: start of modules not found'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
def other(b,i,look):
    """is the block in a cycle that avoids the look and is more than a wait spelled as a loop of its own"""
    line=i.loc.rsplit(':',1)[-1]
    def own(x): return all(getattr(j,'loc','').rsplit(':',1)[-1]==line for j in x.instrs if j.op in('call','store') and getattr(j,'loc',''))
    seen=set(); work=[b]
    while work:
        for x in work.pop().succs:
            if x in look or x in seen: continue
            seen.add(x); work.append(x)
    if b not in seen: return False
    cyc=[x for x in seen if b in reach_avoid(x,look)]
    return any(not own(x) for x in cyc)
def reach_avoid(b,look):
    seen=set(); work=[b]
    while work:
        for x in work.pop().succs:
            if x not in look and x not in seen: seen.add(x); work.append(x)
    return seen
