"""P11-P13: locks are paired, ordered and held wherever shared data is used.

Bottom-up over the call graph.  Every function that (transitively) takes or releases a lock
or touches guarded data is interpreted once with no lock held on entry; its summary is
  acq    locks it may take itself or through callees (with a witness site)
  need   guarded accesses that were not covered inside (propagated to the callers)
  open   True when it can return with a lock taken or releases one it did not take; such
         functions (lock/unlock helpers) are entered at each call instead of summarised
"""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, sym, const, add, sub, flat, atoms
from ..cg import tag_of, strip
from ..common import Broken

RD={'pthread_rwlock_rdlock'}
WR={'pthread_rwlock_wrlock','pthread_spin_lock','pthread_mutex_lock'}
UN={'pthread_rwlock_unlock','pthread_spin_unlock','pthread_mutex_unlock'}
OPS=RD|WR|UN

# lock -> variables whose contents may only be used under it
GUARDS=[('ModulesLock',('CurModuleMap',)),('IpMiscMappingLock',('CurrIpMiscMapping',)),('DisabledDomainLock',('DisabledDomain',)),
        ('HostsLock',('MainDynamicContainer',)),('CacheLock',('CacheInfo','CacheEnd','CacheCount','MapStart')),('StatisticLock',('SkipStatistic',))]

class Locks(Rule):
    small=0
    def __init__(s,L,root): s.L=L; s.root=root; s.acq={}; s.need={}; s.bad=[]; s.open=None; s.edges={}; s.ops=0; s.uses=set(); s.end=[]; s.outs=set()
    def init(s,fn): return (frozenset(),frozenset(),frozenset(),frozenset())   # held {(key,mode)}, valid symbols, released locks, released without holding
    # ---- helpers
    def lockkey(s,args,i):
        a=args[0]
        if len(a[1])==1 and a[1][0][0][0]=='G': return a[1][0][0][:2] if a.c==0 else ('G',a[1][0][0][1],a.c)
        t=tag_of(i.ops[0])
        if t and t[0]!='A': return t
        x=a[1][0][0] if len(a[1])==1 else None
        return ('?',)
    def held(s,st,k):
        for l,m in st.ts[0]:
            if l==k: return m
        return None
    def guard_of(s,e,l,depth=0):
        """(guarded variable, symbol loaded from it) the address/value l is derived from"""
        for x in flat(l):
            y=x
            while isinstance(y,tuple) and y and y[0]=='o': y=y[1]
            p=e.prov.get(y)
            if p is None: continue
            t,a=p
            if t and t[0]=='G' and t[1] in s.L.guard and a==sym(('G',t[1])): return t[1],x
            if depth<6 and isinstance(a,Lin):
                r=s.guard_of(e,a,depth+1)
                if r: return r
        return None
    def use(s,e,st,i,l,write,fn,what):
        g=s.guard_of(e,l)
        if not g: return
        var,x=g; lk=s.L.guard[var]; m=s.held(st,lk); s.uses.add((var,i.loc))
        if m is None:
            if lk in st.ts[2]:
                s.bad.append(('after:%s:%s'%(s.L.gname(var),fn.src),'%s is used after its lock was released'%s.L.gname(var),i.loc,st.trace))
            else: s.need.setdefault((lk,'w' if write else 'r'),(i.loc,'%s %s in %s'%(s.L.gname(var),'modified' if write else 'used',fn.src)))
            return
        if x not in st.ts[1] and var not in s.L.fixed:
            s.bad.append(('stale:%s:%s'%(s.L.gname(var),fn.src),'the %s read before taking its lock is used under the lock; a reload in between has replaced it'%s.L.gname(var),i.loc,st.trace))
        if write and m=='r':
            s.bad.append(('readonly:%s:%s'%(s.L.gname(var),fn.src),'%s is modified while its lock is only held for reading'%s.L.gname(var),i.loc,st.trace))
    def drop(s,st,k,i,fn):
        L=s.L; un=st.ts[3]
        if s.held(st,k) is None:
            if s.open!='?': s.open='effect'
            un=un|{k}
            s.bad.append(('release:%s:%s'%(L.lname(k),fn.src),'%s is released although it is not held'%L.lname(k),i.loc,st.trace))
        st.ts=(frozenset(x for x in st.ts[0] if x[0]!=k),st.ts[1],st.ts[2]|{k},un); st.note('%s: %s released'%(i.loc,L.lname(k)))
    def take(s,st,k,mode,i,fn,loc,via):
        L=s.L
        if s.held(st,k) is not None and k!=('?',):
            s.bad.append(('again:%s:%s'%(L.lname(k),fn.src),'%s is taken again%s by the thread that already holds it'%(L.lname(k),via),i.loc,st.trace))
        for h,_ in st.ts[0]: s.edges.setdefault((h,k),(loc,fn.src))
        s.acq.setdefault(k,loc); st.note('%s: %s taken'%(i.loc,L.lname(k)))
        st.ts=(frozenset(x for x in st.ts[0] if x[0]!=k)|{(k,mode)},st.ts[1],st.ts[2]-{k},st.ts[3]-{k})
        for var,lk in L.guard.items():
            if lk==k: st.mem.pop((sym(('G',var)),None),None)
    # ---- hooks
    def on_load(s,e,st,i,a,tag,ctx,fn):
        if tag and tag[0]=='G' and tag[1] in s.L.guard and a==sym(('G',tag[1])):
            v=s.L.guard[tag[1]]
            if s.held(st,v) is not None:
                m=st.mem.get((a,None)); x=flat(m[0])[0] if m is not None and isinstance(m[0],Lin) and flat(m[0]) else ('v',ctx,i.uid)
                st.ts=(st.ts[0],st.ts[1]|{x})+st.ts[2:]
            return
        s.use(e,st,i,a,False,fn,'read')
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag and tag[0]=='G' and tag[1] in s.L.guard and a==sym(('G',tag[1])):
            lk=s.L.guard[tag[1]]; m=s.held(st,lk); s.uses.add((tag[1],i.loc))
            if m is None:
                if lk in st.ts[2]: s.bad.append(('publish:%s:%s'%(s.L.gname(tag[1]),fn.src),'%s is replaced after its lock was released'%s.L.gname(tag[1]),i.loc,st.trace))
                else: s.need.setdefault((lk,'w'),(i.loc,'%s replaced in %s'%(s.L.gname(tag[1]),fn.src)))
            elif m=='r': s.bad.append(('publish-r:%s:%s'%(s.L.gname(tag[1]),fn.src),'%s is replaced while its lock is only held for reading'%s.L.gname(tag[1]),i.loc,st.trace))
            return
        s.use(e,st,i,a,True,fn,'written')
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        L=s.L
        n=next(iter(ts)) if len(ts)==1 else ''
        if n in OPS:
            s.ops+=1; k=s.lockkey(args,i)
            if k==('?',): s.open='?'
            if n in UN:
                s.drop(st,k,i,fn)
            else: s.take(st,k,'r' if n in RD else 'w',i,fn,i.loc,'')
            e.opaque(st,i,[n],args,ctx)
            return [(st,st.env.get((ctx,i.uid)))]
        # methods of a pending table living next to its lock
        if ts&L.ctxm and args:
            t=tag_of(i.ops[0])
            if t in L.ctxlock:
                lk=L.ctxlock[t]; s.uses.add((str(t),i.loc))
                if s.held(st,lk) is None: s.need.setdefault((lk,'w'),(i.loc,'pending queries used in %s'%fn.src))
        for t in ts:
            sm=L.summary.get(t)
            if sm is None or sm.open=='?': continue
            for k,loc in sm.acq.items():
                s.acq.setdefault(k,loc)
                if s.held(st,k) is not None: s.bad.append(('again:%s:%s'%(L.lname(k),fn.src),'%s is taken again inside %s by the thread that already holds it'%(L.lname(k),L.C.name(t)),i.loc,st.trace+('%s: taken here'%loc,)))
                for h,_ in st.ts[0]: s.edges.setdefault((h,k),(loc,L.C.name(t)))
            for (lk,m),w in sm.need.items():
                h=s.held(st,lk)
                if h is None: s.need.setdefault((lk,m),w)
                elif m=='w' and h=='r': s.bad.append(('readonly2:%s:%s'%(L.lname(lk),L.C.name(t)),'%s while %s is only held for reading'%(w[1],L.lname(lk)),w[0],st.trace))
        if not(ts and all(t in L.free for t in ts)):
            for k,a in enumerate(args):
                if s.guard_of(e,a):
                    w=any(k in L.C.P.amod.get(t,()) and t not in L.readers for t in ts) and not ts&L.lookups
                    s.use(e,st,i,a,w,fn,'passed')
        eff=[t for t in ts if t in L.summary and L.summary[t].open=='effect']
        if eff:
            out=[]
            e.opaque(st,i,list(ts),args,ctx)
            for t in ts:
                outs=L.summary[t].outs if t in eff else {(frozenset(),frozenset(),None)}
                for held,un,rk in sorted(outs,key=repr):
                    q=st.copy(); rv=q.env.get((ctx,i.uid))
                    if rk is not None and rv is not None:
                        if isinstance(rk,tuple): rv=const(rk[1])
                        elif rk=='nz': q.nes.add(rv)
                    for k in un: s.drop(q,k,i,fn)
                    for k,m in held: s.take(q,k,m,i,fn,L.summary[t].acq.get(k,i.loc),' inside %s'%L.C.name(t))
                    out.append((q,rv))
            return out
        return None
    def descend(s,name,stack,i):
        sm=s.L.summary.get(name)
        return sm is not None and sm.open=='?'
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        s.outs.add((st.ts[0],st.ts[3],e.retkey(st,rv)))
        if st.ts[0]:
            if s.open!='?': s.open='effect'
            s.end.append((i.loc,st.ts[0],st.trace))

class Analysis:
    def __init__(s,C):
        s.C=C; s.guard={}; s.names={}
        for lk,vs in GUARDS:
            if lk=='StatisticLock' and not all(C.glob(v,need=False) for v in vs+(lk,)): continue
            l=C.glob(lk)
            for v in vs:
                g=C.glob(v); s.guard[g.name]=('G',l.name); s.names[g.name]=v
            s.names[l.name]=lk
        for g in C.M.globals.values(): s.names.setdefault(g.name,getattr(g,'src',g.name))
        s.fixed={C.glob(v).name for l,vs in GUARDS if l=='CacheLock' for v in vs}      # set once; only their contents change
        s.free={'free','SafeFree','__errno_location'}|{f.name for f in C.fns('SafeFree')}
        s.readers=set(); s.lookups=set()
        MC=('Add','GenAnswerHeaderAndRemove','Sweep','FindAndRemove','Del')
        s.ctxm=set(); 
        for m in MC:
            try: s.ctxm|=set(C.P.ft.get(C.tag('ModuleContext',m),()))
            except Broken: pass
        s.ctxlock={}
        try: s.ctxlock[C.tag('UdpM','Context')]=C.tag('UdpM','Lock')
        except Broken: raise
        P=C.P
        touch={f.name for f in P.fns if any(i.op in('load','store') and (tag_of(i.ops[0] if i.op=='load' else i.ops[1]) or (0,0))[:2] in {('G',v) for v in s.guard} for i in f.instrs())}
        ctxuse={f.name for f in P.fns if any(i.op=='call' and P.targets(i)&s.ctxm for i in f.instrs())}
        inter=P.reaching(OPS|touch|ctxuse)
        s.summary={}; s.edges={}; s.order=[]
        seen=set()
        def visit(n):
            if n in seen: return
            seen.add(n)
            for c in sorted(P.callees.get(n,())):
                if c in inter: visit(c)
            if n in C.M.functions and not C.M.functions[n].decl: s.order.append(n)
        for f in P.fns:
            if f.name in inter: visit(f.name)
        s.steps=s.blocks=0; s.visited=set()
        late=set(); done=set()
        for n in s.order:
            if any(c in inter and c not in done and c in C.P.callees for c in P.callees.get(n,())): late.add(n)
            done.add(n)
        for n in s.order+[m for m in s.order if late&P.reach(m)]*(2 if late else 0):
            r=Locks(s,n); e=Engine(P,r); e.run(C.M.functions[n]); s.summary[n]=r
            s.steps+=e.steps; s.blocks+=e.blocks; s.visited|=e.visited_fns
            for k,v in r.edges.items(): s.edges.setdefault(k,v)
        s.roots=sorted(P.threads)
        # tasks handed to the timer run on its threads
    def gname(s,v): return s.names.get(v,v)
    def lname(s,k):
        if k[0]=='G': return s.names.get(k[1],k[1])
        if k==('?',): return 'a lock'
        for off,name,*_ in s.C.M.fieldnames.get(k[0],()):
            if off==k[1]: return '%s.%s'%(k[0].replace('struct.','').lstrip('_'),name)
        return str(k)
_cache={}
def analysis(C):
    if id(C) not in _cache: _cache[id(C)]=Analysis(C)
    return _cache[id(C)]
def cov(A,R):
    R.cov['instructions_interpreted']=A.steps; R.cov['blocks_explored']=A.blocks; R.cov['functions_entered']=sorted(A.visited)

def P11(C,R,tier):
    A=analysis(C); cov(A,R); ends=set(A.roots)|{'main'}
    n=0
    for name in A.order:
        r=A.summary[name]; n+=r.ops; f=C.M.functions[name]
        top=name in ends or name not in C.P.callers
        for key,msg,loc,tr in r.bad:
            if key.startswith('again'): R.violation(key,msg,loc,tr)
            if key.startswith('release') and top: R.violation(key,msg,loc,tr)
        if top:
            for x in r.end:
                R.violation('keep:%s'%f.src,'%s returns still holding %s'%(f.src,', '.join(A.lname(k) for k,_ in x[1])),x[0],x[2])
        if r.ops: R.ok('%s: %d lock operations paired'%(f.src,r.ops))
    R.need(n,20,'lock operations')

def P12(C,R,tier):
    A=analysis(C); cov(A,R)
    g={}
    for (a,b),w in A.edges.items():
        if a!=b and ('?',) not in(a,b): g.setdefault(a,{})[b]=w; R.ok('%s before %s (%s, %s)'%(A.lname(a),A.lname(b),w[0],w[1]))
    R.need(len(g),2,'nested lock acquisitions')
    # cycles
    def path(a,b,seen):
        if a==b: return [a]
        for c in g.get(a,()):
            if c not in seen:
                seen.add(c); p=path(c,b,seen)
                if p: return [a]+p
        return None
    for a in sorted(g,key=str):
        for b in sorted(g[a],key=str):
            p=path(b,a,{b})
            if p:
                cyc=[a]+p; names=sorted({A.lname(x) for x in cyc})
                R.violation('cycle:'+'+'.join(names),'locks are taken in opposite orders: '+' -> '.join(A.lname(x) for x in cyc),g[a][b][0],['%s then %s at %s in %s'%(A.lname(x),A.lname(y),*g[x][y]) for x,y in zip(cyc,cyc[1:])])

def P13(C,R,tier):
    A=analysis(C); cov(A,R); seen=set()
    for name in A.order:
        r=A.summary[name]; f=C.M.functions[name]
        for key,msg,loc,tr in r.bad:
            if key.split(':')[0] in('after','stale','readonly','readonly2','publish','publish-r'): R.violation(key,msg,loc,tr)
        for v,loc in sorted(r.uses): seen.add(v); R.ok('%s: %s at %s'%(f.src,A.gname(v),loc))
    for t in A.roots:
        r=A.summary.get(t)
        if r is None: continue
        for (lk,m),(loc,what) in sorted(r.need.items(),key=str):
            R.violation('unlocked:%s:%s'%(A.lname(lk),what),'%s without %s, reached from thread %s'%(what,A.lname(lk),C.name(t)),loc)
    for v in A.guard:
        if v not in seen: raise Broken('no use of %s found'%A.gname(v))
    if not any(v not in A.guard for v in seen): raise Broken('no use of a locked pending table found')
