"""P22 / P23: what is acquired is released on every path; nothing is used after its release or
before its acquisition is known to have succeeded."""
from ..flow import Rule, Engine, Bool, Lin, ZERO, sym, const, base_of, atoms
from ..common import Broken
from ..cg import strip, tag_of

ACQ={'malloc':'memory','calloc':'memory','strdup':'memory','fopen':'file','fdopen':'file','tmpfile':'file','opendir':'dir',
     'socket':'socket','accept':'socket','accept4':'socket','open':'descriptor','curl_easy_init':'transfer handle'}
REL={'free':0,'fclose':0,'close':0,'closedir':0,'curl_easy_cleanup':0,'pclose':0}
KINDREL={'free':{'memory'},'fclose':{'file'},'close':{'socket','descriptor'},'closedir':{'dir'},'curl_easy_cleanup':{'transfer handle'}}
BAD={'socket':-1,'descriptor':-1}
# library functions that keep (part of) an argument after they return
KEEPS={'atexit':(0,),'pthread_create':(3,),'setvbuf':(1,),'putenv':(0,),'curl_easy_setopt':(2,),'realloc':(0,),'mmap':(4,),'fdopen':(0,)}
NONNULL={'fclose':(0,),'fread':(0,3),'fwrite':(0,3),'fgets':(0,2),'fputs':(0,1),'fprintf':(0,),'fseek':(0,),'ftell':(0,),'rewind':(0,),'fgetc':(0,),'fputc':(1,),
   'memcpy':(0,1),'memmove':(0,1),'memset':(0,),'strcpy':(0,1),'strncpy':(0,1),'strcat':(0,1),'strlen':(0,),'strcmp':(0,1),'sprintf':(0,),'snprintf':(0,),'feof':(0,),'ferror':(0,),'fflush':(),'fileno':(0,),'closedir':(0,)}

class Sums:
    """what each function does with the things its parameters lead to"""
    def __init__(s,C):
        s.C=C; P=s.P=C.P
        s.rel={}      # fn -> {k: kinds} frees its k-th argument itself
        s.clears={}   # fn -> {k} frees something its k-th argument leads to
        s.inits={}    # fn -> {k} leaves something acquired behind its k-th argument
        s.caps={}     # fn -> {k} keeps its k-th argument
        s.sures={}; s.owners=set()   # members whose content something releases
        s.copies={}   # fn -> {k} copies what its k-th argument points at
        s.capto={f.name:{} for f in P.fns}  # fn -> {k: behind which parameters (or 'else') it is kept}
        s.fresh={}    # fn -> (kinds, failing constants)
        s.deref={}    # fn -> {k} dereferences its k-th argument whatever it is
        for f in P.fns:
            for d in(s.rel,): d[f.name]={}
            for d in(s.clears,s.inits,s.caps,s.copies): d[f.name]=set()
        ch=True
        while ch:
            ch=False
            for f in P.fns: ch|=s.step(f)
        s.nulls()
    def keep(s,n,k,dest):
        s.caps[n].add(k); s.capto[n].setdefault(k,set()).add(dest)
    def into(s,n,k,v,f):
        """the k-th argument is kept behind the address v: behind which parameters, or elsewhere; a local object does not count"""
        d={j for j,_ in s.orig(v)}
        for j in d: s.keep(n,k,j)
        if not d and s.local(v,f) is None: s.keep(n,k,'else')
    def sure(s,n,busy=()):
        """the constant a function returns whenever none of its pointer arguments is null, if there is one"""
        if n in s.sures: return s.sures[n]
        f=s.P.M.functions.get(n)
        if f is None or f.decl or n in busy: return None
        edges=set(); seen={f.blocks[0]}
        def val(v,d=0):
            v=strip(v)
            if v is None or d>12: return None
            if v.kind=='const': return v.v
            if v.kind=='null': return 0
            if v.kind=='arg': return 'p' if v.ty.kind=='ptr' else None
            if v.kind!='instr': return None
            if v.op=='alloca': return 'p'
            if v.op=='gep': return 'p' if val(v.ops[0],d+1)=='p' else None
            if v.op in('zext','sext','freeze'): return val(v.ops[0],d+1)
            if v.op=='icmp' and v.pred in('eq','ne'):
                a,b=val(v.ops[0],d+1),val(v.ops[1],d+1)
                if a is None or b is None or a==b=='p': return None
                return int((a==b)==(v.pred=='eq'))
            if v.op=='phi':
                r={val(x,d+1) for x,b in v.incoming if (b,v.block) in edges}
                return r.pop() if len(r)==1 else None
            if v.op=='select':
                c=val(v.ops[0],d+1); r={val(x,d+1) for k,x in enumerate(v.ops[1:]) if c is None or c==1-k}
                return r.pop() if len(r)==1 else None
            if v.op=='call':
                ts=s.P.targets(v)
                if not ts or any(a.ty.kind=='ptr' and val(a,d+1)!='p' for a in v.ops if hasattr(a,'ty') and a.ty is not None): return None
                r={s.sure(x,busy+(n,)) for x in ts}
                return r.pop() if len(r)==1 else None
        ch=True
        while ch:
            ch=False
            for b in list(seen):
                t=b.instrs[-1]; nx=list(t.succs or [])
                if t.op=='br' and len(nx)==2:
                    c=val(t.ops[0])
                    if c in(0,1): nx=[nx[1-c]]
                for x in nx:
                    if (b,x) not in edges: edges.add((b,x)); seen.add(x); ch=True
        r=set()
        for b in seen:
            t=b.instrs[-1]
            if t.op=='ret': r.add(val(t.ops[0]) if t.ops else None)
        r=r.pop() if len(r)==1 else None
        if not busy: s.sures[n]=r if r!='p' else None
        return r if r!='p' else None
    def cb(s,i):
        """a call that hands over a function: what it does is up to that function"""
        return any(s.P.fnvals(a) for a in i.ops)
    def orig(s,v,seen=None):
        """{(k,depth)}: the parameters a value stems from and how many loads away"""
        seen=seen if seen is not None else set()
        v=strip(v)
        if v is None or id(v) in seen: return set()
        seen.add(id(v))
        if v.kind=='arg': return {(v.i,0)}
        if v.kind=='instr':
            if v.op in('gep','bitcast','phi','select','inttoptr','ptrtoint','sext','zext','trunc','freeze'):
                ops=v.ops[:1] if v.op=='gep' else v.ops[1:] if v.op=='select' else v.ops
                return set().union(*[s.orig(o,seen) for o in ops]) if ops else set()
            if v.op=='load': return {(k,d+1) for k,d in s.orig(v.ops[0],seen) if d<4}
        return set()
    def sources(s,v,seen=None):
        """the calls and constants a value can be"""
        seen=seen if seen is not None else set()
        v=strip(v)
        if v is None or id(v) in seen: return set()
        seen.add(id(v))
        if v.kind in('null','const','undef','zero'): return {('c',getattr(v,'v',getattr(v,'c',0)) if v.kind=='const' else 0)}
        if v.kind=='instr':
            if v.op in('phi','bitcast'): return set().union(*[s.sources(o,seen) for o in v.ops])
            if v.op=='select': return s.sources(v.ops[1],seen)|s.sources(v.ops[2],seen)
            if v.op=='call': return {('call',v)}
        return {('?',)}
    def acq(s,i):
        """kinds of the thing a call returns to its caller's care, or None"""
        ts=s.P.targets(i)
        if not ts: return None
        r=set(); bad=set()
        for t in ts:
            if t in ACQ: r.add(ACQ[t]); bad.add(BAD.get(ACQ[t],0))
            elif t in s.fresh: r|=s.fresh[t][0]; bad|=s.fresh[t][1]
            else: return None
        return frozenset(r),frozenset(bad)
    def owns(s,p):
        """is what is stored there ever released from there"""
        t=tag_of(p)
        return t is None or not str(t[0]).startswith('struct') or t in s.owners
    def whole(s,v):
        """does the address lead to the start of the object (not to a member inside it)"""
        v=strip(v); n=0
        while v is not None and v.kind=='instr' and v.op in('gep','bitcast','load') and n<20:
            if v.op=='load': return True
            if v.op=='gep' and any(getattr(strip(o),'v',1)!=0 for o in v.ops[1:]): return False
            v=strip(v.ops[0]); n+=1
        return True
    def local(s,v,f):
        """the alloca a pointer leads into"""
        v=strip(v); n=0
        while v is not None and v.kind=='instr' and v.op in('gep','bitcast') and n<20: v=strip(v.ops[0]); n+=1
        return v.uid if v is not None and v.kind=='instr' and v.op=='alloca' else None
    def step(s,f):
        n=f.name; n0=(len(s.owners),len(s.rel[n]),sum(len(x) for x in s.rel[n].values()),len(s.clears[n]),len(s.inits[n]),len(s.caps[n]),sum(len(x) for x in s.capto[n].values()),len(s.copies[n]),s.fresh.get(n))
        held={}      # local alloca -> parameters stored in it
        for i in f.instrs():
            if i.op=='store':
                o=s.orig(i.ops[0]); d=s.orig(i.ops[1]); a=s.local(i.ops[1],f)
                for k,dep in o:
                    if dep==0 and f.args[k].ty.kind in('ptr','int'):
                        if a is None: 
                            
                            if f.args[k].ty.kind=='ptr' or i.ops[0].kind=='arg' and s.owns(i.ops[1]): s.into(n,k,i.ops[1],f)
                        else: held.setdefault(a,set()).add(k)
                if d:
                    src=s.sources(i.ops[0])
                    if any(x[0]=='call' and s.acq(x[1]) for x in src):
                        for k,dep in d: s.inits[n].add(k)
        for i in f.instrs():
            if i.op=='ret' and i.ops:
                for k,dep in s.orig(i.ops[0]):
                    if dep==0: s.keep(n,k,'else')
            if i.op!='call': continue
            for t in s.P.targets(i):
                defd=t in s.rel
                for k,a in enumerate(i.ops):
                    o=s.orig(a); al=s.local(a,f)
                    if (t in REL and k==REL[t] or defd and k in s.rel[t]) and strip(a).kind=='instr' and strip(a).op=='load': s.owners.add(tag_of(strip(a).ops[0]))
                    if al is not None and (t=='pthread_create' or defd or t.startswith('llvm.memcpy') and k==1):
                        for h in held.get(al,()): s.keep(n,h,'else')
                    for p,dep in o:
                        if t in REL and k==REL[t]:
                            if dep==0: s.rel[n].setdefault(p,set()).update(KINDREL.get(t,{'memory'}))
                            else: s.clears[n].add(p)
                        if t in KEEPS and k in KEEPS[t]:
                            if dep==0: s.keep(n,p,'else')
                        if t=='realloc' and k==0 and dep>=1: s.inits[n].add(p)
                        if t.startswith(('llvm.memcpy','llvm.memmove','memcpy','memmove')) and k==1 and dep==0 and s.whole(a): s.copies[n].add(p)
                        if defd:
                            if k in s.rel[t]:
                                if dep==0: s.rel[n].setdefault(p,set()).update(s.rel[t][k])
                                else: s.clears[n].add(p)
                            if k in s.clears[t] and strip(i.callee).kind!='arg' and not s.cb(i): s.clears[n].add(p)
                            if k in s.inits[t] and strip(i.callee).kind!='arg': s.inits[n].add(p)
                            if dep==0:
                                for d in list(s.capto[t].get(k,())):
                                    if d=='else' or d>=len(i.ops): s.keep(n,p,'else')
                                    else: s.into(n,p,i.ops[d],f)
                                if k in s.copies[t]: s.copies[n].add(p)
        # fresh results
        ks=set(); bad=set(); ok=bool(f.retty.kind in('ptr','int')) if hasattr(f,'retty') else True; got=False
        for i in f.instrs():
            if i.op=='ret':
                if not i.ops: ok=False; break
                for x in s.sources(i.ops[0]):
                    if x[0]=='c': bad.add(x[1])
                    elif x[0]=='call':
                        a=s.acq(x[1])
                        if a is None: ok=False
                        else: ks|=a[0]; bad|=a[1]; got=True
                    else: ok=False
        if ok and got: s.fresh[n]=(frozenset(ks),frozenset(bad))
        return n0!=(len(s.owners),len(s.rel[n]),sum(len(x) for x in s.rel[n].values()),len(s.clears[n]),len(s.inits[n]),len(s.caps[n]),sum(len(x) for x in s.capto[n].values()),len(s.copies[n]),s.fresh.get(n))
    def nulls(s):
        """parameters dereferenced in the entry block, or handed on there to something that does"""
        for f in s.P.fns: s.deref[f.name]=set()
        ch=True
        while ch:
            ch=False
            for f in s.P.fns:
                d=s.deref[f.name]; n0=len(d)
                for i in f.blocks[0].instrs:
                    if i.op in('load','store'):
                        a=i.ops[0] if i.op=='load' else i.ops[1]
                        for k,dep in s.orig(a):
                            if dep==0: d.add(k)
                    elif i.op=='call':
                        ts=s.P.targets(i)
                        for k,a in enumerate(i.ops):
                            if ts and all(k in s.deref.get(t,NONNULL.get(t,())) for t in ts):
                                for p,dep in s.orig(a):
                                    if dep==0: d.add(p)
                ch|=len(d)!=n0

class Own(Rule):
    step_limit=400000
    def __init__(s,C,S,root):
        s.C=C; s.S=S; s.root=root; s.sites=set(); s.nobj=0
        s.unk=False; ft=C.P.ft
        s.pwhat=set(); s.poolfiles={f.file for t in ft.get(C.tag('SocketPuller','Del'),()) for f in [C.M.functions[t]]}
        s.bstdel=set(ft.get(C.tag('Bst','Delete'),())); s.pdel=set(ft.get(C.tag('SocketPuller','Del'),()))
    def key(s,st): return (st.ts,frozenset(k[1] for k in st.env if k[0]=='ghost' and k[1][0]=='released'))
    # ts: frozenset of (site, kinds, state, loc, what)
    def init(s,fn): return frozenset()
    def get(s,st,site):
        for x in st.ts:
            if x[0]==site: return x
    def put(s,st,site,ent):
        st.ts=frozenset([x for x in st.ts if x[0]!=site]+([ent] if ent else []))
    def state(s,st,x,state): s.put(st,x[0],(x[0],x[1],state)+x[3:])
    def of(s,st,l):
        """the tracked thing a value is (exactly)"""
        if not isinstance(l,Lin) or l.c!=0 or len(l[1])!=1 or l[1][0][1]!=1: return None
        a=l[1][0][0]
        for x in st.ts:
            if x[0]==a: return x
    def within(s,st,l):
        """the tracked thing an address points into"""
        if not isinstance(l,Lin): return None
        for a,k in l[1]:
            if k==1:
                for x in st.ts:
                    if x[0]==a: return x
    def small_alloca(s,a): return isinstance(a,tuple) and a[0]=='A'
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        if isinstance(c,Bool) and c.pred=='eq' and len(c.lin[1])==2 and c.lin[0]==0:
            a=[x for x,_ in c.lin[1]]
            if any(isinstance(x,tuple) and x[0]=='A' for x in a) and any(y[0] in a for y in q.ts): q.dead=True     # a block is no local object
    def acquire(s,e,st,i,ctx,fn,kinds,bad,what):
        x=('v',ctx,i.uid); old=s.get(st,x)
        if old and old[2]=='live':
            s.leak(e,st,old,'is acquired again while the previous one is still held',i.loc)
        out=[]
        for b in sorted(bad):
            q=st.copy(); q.forget(x); s.put(q,x,None); q.note('%s: %s fails'%(i.loc,what)); out.append((q,const(b)))
        q=st; q.forget(x); v=sym(x); s.put(q,x,(x,tuple(sorted(kinds)),'live',i.loc,what,fn.src))
        if kinds<={'socket','descriptor'}: q.ineqs.add(Lin(0,((x,-1),)))
        else: q.nes.add(v); q.ineqs.add(Lin(1,((x,-1),)))
        q.note('%s: %s'%(i.loc,what)); out.append((q,v))
        s.sites.add((i.loc,what))
        return out
    def leak(s,e,st,x,how,loc):
        e.report('leak:%s:%s'%(x[5],x[4]),'the %s acquired by %s at %s %s'%(x[1][0],x[4],x[3],how),loc,st.trace)
    def gone(s,e,st,x,loc,how):
        if x[2]=='released':
            e.report('reuse:%s:%s'%(s.root.src,x[4]),'the %s from %s (%s) is %s after it was released'%(x[1][0],x[4],x[3],how),loc,st.trace)
            return True
    def mine(s,op,fn):
        """does the pointer come from an acquisition made in this function"""
        op=strip(op); n=0
        while op is not None and op.kind=='instr' and op.op=='gep' and n<20: op=strip(op.ops[0]); n+=1
        src=s.S.sources(op)
        if any(x[0]=='call' and s.S.acq(x[1]) for x in src): return True
        if op is not None and op.kind=='instr' and op.op=='load':
            t=tag_of(op.ops[0])
            if t is None: return False
            for i in fn.instrs():
                if i.op=='store' and tag_of(i.ops[1])==t and any(x[0]=='call' and s.S.acq(x[1]) for x in s.S.sources(i.ops[0])): return True
        return False
    def addr(s,e,st,a,loc,fn,op):
        if isinstance(a,Lin) and a.isconst() and -1<=a.c<4096:
            if s.mine(op,fn): e.report('null:%s:%s'%(fn.src,loc.split(':')[0]),'a pointer that is null on this path, where acquiring it failed, is dereferenced',loc,st.trace)
            return
        x=s.within(st,a)
        if x: s.gone(e,st,x,loc,'used')
        s.ghost(e,st,a,loc,'used')
    def ghost(s,e,st,a,loc,how):
        if not isinstance(a,Lin) or not a[1]: return
        for k in st.env:
            if k[0]=='ghost' and k[1][0]=='released':
                y=k[1][1][1][0][0]
                if any(z==y and n==1 for z,n in a[1]):
                    e.report('reuse:%s:%s'%(s.root.src,k[1][2][1]),'what %s released at %s is %s afterwards'%(k[1][2][1],k[1][2][0],how),loc,st.trace); return True
    def on_load(s,e,st,i,a,tag,ctx,fn): s.addr(e,st,a,i.loc,fn,i.ops[0])
    def on_loaded(s,e,st,i,a,tag,v):
        """a member whose content was released still leads to it"""
        if not isinstance(v,Lin) or len(v[1])!=1 or v.c!=0: return
        a=st.norm(a)
        for k in [k for k in st.env if k[0]=='ghost' and k[1][0]=='relcell']:
            if st.norm(k[1][1])==a: st.env[('ghost',('released',v,k[1][2]))]=ZERO
    def overwritten(s,st,pred):
        for k in [k for k in st.env if k[0]=='ghost' and k[1][0]=='relcell' and pred(k[1])]: del st.env[k]
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        s.addr(e,st,a,i.loc,fn,i.ops[1])
        s.overwritten(st,lambda k: st.norm(k[1])==st.norm(a) or k[3]==tag)
        x=s.of(st,v) if isinstance(v,Lin) else None
        if x is None and isinstance(v,Lin): x=s.within(st,v)
        b=base_of(a)
        if x and not(b and b[0]=='A') and x[2]=='released' and s.of(st,v):
            e.report('reuse:%s:%s'%(s.root.src,x[4]),'the %s from %s (%s) is stored after it was released'%(x[1][0],x[4],x[3]),i.loc,st.trace)
        if x and x[2]=='live' and not(b and b[0]=='A') and not(set(x[1])<={'socket','descriptor'} and not s.S.owns(i.ops[1])):
            y=s.within(st,a)
            if not(y and y[0]==x[0]): s.state(st,x,'kept')
    def holds(s,st,a):
        """things stored inside the local object a"""
        out=[]
        for k,m in st.mem.items():
            if isinstance(k[0],Lin) and base_of(k[0])==a and isinstance(m[0],Lin):
                x=s.of(st,m[0])
                if x: out.append(x)
        return out
    def descend(s,name,stack,i): return False
    def localholder(s,ts,k,args):
        """the callee keeps the argument only in another local object of the caller"""
        for t in ts:
            h=s.S.capto.get(t,{}).get(k)
            if not h or 'else' in h or k in s.S.copies.get(t,()): return False
            for j in h:
                b=base_of(args[j]) if j<len(args) else None
                if not(b and b[0]=='A'): return False
        return bool(ts)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        S=s.S
        x=s.get(st,('v',ctx,i.uid))
        if x and x[4] in s.pwhat:
            if x[2]=='live': s.leak(e,st,x,'is lost when the next one is taken',i.loc)
            s.put(st,x[0],None)
        if not ts: 
            for a in args:
                x=s.within(st,a)
                if x and x[2]=='live': s.state(st,x,'kept')
            return None
        if all((S.P.M.functions[t].file or '').endswith('logs.c') for t in ts if t in S.P.M.functions and not S.P.M.functions[t].decl) and all(t in S.P.M.functions and not S.P.M.functions[t].decl for t in ts):
            for a in args:
                x=s.within(st,a)
                if x: s.gone(e,st,x,i.loc,'used')
            return [(st,None)]
        what=' / '.join(sorted(s.C.name(t) for t in ts))
        # things released or handed over by this call
        post=[]
        for k,a in enumerate(args):
            x=s.of(st,a); w=x or s.within(st,a); b=base_of(a)
            r=[t for t in ts if (t in REL and REL[t]==k) or k in S.rel.get(t,{})]
            if a.isconst() and a.c==0:
                if all(k in S.deref.get(t,NONNULL.get(t,())) for t in ts) and s.mine(i.ops[k],fn):
                    e.report('null:%s:%s'%(fn.src,what),'%s is given a pointer that is null on this path, where acquiring it failed'%what,i.loc,st.trace)
                continue
            bk=not r and any(t in S.rel for t in ts)      # the number of a closed descriptor may still be looked up in tables
            if not w and not(bk and i.ops[k].ty.kind=='int' if hasattr(i.ops[k],'ty') else bk) and s.ghost(e,st,a,i.loc,'released again' if r else 'used'): return []
            if w and bk and w[2]=='released' and set(w[1])<={'socket','descriptor'}: continue
            if w:
                if s.gone(e,st,w,i.loc,'released again' if r else 'used'): return []
                if r and x:
                    kinds=set()
                    for t in r: kinds|=KINDREL.get(t,set()) if t in REL else S.rel[t][k]
                    if x[2] in('live','kept'): s.state(st,x,'released'); st.note('%s: released'%i.loc)
                    continue
                if any(k in S.caps.get(t,KEEPS.get(t,()))  for t in ts) and w[2]=='live': s.state(st,w,'kept')
                if any(k in S.clears.get(t,()) for t in ts) and w[2]=='live' and 'obj' in w[1]: s.state(st,w,'released')
            elif r and not a.isconst() and not(b and b[0]=='A'):
                # something this function did not acquire itself
                y=a[1][0][0] if len(a[1])==1 and a.c==0 and a[1][0][1]==1 else None
                if y is not None:
                    post.append((a,i.loc,what))
            if b and b[0]=='A':
                for y in s.holds(st,b):
                    defd=[t for t in ts if t in S.rel]
                    if (defd or any(t.startswith(('llvm.memcpy','pthread_create')) for t in ts)) and y[2]=='live': s.state(st,y,'kept')
        mod=set().union(*[S.P.mod.get(t,{'all'}) if t in S.P.M.functions and not S.P.M.functions[t].decl else set() for t in ts])
        s.overwritten(st,lambda k: k[3] is None or 'all' in mod or k[3] in mod or str(k[3][0]) in('G','?'))
        if ts<=s.bstdel and len(args)>1:
            x=args[1]; b=base_of(x)
            if isinstance(x,Lin) and x.c==0 and len(x[1])==1 and x[1][0][1]==1 and not(b and b[0]=='A') and x[1][0][0][0]!='u' : post.append((x,i.loc,what))
        for a,l,w in post:
            for k,m in st.mem.items():
                b=base_of(k[0])
                if isinstance(m[0],Lin) and m[0]==a and not(b and b[0]=='A') and k[1] is None: st.env[('ghost',('relcell',k[0],(l,w),m[1][0]))]=ZERO
            st.env[('ghost',('released',a,(l,w)))]=ZERO; st.note('%s: %s'%(l,w))
        # local objects
        for k,a in enumerate(args):
            b=base_of(a)
            if not(b and b[0]=='A'): continue
            site=('obj',b); x=s.get(st,site)
            if x:
                if any(k in S.clears[t] for t in ts if t in S.clears): s.put(st,site,None); x=None
                elif x[2]=='live' and s.localholder(ts,k,args): pass
                elif x[2]=='live' and any(k in S.copies.get(t,()) or k in S.caps.get(t,()) or t.startswith(('llvm.memcpy','llvm.memmove','memcpy')) and k==1 for t in ts): s.state(st,x,'kept')
            elif all(k in S.inits.get(t,()) for t in ts) and not e.scalar(b[2]):
                s.sites.add((i.loc,what)); s.nobj+=1
                names=sorted(ts)
                def opq(q): e.opaque(q,i,names,args,ctx)
                if i.ty.kind=='void':
                    opq(st); s.put(st,site,(site,('contents',),'live',i.loc,what,fn.src)); return [(st,None)]
                if i.ty.kind=='int':
                    opq(st)
                    q=st.copy(); v=sym(('v',ctx,i.uid)); q.nes.add(v); q.note('%s: %s fails'%(i.loc,what))
                    s.put(st,site,(site,('contents',),'live',i.loc,what,fn.src)); st.note('%s: %s'%(i.loc,what))
                    return [(q,v),(st,ZERO)]
        if i.ty.kind=='int' and ts and all(s.S.sure(t) is not None for t in ts) and all((base_of(a) or ('',))[0]=='A' for a,o in zip(args,i.ops) if hasattr(o,'ty') and o.ty is not None and o.ty.kind=='ptr'):
            c={s.S.sure(t) for t in ts}
            if len(c)==1: e.opaque(st,i,sorted(ts),args,ctx); return [(st,const(c.pop()))]
        if ts<=s.pdel and len(args)>1 and len(args[1][1])==1 and args[1].c==0 and args[1][1][0][1]==1 and s.root.file not in s.poolfiles:
            x=args[1][1][0][0]; old=s.get(st,x)
            if not old and not any(k[0]=='ghost' and k[1][0]=='released' and k[1][1]==args[1] for k in st.env):
                e.opaque(st,i,sorted(ts),args,ctx); s.pwhat.add(what); s.sites.add((i.loc,what)); s.put(st,x,(x,('socket',),'live',i.loc,what,fn.src)); return [(st,e.fresh(st,('v',ctx,i.uid)))]
        if ts and all(t in REL for t in ts):
            return [(st,None if i.ty.kind=='void' else e.fresh(st,('v',ctx,i.uid)))]
        a=S.acq(i)
        if a is not None and i.ty.kind in('ptr','int'):
            names=sorted(ts); e.opaque(st,i,names,args,ctx)
            return s.acquire(e,st,i,ctx,fn,a[0],a[1],what)
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        if isinstance(rv,Lin):
            x=s.of(st,rv)
            if x and x[2]=='released': e.report('reuse:%s:%s'%(s.root.src,x[4]),'the %s from %s (%s) is returned after it was released'%(x[1][0],x[4],x[3]),i.loc,st.trace)
            elif not x and len(rv[1])==1 and rv.c==0: s.ghost(e,st,rv,i.loc,'returned')
        for x in st.ts:
            if x[2]!='live': continue
            if isinstance(rv,Lin) and any(y==x[0] for y,_ in rv[1]): continue
            if x[0][0]!='obj' :
                # held in an object that outlives this call?
                pass
            s.leak(e,st,x,'is neither released nor handed on when %s returns'%s.root.src,i.loc)

def run(C):
    if hasattr(C,'_own'): return C._own
    S=Sums(C); res=[]; ft=C.P.ft; dels=set(ft.get(C.tag('Bst','Delete'),()))|set(ft.get(C.tag('SocketPuller','Del'),()))
    for f in sorted(C.P.fns,key=lambda f:(f.file,f.src)):
        if not any(i.op=='call' and (S.acq(i) or any(t in REL or t in dels or S.rel.get(t) or S.inits.get(t) for t in C.P.targets(i))) for i in f.instrs()): continue
        r=Own(C,S,f); e=Engine(C.P,r)
        try: e.run(f)
        except RuntimeError as x: res.append((f,r,e,str(x))); continue
        res.append((f,r,e,None))
    C._own=(S,res); return C._own

def P22(C,R,tier):
    S,res=run(C); n=0
    for f,r,e,err in res:
        for k,v in e.violations.items():
            if k.startswith('leak:'): R.violation(k,v['msg'],v['loc'],v['trace'])
        for l,w in sorted(r.sites): R.ok('%s: what %s acquires at %s is released, kept or returned on every path'%(f.src,w,l)); n+=1
    for name,a,by,down in structs(C,S):
        if by: R.ok('%s (acquired in %s) is released by %s'%(name,C.name(a[0][0]),', '.join(by)))
        else: R.violation('member:'+name,'%s is acquired for the object but %s, which tears it down, does not release it'%(name,' / '.join(down)),a[0][1])
    R.need(n,40,'acquisitions')
def P23(C,R,tier):
    S,res=run(C)
    for f,r,e,err in res:
        for k,v in e.violations.items():
            if not k.startswith('leak:'): R.violation(k,v['msg'],v['loc'],v['trace'])
        if f is res[0][0]:
            for l,fn,t,own in elements(C,S):
                if own: R.ok('%s: an element of %s is released at %s'%(fn,C.field(t),l))
                else: R.violation('element:%s:%s'%(fn,C.field(t)),'%s releases what an element of %s points at, which the list does not own'%(fn,C.field(t)),l)
        R.ok('%s: nothing used after its release or before its acquisition is known to have succeeded'%f.src)

def members(C,S):
    """per structure: which members are acquired for it and which functions release them"""
    acq={}; rel={}
    def tags(v):
        r=[]; v=strip(v); n=0
        while v is not None and v.kind=='instr' and v.op in('gep','bitcast') and n<20:
            t=tag_of(v)
            if t and isinstance(t[0],str) and t[0] not in('G','A'): r.append(t)
            v=strip(v.ops[0]); n+=1
        return r
    def fresh(v): return any(x[0]=='call' and S.acq(x[1]) for x in S.sources(v))
    for f in C.P.fns:
        for i in f.instrs():
            if i.op=='store':
                if fresh(i.ops[0]):
                    for t in tags(i.ops[1]): acq.setdefault(t,{}).setdefault(f.name,i.loc)
            elif i.op=='call':
                ts=C.P.targets(i)
                if not ts: continue
                for k,a in enumerate(i.ops):
                    for t in tags(a):
                        if all(k in S.inits.get(x,()) for x in ts): acq.setdefault(t,{}).setdefault(f.name,i.loc)
                        if any(k in S.clears.get(x,()) for x in ts): rel.setdefault(t,{}).setdefault(f.name,i.loc)
                    b=strip(a)
                    if b is not None and b.kind=='instr' and b.op=='load':
                        for t in tags(b.ops[0]):
                            if any((x in REL and REL[x]==k) or k in S.rel.get(x,{}) for x in ts): rel.setdefault(t,{}).setdefault(f.name,i.loc)
    return acq,rel

def elements(C,S):
    """[(site, member, owned?)]: releases of what an element of a member list points at"""
    out=[]
    def makes(fn,seen=()):
        """does the list-making function store things it acquires into the list"""
        f=C.P.M.functions[fn]
        return any(i.op=='store' and any(x[0]=='call' and S.acq(x[1]) for x in S.sources(i.ops[0])) and strip(i.ops[1]).kind=='instr' and S.local(i.ops[1],f) is None and not tag_of(i.ops[1]) for i in f.instrs())
    for f in C.P.fns:
        for i in f.instrs():
            if i.op!='call': continue
            for k,a in enumerate(i.ops):
                if not any((x in REL and REL[x]==k) or k in S.rel.get(x,{}) for x in C.P.targets(i)): continue
                b=strip(a)
                if not(b.kind=='instr' and b.op=='load'): continue
                q=strip(b.ops[0])
                while q.kind=='instr' and q.op=='gep' and not(tag_of(q) and isinstance(tag_of(q)[0],str) and tag_of(q)[0].startswith('struct')): q=strip(q.ops[0])
                if not(q.kind=='instr' and q.op=='load'): continue
                t=tag_of(q.ops[0])
                if not t: continue
                own=None
                for g in C.P.fns:
                    for j in g.instrs():
                        if j.op=='store' and tag_of(j.ops[1])==t:
                            for x in S.sources(j.ops[0]):
                                if x[0]=='call':
                                    for c in C.P.targets(x[1]):
                                        if c in S.fresh: own=bool(own) or makes(c)
                if own is not None: out.append((i.loc,f.src,t,own))
    return out

def structs(C,S):
    """[(member, acquired at, released by)] for every structure something tears down"""
    acq,rel=members(C,S); out=[]
    for T in sorted({t[0] for t in acq}):
        makers={f for t in acq if t[0]==T for f in acq[t]}
        down={f for t in rel if t[0]==T for f in rel[t]}-makers
        if not down: continue
        names=sorted(C.name(f) for f in down)
        for t in sorted(t for t in acq if t[0]==T):
            out.append((C.field(t),sorted(acq[t].items()),sorted(C.name(f) for f in set(rel.get(t,{}))-makers),names))
    return out
RULES={'P22':P22,'P23':P23}
