"""The record cache: what is served (P17), what is stored (P18), where it is kept (P20), when an old one is reused (P21)."""
from ..flow import KEEP, Rule, Engine, State, Bool, Lin, ZERO, const, add, sub, scale, sym, atoms, rename
from ..common import Broken
from ..cg import strip
from .bounds import argsym, S

KEEP|={'same','copy'}
def text(v):
    """the constant text an operand points to"""
    v=strip(v)
    while v is not None and v.kind in('cexpr','instr') and v.op=='gep' and all(o.kind=='const' and o.v==0 for o in v.ops[1:]): v=strip(v.ops[0])
    return v.string.decode('latin1') if v is not None and v.kind=='global' and v.constant and v.string is not None else None
def copycall(n): return n in('memcpy','memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove')

class Base(Rule):
    small=400
    def __init__(s,C,ignore=None,parallel=None):
        s.C=C; s.ignore=ignore; s.parallel=parallel; s.seen=set(); s.times=set()
        g=C.__dict__.get('_cachep')
        if g is None:
            class G: pass
            g=G(); P=C.P
            g.get=C.fn('CacheHT_Get').name; g.ins=C.fn('CacheHT_InsertToSlot').name; g.rem=C.fn('CacheHT_RemoveFromSlot').name
            g.unused=C.fn('CacheHT_FindUnusedNode').name
            g.f={k:C.tag('Cht_Node',k) for k in('TTL','TimeAdded','Offset','Length','UsedLength')}
            g.map=C.glob('MapStart','dnscache.c').name; g.ign=C.glob('IgnoreTTL','dnscache.c').name; g.par=C.glob('CacheParallel','dnscache.c').name
            g.end=C.glob('CacheEnd','dnscache.c').name; g.count=C.glob('CacheCount','dnscache.c').name
            g.gen=set(P.ft.get(C.tag('DnsGenerator','Generate'),())); g.cname=set(P.ft.get(C.tag('DnsGenerator','CName'),()))
            it='DnsSimpleParserIterator'
            g.it={k:C.tag(it,k) for k in('Type','Klass','Purpose')}
            g.next=set(P.ft.get(C.tag(it,'Next'),())); g.ttl=set(P.ft.get(C.tag(it,'GetTTL'),()))
            g.tocache=set(P.ft.get(C.tag(it,'ToCacheData'),())); g.getname=set(P.ft.get(C.tag(it,'GetName'),()))
            if not(g.gen and g.cname and g.next and g.ttl and g.tocache): raise Broken('generator/iterator interface not found')
            g.finders=[f for f in P.fns if f.file and f.file.endswith('dnscache.c') and f.retty.kind=='ptr' and any(i.op=='call' and g.get in P.targets(i) for i in f.instrs())]
            g.sum={}
            C._cachep=g
        s.g=g
    def start(s,fn):
        st=State(); st.ts=s.init(fn)
        m=sym(('MS',)); st.mem[(sym(('G',s.g.map)),None)]=(m,(('G',s.g.map),8)); st.nes.add(m); st.env[('ghost',('ms',))]=m
        for n in(s.g.end,s.g.count): st.mem[(sym(('G',n)),None)]=(sym(('G','*'+n)),(('G',n),8))   # they point into the cache, never at a local
        if s.ignore is not None: st.mem[(sym(('G',s.g.ign)),None)]=(const(s.ignore),(('G',s.g.ign),4))
        if s.parallel is not None: st.mem[(sym(('G',s.g.par)),None)]=(const(s.parallel),(('G',s.g.par),4))
        for k in range(len(fn.args)): st.env[((fn.name,),('arg',k))]=argsym(fn,k)
        return st
    def descend(s,name,stack,i):
        f=s.C.M.functions[name]; return f.internal and f.file==s.C.M.functions[stack[-1]].file and not any(f is x for x in s.g.finders)
    def key(s,st):
        """paths on which a node pointer is known to be null stay apart"""
        if s.g.__dict__.get('phis') is None:
            s.g.phis={}
            for f in s.C.P.fns:
                if f.file and f.file.endswith('dnscache.c'):
                    for i in f.instrs():
                        if i.op=='phi' and (i.ty.kind=='ptr' or i.ty.bits==1): s.g.phis[i.uid]=1
        return (st.ts,frozenset((k,v.c) for k,v in st.env.items() if k[0]!='ghost' and k[1] in s.g.phis and isinstance(v,Lin) and v.isconst()))
    def cellv(s,e,st,n,k): return e.cell(st,add(n,const(s.g.f[k][1])))
    def put(s,st,n,k,v): st.mem[(add(n,const(s.g.f[k][1])),None)]=(v,(s.g.f[k],8 if k=='TimeAdded' else 4))
    def ms(s): return sym(('MS',))
    def node_of(s,e,st,l):
        """(node, rest): l = MapStart + node->Offset + rest"""
        r=sub(st.norm(l),s.ms())
        for x,k in r[1]:
            if k!=1: continue
            for a,m in st.mem.items():
                if m[1][0]==s.g.f['Offset'] and isinstance(m[0],Lin) and st.norm(m[0])==sym(x): return st.norm(add(a[0],const(-s.g.f['Offset'][1]))),sub(r,sym(x))
        return None,None
    def live(s,e,st,n,now):
        if s.ignore: return True
        t,a=s.cellv(e,st,n,'TTL'),s.cellv(e,st,n,'TimeAdded')
        return t is not None and a is not None and st.prove_le(add(sub(sub(now,a),t),const(1)))
    def is_memcmp(s,e,st,i,args,ctx):
        x=e.fresh(st,('v',ctx,i.uid)); st.nes.add(x); q=st.copy(); q.nes.discard(x); q.env[S('same',q.norm(args[0]),q.norm(args[1]))]=args[2]
        if len(q.ts): pass
        return [(st,x),(q,ZERO)]
    def find(s,e,st,i,t,args,ctx):
        """a call of a finder: what its summary promises about the node"""
        g=s.g; f=s.C.M.functions[t]; su=s.summary(f)
        x=('v',ctx,i.uid); node=e.fresh(st,x); args=[e.renamed(a,ctx,i) for a in args]
        ttl=('v',ctx,i.uid,'ttl'); ad=('v',ctx,i.uid,'added'); of=('v',ctx,i.uid,'off'); us=('v',ctx,i.uid,'used')
        for y in(ttl,ad,of,us):
            st.forget(y)
            args=[rename(a,y,('o',y)) if y in atoms(a) else a for a in args]
        no=st.copy(); st.nes.add(node)
        s.put(st,node,'TTL',sym(ttl)); s.put(st,node,'TimeAdded',sym(ad)); s.put(st,node,'Offset',sym(of)); s.put(st,node,'UsedLength',sym(us))
        if su.get('live') is not None and not s.ignore:
            st.ineqs.add(st.norm(add(sub(sub(args[su['live']],sym(ad)),sym(ttl)),const(1))))
        if su.get('same'): st.env[S('same',st.norm(args[su['same'][0]]),add(add(s.ms(),sym(of)),const(su['same'][2])))]=args[su['same'][1]]
        return [(no,ZERO),(st,node)]
    def summary(s,f):
        k=(f.name,s.ignore)
        if k not in s.g.sum:
            r=Find(s.C,s.ignore,s.parallel); e=Engine(s.C.P,r); e.run(f,init=r.start(f))
            out={}
            if r.rets:
                l=set.intersection(*[a for a,_ in r.rets]); m=set.intersection(*[b for _,b in r.rets])
                if l: out['live']=min(l)
                if m: out['same']=min(m)
            out['n']=len(r.rets); out['eng']=e; s.g.sum[k]=out
        return s.g.sum[k]

class Find(Base):
    """what a lookup function guarantees about the node it returns"""
    def __init__(s,*a): super().__init__(*a); s.rets=[]
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if n==s.g.get:
            x=e.fresh(st,('v',ctx,i.uid)); a=st.copy(); st.nes.add(x); return [(a,ZERO),(st,x)]
        if n=='memcmp': return s.is_memcmp(e,st,i,args,ctx)
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin) or st.decide(Bool('eq',rv)) is True: return
        n=st.norm(rv); N=range(len(fn.args)); l=set(); m=set()
        for k in N:
            if fn.args[k].ty.kind=='int' and s.live(e,st,n,argsym(fn,k)): l.add(k)
        off=s.cellv(e,st,n,'Offset')
        for q,v in st.env.items():
            if q[0]=='ghost' and q[1][0]=='same' and off is not None:
                a,b=st.norm(q[1][1]),st.norm(q[1][2])
                for x,y in((a,b),(b,a)):
                    d=sub(sub(y,s.ms()),off)
                    for k in N:
                        if x==argsym(fn,k) and d.isconst():
                            for j in N:
                                if st.norm(v)==argsym(fn,j): m.add((k,j,d.c))
        s.rets.append((l,m))

class Serve(Base):
    """ts=(records generated 0/1, name to follow 0/1)"""
    def __init__(s,*a): super().__init__(*a); s.hdrs=[argsym(s.C.fn('DNSCache_FetchFromCache'),0)]
    def init(s,fn): return (0,0)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        g=s.g; n=next(iter(ts)) if len(ts)==1 else ''
        if n in{f.name for f in g.finders}: return s.find(e,st,i,n,args,ctx)
        if n==g.get:
            x=e.fresh(st,('v',ctx,i.uid)); a=st.copy(); st.nes.add(x); return [(a,ZERO),(st,x)]
        if n=='memcmp': return s.is_memcmp(e,st,i,args,ctx)
        if n=='time':
            x=e.fresh(st,('v',ctx,i.uid)); s.times.add(x[1][0][0]); return [(st,x)]
        if ts&g.next:
            e.opaque(st,i,list(ts),args,ctx); it=e.renamed(args[0],ctx,i)
            for k in('Type','Klass'):
                x=('v',ctx,i.uid,k); st.forget(x); st.mem[(st.norm(add(it,const(g.it[k][1]))),None)]=(sym(x),(g.it[k],4)); st.env[S('ask:'+k)]=sym(x)
            v=e.fresh(st,('v',ctx,i.uid)); no=st.copy(); st.nes.add(v); return [(no,ZERO),(st,v)]
        if n=='snprintf':
            b=st.norm(args[0]); f=text(i.ops[2])
            e.opaque(st,i,[n],args,ctx); r=st.env.get((ctx,i.uid)); v=[e.renamed(a,ctx,i) for a in args]
            for k in [k for k in st.env if k[0]=='ghost' and k[1][0][:3]=='key' and st.norm(k[1][1])==b]: del st.env[k]
            if f is not None:
                st.env[S('key',b)]=sym(('fmt',f)); st.env[S('keylen',b)]=r
                for k,a in enumerate(v[3:]): st.env[S('key%d'%k,b)]=a
            if st.ts[1] or len(v)>3 and f is not None and '%s' in f and not s.current(st,v[3]): s.bad(e,i,st,'follow','the name of a cached alias is not followed: records are looked up under the previous name')
            return [(st,r)]
        if n=='strlen':
            k=st.env.get(S('keylen',st.norm(args[0])))
            return [(st,k)] if k is not None else None
        if n in('strcpy',):
            b=st.norm(args[0]); src=st.norm(args[1])
            e.opaque(st,i,[n],args,ctx); cur=s.current(st,src)
            if st.ts[1] and st.env.get(S('alias',src)) is not None: st.ts=(st.ts[0],0)
            st.env[S('copy',b)]=src; st.env.pop(S('cur',b),None)
            if cur: st.env[S('cur',b)]=ZERO
            return [(st,args[0])]
        if ts&g.getname:
            e.opaque(st,i,list(ts),args,ctx); st.env[S('cur',st.norm(e.renamed(args[1],ctx,i)))]=ZERO; return [(st,e.fresh(st,('v',ctx,i.uid)))]
        if ts&g.gen: return s.generate(e,st,i,ts,args,ctx)
        if ts&g.cname: return s.alias(e,st,i,ts,args,ctx)
        if n==s.C.fn('MsgContext_SendBack').name:
            s.seen.add(('reply',i.loc))
            if not st.ts[0]: s.bad(e,i,st,'empty','an answer without any cached record of the asked type is sent')
        return None
    def bad(s,e,i,st,k,m): e.report(k,m,i.loc,st.trace)
    def current(s,st,b):
        """is this the name asked for, or that of the last alias answered"""
        b=st.norm(b); return S('cur',b) in st.env or st.ts[0]==0 and S('aliased') not in st.env and any(b==add(a,const(s.C.off('IHeader','Domain'))) for a in s.hdrs)
    def is_now(s,l):
        if l.c or len(l[1])!=1 or l[1][0][1]!=1: return False
        x=l[1][0][0]
        while isinstance(x,tuple) and x[0]=='o': x=x[1]
        return x in s.times
    def judge(s,e,st,i,data,ttl,kind,ty,kl,name):
        n,rest=s.node_of(e,st,data)
        if n is None: s.bad(e,i,st,kind+':data','%s is answered with data that is not a cached record\'s'%kind); return None
        key=None
        for q,v in st.env.items():
            if q[0]=='ghost' and q[1][0]=='same':
                a,b=st.norm(q[1][1]),st.norm(q[1][2])
                for x,y in((a,b),(b,a)):
                    m,r=s.node_of(e,st,y)
                    if m==n and r==const(1): key=(x,v)
        if key is None: s.bad(e,i,st,kind+':unmatched','a record whose key was not compared with the question is answered'); return None
        k,L=key
        f=st.env.get(S('key',k)); kn,kt,kc=[st.env.get(S('key%d'%j,k)) for j in range(3)]; n2=st.env.get(S('keylen',k))
        if f is None or None in(kn,kt,kc,n2): s.bad(e,i,st,kind+':key','the key records are looked up with is not the name, type and class asked for'); return None
        s.keys=getattr(s,'keys',set())|{f[1][0][0][1]}
        if st.norm(sub(L,n2))!=const(1): s.bad(e,i,st,kind+':prefix','keys are compared over %s bytes instead of their whole length with terminator'%(st.norm(L),))
        if st.norm(rest)!=st.norm(add(n2,const(2))): s.bad(e,i,st,kind+':offset','the data of a cached record is taken from byte %s of it, not from behind its key'%(rest,))
        if st.norm(kt)!=st.norm(ty) or st.norm(kc)!=st.norm(kl): s.bad(e,i,st,kind+':type','records of another type or class than the one looked up are answered')
        if name is not None and st.norm(kn)!=st.norm(name): s.bad(e,i,st,kind+':name','records are answered for another name than the one looked up')
        if ttl is not None:
            t,a=s.cellv(e,st,n,'TTL'),s.cellv(e,st,n,'TimeAdded'); v=st.norm(ttl)
            if s.ignore:
                if t is None or v!=st.norm(t): s.bad(e,i,st,kind+':ttl','the time to live answered is not the stored one')
            else:
                # the value must be ttl - (now - added) for the now the record was found alive at
                w=st.norm(sub(v,add(t,a))) if t is not None and a is not None else None
                now=scale(w,-1) if w is not None else None
                if now is None or not(s.is_now(now) and s.live(e,st,n,now)): s.bad(e,i,st,kind+':ttl','an expired record may be answered, or not with the time that remains of it')
        return n
    def generate(s,e,st,i,ts,args,ctx):
        s.seen.add(('record',i.loc))
        g,name,ty,kl,data,ln,ttl=args[:7]
        n=s.judge(e,st,i,data,ttl,'record',ty,kl,name)
        if n is not None:
            m,rest=s.node_of(e,st,data); u=s.cellv(e,st,n,'UsedLength')
            if u is None or st.norm(add(rest,ln))!=st.norm(u): s.bad(e,i,st,'record:length','the data of a cached record is not answered to its end')
        for v,k in((ty,'Type'),(kl,'Klass')):
            q=st.env.get(S('ask:'+k))
            if q is None or st.decide(Bool('eq',sub(q,v))) is not True: s.bad(e,i,st,'record:asked','records of a %s that was not asked for are answered'%k.lower())
        if st.ts[1]: s.bad(e,i,st,'follow','the name of a cached alias is not followed')
        e.opaque(st,i,list(ts),args,ctx)
        no=st.copy(); v=e.fresh(no,('v',ctx,i.uid)); no.nes.add(v); st.ts=(1,st.ts[1])
        return [(no,v),(st,ZERO)]
    def alias(s,e,st,i,ts,args,ctx):
        s.seen.add(('alias',i.loc))
        b=st.norm(args[2]); d=st.env.get(S('copy',b))
        if d is None: s.bad(e,i,st,'alias:data','an alias is answered whose target is not a cached record\'s')
        else: s.judge(e,st,i,d,args[3],'alias',const(5),const(1),None)
        e.opaque(st,i,list(ts),args,ctx)
        for k in [k for k in st.env if k[0]=='ghost' and k[1][0]=='cur']: del st.env[k]
        st.env[S('alias',b)]=ZERO; st.env[S('cur',b)]=ZERO; st.env[S('aliased')]=ZERO
        no=st.copy(); v=e.fresh(no,('v',ctx,i.uid)); no.nes.add(v); st.ts=(st.ts[0],1)
        return [(no,v),(st,ZERO)]

def P17(C,R,tier):
    root=C.fn('DNSCache_FetchFromCache'); keys=set()
    wired(C,R,(('IgnoreTTL','IgnoreTTL'),))
    for ign in(0,1):
        r=Serve(C,ign,0); e=Engine(C.P,r); e.run(root,init=r.start(root)); R.take(e,'')
        kinds={k for k,_ in r.seen}
        if not e.violations and not {'record','alias','reply'}<=kinds: raise Broken('serving from the cache: steps missing %s'%sorted(kinds))
        for k,l in sorted(r.seen): R.ok('%s at %s (%s)'%(k,l,'TTL ignored' if ign else 'TTL obeyed'))
        keys|=getattr(r,'keys',set())
        for f in r.g.finders:
            su=r.summary(f); R.take(su['eng'],'')
            R.ok('%s: %d results, live=%s matched=%s'%(f.src,su['n'],su.get('live'),su.get('same')))

CACHED=('A','AAAA','HTTPS','TXT','CNAME','PTR','NS','MX')
class Store(Base):
    """ts=(how the content was copied, index of the insertion)"""
    def __init__(s,C,ignore,parallel):
        super().__init__(C,ignore,parallel)
        s.states={k:C.cval('cachettlcrtl.h','TTL_STATE_'+k) for k in('NO_CACHE','ORIGINAL')}
        s.cc={k:C.tag('CtrlContent',k) for k in('State','Coefficient','Increment','Infection')}
        s.inf={k:C.cval('cachettlcrtl.h','TTL_CTRL_INFECTION_'+k) for k in('PASSIVLY','NONE')}
        s.rules=not ignore and not parallel and type(s) is Store
        s.rule={f.name for f in C.fns('CacheTtlCrtl_Get')}; s.dom=C.off('IHeader','Domain'); s.ctl=C.glob('TtlCtrl','dnscache.c').name; s.hdr=argsym(C.fn('DNSCache_AddItemsToCache'),0)
        s.IN=C.cval('dnsrelated.h','DNS_CLASS_IN'); s.pu={k:C.enum('DNS_RECORD_PURPOSE_'+k) for k in('QUESTION','UNKNOWN')}
        s.types=types(C); s.q=set(); s.fmts=set()
    def init(s,fn): return ()
    def key(s,st):
        b=super().key(st)
        ph=[]
        for q,v in st.env.items():
            if q[0]=='ghost' and (q[1][0] in('ctl:State','it:Type') or s.rules and q[1][0]=='ctl:Infection') and isinstance(v,Lin):
                v=st.norm(v); ph.append((q[1][0],v.c if v.isconst() else '?'))
            if q[0]=='ghost' and q[1][0] in('ruleQ','ruleN'): ph.append((q[1][0],v==ZERO))
        return b+(tuple(sorted(map(str,ph))),)
    def on_load(s,e,st,i,a,tag,ctx,fn):
        for k,t in s.cc.items():
            if tag==t: st.env[S('ctl:'+k,st.norm(add(a,const(-t[1]))))]=e.load(st,ctx,a,tag,i.ty,i)
    def bad(s,e,i,st,k,m): e.report(k,m,i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        g=s.g; n=next(iter(ts)) if len(ts)==1 else ''
        if n in{f.name for f in g.finders}: return s.find(e,st,i,n,args,ctx)
        if n==g.get:
            x=e.fresh(st,('v',ctx,i.uid)); a=st.copy(); st.nes.add(x); return [(a,ZERO),(st,x)]
        if n=='memcmp': return s.is_memcmp(e,st,i,args,ctx)
        if n=='time':
            x=e.fresh(st,('v',ctx,i.uid)); s.times.add(x[1][0][0]); return [(st,x)]
        if ts&g.next:
            e.opaque(st,i,list(ts),args,ctx); it=args[0]
            for k in('Type','Klass','Purpose'):
                x=('v',ctx,i.uid,k); st.forget(x); st.mem[(st.norm(add(it,const(g.it[k][1]))),None)]=(sym(x),(g.it[k],4))
            for k in [k for k in st.env if k[0]=='ghost' and (k[1][0][:4] in('ctl:','it:T','it:K','it:P','it:f','it:N') or k[1][0] in('rec','body','bodylen','sub','same','ruleN','own'))]: del st.env[k]
            v=e.fresh(st,('v',ctx,i.uid)); no=st.copy(); st.nes.add(v); it=e.renamed(it,ctx,i); st.env[S('rec',it)]=v
            for k in('Type','Klass','Purpose'): st.env[S('it:'+k,it)]=sym(('v',ctx,i.uid,k))
            return [(no,ZERO),(st,v)]
        if ts&g.ttl:
            x=('ttlof',tuple(st.norm(args[0]))); return [(st,sym(x))]
        if n==g.unused:
            x=('v',ctx,i.uid); e.opaque(st,i,[n],args,ctx); v=e.fresh(st,x); no=st.copy(); no.ineqs.add(add(v,const(1))); st.ineqs.add(scale(v,-1))
            y=('v',ctx,i.uid,'node'); st.forget(y); st.nes.add(sym(y)); e.store(st,args[2],None,sym(y),8)
            st.env[S('sub',sym(y))]=v
            return [(no,v),(st,v)]
        if ts&s.rule and s.rules:
            a=st.norm(args[1]); q=st.norm(s.hdr)
            w='ruleQ' if a==add(q,const(s.dom)) else 'ruleN' if S('own',a) in st.env else None
            if w is None: s.bad(e,i,st,'rule:name','cache controls are looked up for a text that is neither the name asked for nor that of the record'); return None
            x=('v',ctx,i.uid); no=st.copy(); v=e.fresh(st,x); st.nes.add(v); st.env[S(w)]=v; no.env[S(w)]=ZERO
            return [(no,ZERO),(st,v)]
        if n=='strcpy' and S('own',st.norm(args[1])) in st.env:
            b=st.norm(args[0]); e.opaque(st,i,[n],args,ctx); st.env[S('own',e.renamed(b,ctx,i))]=ZERO; return [(st,b)]
        if n=='snprintf' and text(i.ops[2]) is not None:
            for k in [k for k in st.env if k[0]=='ghost' and k[1][0]=='own' and S('it:Name') in st.env and st.norm(k[1][1])==st.norm(st.env[S('it:Name')])]: del st.env[k]
            f=text(i.ops[2]); it=[st.norm(q[1][1]) for q in st.env if q[0]=='ghost' and q[1][0]=='rec']; a=[st.norm(x) for x in args[3:]]
            if it and S('it:Type',it[0]) in st.env: st.env[S('it:fmt')]=(f,tuple(k if j<len(a) and a[j]==st.norm(st.env[S('it:'+k,it[0])]) else '?' for j,k in enumerate(('Type','Klass'))))
            return None
        if ts&g.getname:
            e.opaque(st,i,list(ts),args,ctx); no=st.copy(); v=e.fresh(no,('v',ctx,i.uid)); no.ineqs.add(add(v,const(1))); w=e.fresh(st,('v',ctx,i.uid)); st.ineqs.add(scale(w,-1))
            st.env[S('it:Name')]=e.renamed(args[1],ctx,i); st.env[S('own',st.norm(st.env[S('it:Name')]))]=ZERO
            return [(no,v),(st,w)]
        if copycall(n):
            nd,rest=s.node_of(e,st,args[0])
            if nd is not None:
                s.seen.add(('content',i.loc))
                if rest==ZERO: st.env[S('body',nd)]=st.norm(args[1]); st.env[S('bodylen',nd)]=st.norm(args[2])
                else: s.bad(e,i,st,'content:place','the content of a record is not put where the record starts (%s)'%(rest,))
            return None
        if n==g.ins: s.insert(e,st,i,args,ctx); return None
        return None
    def insert(s,e,st,i,args,ctx):
        s.seen.add(('record',i.loc)); g=s.g
        h,key,sub_,nd=[st.norm(a) for a in args[:4]]
        t,a,u=s.cellv(e,st,nd,'TTL'),s.cellv(e,st,nd,'TimeAdded'),s.cellv(e,st,nd,'UsedLength')
        it=None
        for q in st.env:
            if q[0]=='ghost' and q[1][0]=='rec': it=st.norm(q[1][1])
        if it is None: s.bad(e,i,st,'record','a record is stored although there is no current record'); return
        ty,kl,pu=[st.norm(st.env[S('it:'+k,it)]) if S('it:'+k,it) in st.env else None for k in('Type','Klass','Purpose')]
        if kl is None or kl!=const(s.IN): s.bad(e,i,st,'class','records of a class other than IN are stored, and later answered as if they were IN')
        for k,v in s.pu.items():
            if pu is None or st.decide(Bool('eq',add(pu,const(-v)))) is not False: s.bad(e,i,st,'section:'+k,'%s is stored as if it were a record'%('a question' if k=='QUESTION' else 'something that is no record'))
        if ty is None: s.bad(e,i,st,'type','records of every type are stored')
        elif ty.isconst():
            if ty.c not in s.types: s.bad(e,i,st,'type:%d'%ty.c,'records of type %d are stored, which cannot be answered from the cache'%ty.c)
            else: s.q.add(ty.c)
        elif not any(x in f_ for x in [ty[1][0][0]] for f_ in [set(z for f in list(st.nes)+list(st.ineqs) for z,_ in f[1])]): s.bad(e,i,st,'type','records of every type are stored')
        if t is None or a is None: s.bad(e,i,st,'fields','a record is stored without its time to live or the time it was added'); return
        if not Serve.is_now(s,a): s.bad(e,i,st,'added','a record is not stored with the current time as the time it was added')
        if st.decide(Bool('ne',t)) is not True and not(s.parallel): s.bad(e,i,st,'zero','a record whose time to live is zero is stored')
        b,n=st.env.get(S('body',nd)),st.env.get(S('bodylen',nd))
        if b is None: s.bad(e,i,st,'content','a record is stored without its content')
        else:
            if u is None or st.norm(u)!=st.norm(n): s.bad(e,i,st,'used','the recorded length of a stored record is not that of its content')
            if st.norm(sub(key,b))!=const(1): s.bad(e,i,st,'key','a record is stored under a key that is not its own')
        sb=st.env.get(S('sub',nd))
        if sb is None or st.norm(sb)!=sub_: s.bad(e,i,st,'index','a record is stored under another entry\'s index')
        kf=st.env.get(S('it:fmt')); nm=st.env.get(S('it:Name'))
        if nm is None or st.norm(nm)!=key: s.bad(e,i,st,'name','a record is stored under a key that does not start with its own name')
        if kf is None: s.bad(e,i,st,'format','a record is stored under a key without its type and class')
        else:
            s.fmts.add(kf[0])
            if kf[1]!=('Type','Klass'): s.bad(e,i,st,'format','the key of a stored record is not made of its type and class')
        # which rule gave the time to live
        if not s.parallel:
            raw=sym(('ttlof',tuple(it)))
            cs=[(st.norm(q[1][1]),st.norm(v)) for q,v in st.env.items() if q[0]=='ghost' and q[1][0]=='ctl:State']
            want=s.which(e,st,i) if s.rules else None
            if want is not None: cs=[x for x in cs if x[0]==st.norm(want)] or ([] if want==ZERO else [(want,sym(('unused',)))])
            if not cs:
                if t!=raw: s.bad(e,i,st,'ttl:none','without a rule a record is not stored with the time to live it came with')
            else:
                ok=False; why=''
                for c,v in cs:
                    if v.isconst() and v.c==s.states['NO_CACHE']: s.bad(e,i,st,'nocache','a record that must not be cached is stored'); return
                    if v.isconst() and v.c==s.states['ORIGINAL']: ok=ok or t==raw
                    else:
                        if st.decide(Bool('eq',add(v,const(-s.states['NO_CACHE'])))) is not False: s.bad(e,i,st,'nocache','a record that must not be cached is stored'); return
                        k,n_=st.env.get(S('ctl:Coefficient',c)),st.env.get(S('ctl:Increment',c))
                        if k is not None and n_ is not None:
                            r=sub(t,n_)
                            if any(r==sym(('d','mul',x,y)) for x,y in((tuple(k),tuple(raw)),(tuple(raw),tuple(k)))): ok=True
                if not ok: s.bad(e,i,st,'ttl:rule','a record is not stored with the time to live its rule gives (%s)'%(t,))

    def which(s,e,st,i):
        """the rule that governs the record: that of the question if it says so, else the record's own"""
        q,n=st.env.get(S('ruleQ')),st.env.get(S('ruleN'))
        c=e.cell(st,sym(('G',s.ctl)))
        if c is not None and st.decide(Bool('eq',c)) is True: return ZERO   # there are no rules
        if q is None: s.bad(e,i,st,'rule:question','a record is stored without looking for a rule of the name asked for'); return None
        own=ZERO if n is None else n
        if q!=ZERO:
            f=st.env.get(S('ctl:Infection',st.norm(q)))
            d={k:st.decide(Bool('eq',add(f,const(-v)))) if f is not None else None for k,v in s.inf.items()}
            if None in d.values() and True not in d.values(): s.bad(e,i,st,'rule:reach','a rule is applied to a record without looking whether it reaches beyond its own name'); return None
            if not(d['PASSIVLY'] or d['NONE']): return q
            if n is None: s.bad(e,i,st,'rule:own','a record is stored without looking for a rule of its own name'); return None
            return own if d['NONE'] or n!=ZERO else q
        if n is None: s.bad(e,i,st,'rule:own','a record is stored without looking for a rule of its own name'); return None
        return own

def types(C):
    """record types the response generator can build from cached data"""
    return {C.enum('DNS_TYPE_'+k) for k in CACHED if 'DNS_TYPE_'+k in C.M.enums}

def P18(C,R,tier):
    root=C.fn('DNSCache_AddItemsToCache')
    for ign,par in((0,0),(0,1),(1,0)):
        r=Store(C,ign,par); e=Engine(C.P,r); e.run(root,init=r.start(root)); R.take(e,'')
        kinds={k for k,_ in r.seen}
        if not e.violations and not {'record','content'}<=kinds: raise Broken('storing into the cache: steps missing %s'%sorted(kinds))
        for k,l in sorted(r.seen): R.ok('%s at %s (%s%s) types %s'%(k,l,'TTL ignored' if ign else 'TTL obeyed',', parallel' if par else '',sorted(r.q)))
    from .loader import control
    control(C,R)
    settings(C,R)

# ------------------------------------------------------------------ P19: what was stored is what is answered
from . import encode as _enc, bounds as _bnd
class ToCache(Rule):
    """ts=(parts in storing order); a part is ('raw',source offset) | ('name',) | ('fields',)"""
    small=400; step_limit=60000
    def __init__(s,C,typ=None,fieldfn=False):
        s.C=C; s.typ=typ; s.rets=[]; s.fieldfn=fieldfn
        s.getname={f.name for f in C.fns('DNSGetHostName')}; s.ps=set(C.P.ft.get(C.tag('ParserProjector','ps'),()))
        s.dl=C.tag('DnsSimpleParserIterator','DataLength'); s.tables={}
    def init(s,fn): return ()
    def start(s,fn,k):
        st=State(); st.ts=(); s.fn=fn; s.it=argsym(fn,0)
        s.buf=[argsym(fn,j) for j,(n,t) in enumerate(fn.params[:-1]) if t=='char*' and '*' not in fn.params[j+1][1]][-1]
        if s.typ is not None:
            st.mem[(add(s.it,const(s.C.off('DnsSimpleParserIterator','Type'))),None)]=(const(s.typ),(s.C.tag('DnsSimpleParserIterator','Type'),4))
            st.mem[(add(s.it,const(s.C.off('DnsSimpleParserIterator','Klass'))),None)]=(const(1),(s.C.tag('DnsSimpleParserIterator','Klass'),4))
        for j,(n,t) in enumerate(fn.params):
            st.env[((fn.name,),('arg',j))]=ZERO if n=='Format' or (s.fieldfn and j==3) else argsym(fn,j)
        return st
    def key(s,st):
        return (st.ts,frozenset((k,v) for k,v in st.env.items() if k[0]!='ghost' and isinstance(v,Lin) and len(v[1])==1 and isinstance(v[1][0][0],tuple) and v[1][0][0][0]=='F'))
    def descend(s,name,stack,i):
        f=s.C.M.functions[name]; return f.file==s.C.M.functions[stack[0]].file and name not in s.getname and len(stack)<7
    def part(s,st,p):
        if not st.ts or st.ts[-1]!=p: st.ts=st.ts+(p,)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if ts&s.getname:
            e.opaque(st,i,list(ts),args,ctx); no=st.copy(); a=e.renamed(args[3],ctx,i)
            st.env[S('host',st.norm(a))]=ZERO
            v=e.fresh(no,('v',ctx,i.uid)); no.ineqs.add(add(v,const(1))); w=e.fresh(st,('v',ctx,i.uid)); st.ineqs.add(scale(w,-1))
            return [(no,v),(st,w)]
        if copycall(n) and len(i.ops)>1:
            g=strip(i.ops[1])
            if g is not None and g.kind=='global' and g.constant:
                fs=functions_in(g,s.C)
                if fs and set(fs)<=s.ps: s.tables[tuple(fs)]=1; st.env[S('table')]=('t',)+tuple(fs); st.ts=tuple(x for x in st.ts if x[0]!='table')+(('table',)+tuple(fs),)
                return None
        if ts and ts<=s.ps and i.callee.kind!='func':
            s.part(st,('fields',))
            e.opaque(st,i,list(ts),args,ctx); return [(st,e.fresh(st,('v',ctx,i.uid)))]
        dest=[a for a in args if isinstance(a,Lin) and s.buf[1][0] in st.norm(a)[1]]
        if dest:
            if copycall(n):
                st.env[S('copied')]=st.norm(args[2]); s.part(st,('raw',))
                st.env[S('src')]=st.norm(args[1]); return None
            if n=='strlen':
                v=e.fresh(st,('v',ctx,i.uid)); st.env[S('len')]=v; return [(st,v)]
            if any(S('host',st.norm(a)) in st.env for a in args if isinstance(a,Lin)): s.part(st,('name',))
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root: s.rets.append((st.ts,rv,st,i))
def functions_in(g,C):
    """functions named in a constant table, in order"""
    out=[]
    def walk(v):
        if v is None: return
        if isinstance(v,(list,tuple)):
            for x in v: walk(x)
            return
        if getattr(v,'kind',None)=='func': out.append(v.fn.name); return
        walk(getattr(v,'elems',None))
    walk(g.elems); return out

def stored_form(C,f,R,typ=None,field=False):
    """the forms a record's data takes in the cache: set of part tuples, over all successful returns"""
    r=ToCache(C,typ,field); e=Engine(C.P,r); e.run(f,init=r.start(f,0)); R.take(e,'')
    out=set()
    for ts,rv,st,i in r.rets:
        if not isinstance(rv,Lin) or st.prove_le(rv): continue          # nothing stored
        tab=[x for x in ts if x[0]=='table']; parts=[x for x in ts if x[0]!='table']
        if parts==[('fields',)] and tab:
            seq=()
            for g in tab[-1][1:]:
                fs=stored_form(C,C.M.functions[g],R,None,True)
                if len(fs)!=1: return {'unclear field %s'%C.name(g)}
                seq+=next(iter(fs))
            out.add(seq); continue
        if parts==[('raw',)]:
            n=st.env.get(S('copied')); n=st.norm(n) if n is not None else None
            if n is None or st.norm(rv)!=n: out.add((('a length other than that of the copied data',),)); continue
            out.add((('raw',n.c) if n.isconst() else ('raw','all'),)); continue
        if parts==[('name',)]:
            n=st.env.get(S('len'))
            if n is not None and st.norm(sub(rv,n))==const(1): out.add((('name',),)); continue
            out.add((('a name without its end',),)); continue
        out.add(tuple(parts) or (('nothing',),))
    return out

class Answer(_enc.Enc):
    """how one record is generated from cached data of a given type"""
    def setup(s,e,fn):
        st=super().setup(e,fn); s.fn=fn
        for j in range(len(fn.params)): st.env[((fn.name,),('arg',j))]=argsym(fn,j)
        st.env[((fn.name,),('arg',2))]=const(s.typ); s.data=argsym(fn,4); s.name=argsym(fn,1); s.dlen=argsym(fn,5); s.ttl=argsym(fn,6); s.txt=s.txt+[add(s.data,const(2))]
        return st
    def off(s,st,a):
        d=sub(st.norm(a),s.data)
        return d.c if d.isconst() else None
    def on_load(s,e,st,i,a,tag,ctx,fn):
        super().on_load(e,st,i,a,tag,ctx,fn)
        o=s.off(st,a)
        if o is not None and i.ty.bits==8: st.env[S('ld8',const(o))]=e.load(st,ctx,a,tag,i.ty,i)
        if o is not None and i.ty.bits==16:
            v=_enc.plain(e.load(st,ctx,a,tag,i.ty,i)); st.env[S('ld',v)]=const(o)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        dst=[a for a in args if isinstance(a,Lin) and s.B[1][0] in st.norm(a)[1]]
        if dst:
            for a in args[1:]:
                if not isinstance(a,Lin): continue
                d=st.norm(dst[0])
                o=s.off(st,a)
                if o is not None: st.env[S('put',d)]=('raw',o,st.norm(args[2])) if copycall(n) or n=='memcpy' else ('name',o,None)
                elif st.norm(a)==s.name: st.env[S('put',d)]=('owner',0,None)
        return super().on_call(e,st,i,ts,args,ctx,fn,stack)

def answered_form(C,f,typ,R,K):
    r=Answer(C,K,{}); r.typ=typ; e=Engine(C.P,r); e.run(f,init=r.setup(e,f)); R.take(e,'')
    out=set()
    for rv,it,st,i in r.results:
        if not(rv.isconst() and rv.c==0) or it is None: continue
        q=None
        for k,v in st.env.items():
            if k[0]=='ghost' and k[1][0]=='w2':
                p=k[1][1]
                if st.decide(Bool('eq',sub(add(add(p,const(2)),v),it))) is True and S('w4',add(p,const(-4))) in st.env: q=p; break
        if q is None: out.add((('an incomplete record',),)); continue
        g=lambda o,w: st.env.get(S(w,st.norm(add(q,const(o)))))
        t,c,l=g(-8,'w2'),g(-6,'w2'),g(-4,'w4')
        if t is None or st.norm(_enc.plain(t))!=const(typ): out.add((('another type',),)); continue
        if l is None or st.norm(_enc.plain(l))!=st.norm(r.ttl): out.add((('another time to live',),)); continue
        if c is None or st.norm(_enc.plain(c)) not in(const(1),argsym(f,3)): out.add((('another class',),)); continue
        puts=[(k[1][1],v) for k,v in st.env.items() if k[0]=='ghost' and k[1][0]=='put']
        zero=lambda v: v is not None and st.decide(Bool('eq',v)) is True
        if not any(v[0]=='owner' for _,v in puts) and not zero(st.env.get(S('first',r.name))) and not zero(r.name): out.add((('another owner name',),)); continue
        parts=[]; p=st.norm(add(q,const(2))); at=0
        while True:
            v=st.env.get(S('put',p))
            if v is not None and v[0]=='raw':
                if v[1]==at and v[2]==st.norm(r.dlen): parts.append(('raw','all'))
                elif v[1]==at and v[2].isconst(): parts.append(('raw',v[2].c)); at+=v[2].c; p=add(p,v[2]); continue
                else: parts.append(('data from byte %s'%v[1],))
                break
            if v is not None and v[0]=='name': parts.append(('name',) if v[1]==at else ('a name from byte %s'%v[1],)); break
            w=st.env.get(S('w2',p)); o=None
            if w is not None:
                x=_enc.inner(w,'ntohs','htons'); o=st.env.get(S('ld',x)) if x is not None else None
                if o is None: o=st.env.get(S('ld',_enc.plain(w)))
            if zero(st.env.get(S('ld8',const(at)))) or at==0 and zero(r.data): parts.append(('name',)); break
            if o is not None and o==const(at): parts.append(('raw',2)); at+=2; p=st.norm(add(p,const(2))); continue
            break
        out.add(tuple(parts) or (('nothing',),))
    return out

def P19(C,R,tier):
    K=_bnd.adjacency(C)
    g=Base(C).g
    # the types that are stored, from the guard of the storing path
    r=Store(C,0,0); r.rules=False; e=Engine(C.P,r); root=C.fn('DNSCache_AddItemsToCache'); e.run(root,init=r.start(root)); ts=sorted(r.q); R.take(e,'stored:') if False else None
    if not ts: raise Broken('no storable record type found')
    inv={v:k for k,v in C.M.enums.items() if k.startswith('DNS_TYPE_')}
    for t in ts:
        w=set(); a=set()
        for f in sorted(g.tocache): w|=stored_form(C,C.M.functions[f],R,t)
        for f in sorted(g.gen): a|=answered_form(C,C.M.functions[f],t,R,K)
        nm=inv.get(t,t); show=lambda x: ' or '.join(' then '.join(' '.join(map(str,p)) for p in y) if not isinstance(y,str) else y for y in sorted(x,key=str)) or 'never'
        loc=C.M.functions[sorted(g.gen)[0]].loc if hasattr(C.M.functions[sorted(g.gen)[0]],'loc') else ''
        if len(w)!=1 or w!=a: R.violation('form:%s'%nm,'%s records are stored as %s but answered as %s'%(nm,show(w),show(a)),'dnsparser.c/dnsgenerator.c',[])
        else: R.ok('%s: stored and answered as %s'%(nm,show(w)))
    R.need(len(ts),6,'record types')
    q=Serve(C,0,0); e=Engine(C.P,q); root=C.fn('DNSCache_FetchFromCache'); e.run(root,init=q.start(root)); R.take(e,'look:') if False else None
    rk=getattr(q,'keys',set()); wk={'%s'+f for f in r.fmts}
    if rk==wk and rk: R.ok('keys are written and looked up as %s'%sorted(rk))
    else: R.violation('key','records are stored under keys formed as %s but looked up as %s'%(sorted(wk),sorted(rk)),'dnscache.c',[])

    from .cachelist import same_chain
    same_chain(C,R)

# ------------------------------------------------------------------ the rules configured
class Init(Rule):
    """ts=(rule set made, rules added)"""
    small=400; nogc=True
    def __init__(s,C): s.C=C; s.seen=set(); s.names=set(); s.st={k:C.cval('cachettlcrtl.h','TTL_STATE_'+k) for k in('FIXED','VARIABLE')}; s.add=C.fn('CacheTtlCrtl_Add').name
    def init(s,fn): return (0,)
    def descend(s,name,stack,i): f=s.C.M.functions[name]; return f.file==s.C.M.functions[stack[0]].file and s.add in s.C.P.reaching({s.add}) and name in s.C.P.reaching({s.add})
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and all(t.startswith('ConfigGet') for t in ts):
            n=text(i.ops[1])
            if n: s.names.add(n); return [(st,sym(('opt',n)))]
        if ts and all((s.C.M.functions[t].file or '').endswith('logs.c') for t in ts if t in s.C.M.functions) and all(t in s.C.M.functions for t in ts): return [(st,None)]
        if s.add in ts:
            s.seen.add(i.loc); d,state,co,inc=text(i.ops[1]),st.norm(args[2]),st.norm(args[3]),st.norm(args[4])
            if d!='*': return None
            O,M=sym(('opt','OverrideTTL')),sym(('opt','MultipleTTL'))
            if state==const(s.st['FIXED']):
                if inc!=O: e.report('override','the rule for all names does not have the value of OverrideTTL',i.loc,st.trace)
            elif state==const(s.st['VARIABLE']):
                if co!=M or inc!=ZERO: e.report('multiple','the rule for all names does not multiply by MultipleTTL alone',i.loc,st.trace)
                if not st.prove_le(add(O,const(1))): e.report('both','MultipleTTL is used although OverrideTTL is given',i.loc,st.trace)
            else: e.report('state','the rule for all names is neither that of OverrideTTL nor that of MultipleTTL',i.loc,st.trace)
            st.ts=({s.st['FIXED']:'f',s.st['VARIABLE']:'v'}.get(state.c,0),)
            return [(st,e.fresh(st,('v',ctx,i.uid)))]
        return None
    def key(s,st):
        O,M,U=sym(('opt','OverrideTTL')),sym(('opt','MultipleTTL')),sym(('opt','UseCache'))
        return (st.ts,st.prove_le(add(O,const(1))),st.prove_le(add(M,const(-1))),st.decide(Bool('eq',U)))
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or isinstance(rv,Lin) and st.decide(Bool('eq',rv)) is False: return
        O,M,U=sym(('opt','OverrideTTL')),sym(('opt','MultipleTTL')),sym(('opt','UseCache'))
        if st.decide(Bool('eq',U)) is True: return
        if st.ts==('f',): return
        if not st.prove_le(add(O,const(1))): e.report('override:unused','OverrideTTL is not obeyed',i.loc,st.trace)
        elif st.ts==(0,) and not st.prove_le(add(M,const(-1))): e.report('multiple:unused','MultipleTTL is not obeyed',i.loc,st.trace)
class RuleText(Rule):
    """ts=(keyword, characters skipped)"""
    small=400; nogc=True
    def __init__(s,C):
        s.C=C; s.seen=set(); s.add=C.fn('CacheTtlCrtl_Add').name; v=lambda k: C.cval('cachettlcrtl.h',k)
        s.map={'orig':v('TTL_STATE_ORIGINAL'),'nocache':v('TTL_STATE_NO_CACHE'),'fixed':v('TTL_STATE_FIXED'),'vari':v('TTL_STATE_VARIABLE')}
        s.inf=[v('TTL_CTRL_INFECTION_'+k) for k in('AGGRESSIVLY','PASSIVLY','NONE')]
    def init(s,fn): return ('',0)
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file and name!=s.add
    def on_loaded(s,e,st,i,a,tag,v):
        c=st.env.get(S('cmd'))
        if c is None or not isinstance(v,Lin): return
        d=sub(st.norm(a),st.norm(c))
        if d in(ZERO,const(1)) and st.ts[1]==0 and ('ghost','c%d'%d.c) not in st.env: st.env[('ghost','c%d'%d.c)]=v
    def marks(s,st):
        c=[st.env.get(('ghost','c%d'%k)) for k in(0,1)]
        d=[st.decide(Bool('eq',add(x,const(-36)))) if x is not None else None for x in c]
        return None if d[0] is None else 0 if d[0] is False else None if d[1] is None else 2 if d[1] else 1
    def key(s,st): return (st.ts,s.marks(st))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if n in('sscanf','__isoc99_sscanf','__isoc23_sscanf'):
            f=text(i.ops[1]) or ''; first=f.count('%s')+f.count('s%') and len(args)>=5
            e.opaque(st,i,list(ts),args,ctx); v=[e.renamed(a,ctx,i) for a in args]
            if f.endswith('s') and len(v)>=4: st.env[S('cmd')]=v[3]; return None if False else [(st,e.fresh(st,('v',ctx,i.uid)))]
            for k,a in enumerate(v[2:]): st.mem[(st.norm(a),None)]=(sym(('num',k)),(None,4))
            return [(st,e.fresh(st,('v',ctx,i.uid)))]
        if n in('strncmp','strcmp','strcasecmp','strncasecmp'):
            w=[text(o) for o in i.ops[:2]]; k=next((x for x in w if x in s.map),None)
            if k is None: return None
            x=e.fresh(st,('v',ctx,i.uid)); no=st.copy(); no.nes.add(x); c=st.env.get(S('cmd')); off=sub(st.norm(args[0 if w[1]==k else 1]),st.norm(c)) if c is not None else None
            st.ts=(k,st.ts[1]+(off.c if off is not None and off.isconst() else 99))
            return [(no,x),(st,ZERO)]
        if copycall(n):
            c=st.env.get(S('cmd'))
            if c is not None and st.norm(args[0])==st.norm(c):
                d=sub(st.norm(args[1]),st.norm(c)); st.ts=(st.ts[0],d.c if d.isconst() else 99)
            return None
        if s.add in ts:
            s.seen.add((st.ts[0],i.loc)); state,co,inc,inf=[st.norm(x) for x in args[2:6]]; k,skip=st.ts
            w=s.map.get(k)
            if w is None or state!=const(w): e.report('keyword','a cache control of the kind "%s" is taken for another'%(k or 'unknown'),i.loc,st.trace)
            if k=='fixed' and inc!=sym(('num',0)): e.report('fixed','the value of a fixed cache control is not the one given',i.loc,st.trace)
            if k=='vari' and (co!=sym(('num',0)) or inc!=sym(('num',1))): e.report('vari','the factor and the addend of a variable cache control are not the ones given',i.loc,st.trace)
            m=s.marks(st)
            if m is not None:
                if inf!=const(s.inf[m]): e.report('marks','a cache control with %d marks reaches as far as one with another number of them'%m,i.loc,st.trace)
                if skip!=m: e.report('marks:text','a cache control with %d marks is recognised behind %d'%(m,skip),i.loc,st.trace)
            return [(st,e.fresh(st,('v',ctx,i.uid)))]
        return None
class RuleFields(Rule):
    small=400; nogc=True
    def __init__(s,C): s.C=C; s.seen=set(); s.f={k:C.off('CtrlContent',k) for k in('State','Coefficient','Increment','Infection')}; s.fixed=C.cval('cachettlcrtl.h','TTL_STATE_FIXED')
    def init(s,fn): return ()
    def key(s,st): return (st.ts,st.decide(Bool('eq',sub(argsym(s.C.fn('CacheTtlCrtl_Add'),2),const(s.fixed)))))
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if any('StringChunk_Add' in t for t in ts):
            s.seen.add(i.loc); f=s.C.fn('CacheTtlCrtl_Add'); A=lambda k: argsym(f,k); b=st.norm(args[2]) if len(args)>2 else None
            g={k:e.cell(st,add(b,const(o))) for k,o in s.f.items()} if b is not None else {}
            st_=A(2); isf=st.decide(Bool('eq',sub(st_,const(s.fixed))))
            for k,j in(('State',2),('Coefficient',3),('Increment',4),('Infection',5)):
                v=g.get(k)
                if v is None or st.norm(v)!=st.norm(A(j)) and not(k=='Coefficient' and isf is True and st.norm(v)==ZERO): e.report('field:'+k,'the %s of a cache control is not kept as given'%k.lower(),i.loc,st.trace)
            if st.norm(args[1])!=A(1): e.report('field:name','a cache control is kept for another name',i.loc,st.trace)
            return [(st,e.fresh(st,('v',ctx,i.uid)))]
        return None
def settings(C,R):
    for n,K,doc in(('DNSCache_Init',Init,'OverrideTTL and MultipleTTL govern all names without a rule'),('CacheTtlCrtl_Add_From_String',RuleText,'cache controls are read as documented'),('CacheTtlCrtl_Add',RuleFields,'cache controls are kept as given')):
        f=C.fn(n); r=K(C); e=Engine(C.P,r); st=State(); st.ts=r.init(f)
        for k in range(len(f.args)): st.env[((f.name,),('arg',k))]=argsym(f,k)
        e.run(f,init=st); R.take(e,'set:')
        if not e.violations and not r.seen: raise Broken('%s: nothing seen'%n)
        R.ok('%s: %s (%d sites)'%(f.src,doc,len(r.seen)))
def wired(C,R,table):
    """the switches answers depend on have the values of their own options"""
    for g,o in table:
        gl=next((x for x in C.M.globals.values() if x.name.split('.')[0]==g or x.name==g),None)
        if gl is None: continue
        n=0
        for f in C.P.fns:
            for i in f.instrs():
                if i.op=='store' and strip(i.ops[1]) is gl:
                    def opts(v,seen=()):
                        if v.kind=='const': return {'=%d'%v.v}
                        if v.kind!='instr' or v.uid in seen: return set() if v.kind=='instr' else {'?'}
                        if v.op in('phi','select'): return set().union(*[opts(x,seen+(v.uid,)) for x in(v.ops[1:] if v.op=='select' else v.ops) if x.kind!='block'])
                        if v.op in('zext','sext','trunc','freeze','icmp','and','xor'): return opts(v.ops[0],seen+(v.uid,))
                        if v.op=='call' and any(t.startswith('ConfigGet') for t in C.P.targets(v)): return {text(v.ops[1])}
                        return {'?'}
                    w=opts(i.ops[0]); n+=1
                    if any(x is None or x!='?' and x[0]!='=' and x!=o for x in w): R.violation('option:%s'%o,'%s: what %s governs is set from %s'%(f.src,o,', '.join(sorted(map(str,w)))),i.loc,[])
        if n: R.ok('%s is set from %s (%d stores)'%(g,o,n))

# ------------------------------------------------------------------ P20: space in the cache
class Space(Store):
    """where stored records are put"""
    def bad(s,*a): pass
    def oops(s,e,i,st,k,m): e.report(k,m,i.loc,st.trace)
    def end(s,e,st):
        p=e.cell(st,sym(('G','*'+s.g.end)))
        if p is None: p=e.fresh(st,('end',)); st.mem[(sym(('G','*'+s.g.end)),None)]=(p,(None,4))
        return p
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        g=s.g; n=next(iter(ts)) if len(ts)==1 else ''
        if n==g.unused:
            s.seen.add(('allocation',i.loc))
            ce=st.norm(s.end(e,st)); cs=st.norm(args[1]); b=st.norm(args[3])
            if not st.prove_le(sub(add(s.ms(),add(ce,cs)),b)): s.oops(e,i,st,'boundary','new entries are allowed to grow into the space of the record they are for')
            x=('v',ctx,i.uid); e.opaque(st,i,[n],args,ctx); cs=e.renamed(cs,ctx,i); ce=e.renamed(ce,ctx,i); a=[e.renamed(z,ctx,i) for z in args]
            st.mem[(sym(('G','*'+g.end)),None)]=(ce,(None,4))
            v=e.fresh(st,x); out=[]
            y=('v',ctx,i.uid,'node'); o=('v',ctx,i.uid,'off'); st.forget(y); st.forget(o)
            no=st.copy(); no.ineqs.add(add(v,const(1))); no.ts=('none',); out.append((no,v))
            for new in(1,0):
                q=st.copy(); q.ineqs.add(scale(v,-1)); q.nes.add(sym(y)); q.ts=('new' if new else 'reused',)
                e.store(q,a[2],None,sym(y),8); e.store(q,a[4],None,const(new),4)
                s.put(q,sym(y),'Offset',sym(o))
                q.env[S('chunk',sym(y))]=cs; q.env[S('was',sym(y))]=ce; q.env[S('offset',sym(y))]=sym(o); q.env[S('sub',sym(y))]=v
                out.append((q,v))
            return out
        for a in args:                 # x/c*c <= x <= x/c*c + c-1
            for x,_ in(a[1] if isinstance(a,Lin) else ()):
                if isinstance(x,tuple) and x[0]=='d' and x[1]=='udiv' and not x[3][1]:
                    d=sub(scale(sym(x),x[3][0]),Lin(*x[2])); st.ineqs.add(st.norm(d)); st.ineqs.add(st.norm(sub(const(1-x[3][0]),d)))
        if copycall(n) or n=='memset' or n.startswith('llvm.memset'):
            nd,rest=s.node_of(e,st,args[0])
            if nd is not None:
                c=st.env.get(S('chunk',nd))
                s.seen.add(('write',i.loc))
                if c is None or not st.prove_le(sub(add(rest,args[2]),c)) or rest.c<0 and not rest[1]: s.oops(e,i,st,'write','%s bytes are written at byte %s of a record\'s space of %s'%(args[2],rest,c))
        r=Store.on_call(s,e,st,i,ts,args,ctx,fn,stack)
        return r
    def insert(s,e,st,i,args,ctx):
        s.seen.add(('insertion',i.loc)); nd=st.norm(args[3])
        c,was,off0=[st.env.get(S(k,nd)) for k in('chunk','was','offset')]
        if None in(c,was,off0): s.oops(e,i,st,'entry','a record is inserted whose space was not allocated'); return
        off=s.cellv(e,st,nd,'Offset'); end=st.norm(s.end(e,st)); was=st.norm(was)
        if off is None: s.oops(e,i,st,'offset','a record is inserted without a place'); return
        if st.ts==('new',):
            if st.norm(off)!=was: s.oops(e,i,st,'offset','a new entry does not start where the used space ended')
            if st.norm(sub(end,was))!=st.norm(c): s.oops(e,i,st,'end','the used space is not extended by the length of the new entry\'s chunk')
        else:
            if st.norm(off)!=st.norm(off0): s.oops(e,i,st,'offset','a reused entry is given other space than its own')
            if end!=was: s.oops(e,i,st,'end','the used space changes although an entry was reused')

class Unused(Rule):
    nogc=True
    """FindUnusedNode: ts=(taken out of the free list 0/1)"""
    small=400
    def __init__(s,C):
        s.C=C; s.T={k:C.tag('Cht_Node',k) for k in('Length','UsedLength','Next')}; s.free=C.tag('CacheHT','Free2DList'); s.kn=C.tag('Cht_2DList','KeyNext'); s.cands=0; s.arr={C.tag('Array',k) for k in('Data','Used','Allocated')}
        s.get={f.name for f in C.fns('Array_GetBySubscript')}; s.push={f.name for f in C.fns('Array_PushBack')}
    def init(s,fn): return (0,)
    def start(s,fn):
        st=State(); st.ts=(0,); s.fn=fn
        for k in range(len(fn.args)): st.env[((fn.name,),('arg',k))]=argsym(fn,k)
        for k,(n,t) in enumerate(fn.params):      # where the results go are variables of their own
            if t.count('*')==2: s.out=st.env[((fn.name,),('arg',k))]=sym(('G','*out')); st.nes.add(s.out)
            elif t in('BOOL*','int*'): s.newp=st.env[((fn.name,),('arg',k))]=sym(('G','*new'))
            elif '*' not in t: s.size=argsym(fn,k)
            elif t=='void*': s.bound=argsym(fn,k)
        return st
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file
    def key(s,st): return st.ts
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and all(t in s.C.M.functions and (s.C.M.functions[t].file or '').endswith('logs.c') for t in ts): return [(st,None)]
        if ts&s.get:
            x=('v',ctx,i.uid); no=st.copy(); v=e.fresh(st,x); a=e.renamed(args[1],ctx,i); st.nes.add(v); st.env[S('sub',v)]=a; return [(st,v)]   # subscripts in the lists are valid
        if ts&s.push:
            if st.norm(args[2])!=s.bound: e.report('boundary','new entries are made without regard to the space already used',i.loc,st.trace)
            e.kill_tags(st,s.arr); v=e.fresh(st,('v',ctx,i.uid)); no=st.copy(); no.ineqs.add(add(v,const(1))); st.ineqs.add(scale(v,-1)); st.ts=(st.ts[0],'pushed')
            return [(no,v),(st,v)]
        return None
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag in(s.free,s.kn): st.ts=(1,)+st.ts[1:]
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin) or st.decide(Bool('lt',rv)) is True or st.prove_le(add(rv,const(1))): return
        s.cands+=1
        nd=e.cell(st,s.out); new=e.cell(st,s.newp)
        if nd is None: e.report('entry','an entry is handed out without being named',i.loc,st.trace); return
        nd=st.norm(nd); l=e.cell(st,add(nd,const(s.T['Length'][1]))); sb=st.env.get(S('sub',nd))
        if l is None or st.decide(Bool('eq',sub(l,s.size))) is not True: e.report('length','an entry is handed out whose space has another length than asked for',i.loc,st.trace)
        if sb is None or st.decide(Bool('eq',sub(sb,rv))) is not True: e.report('sub','an entry is handed out under another entry\'s index',i.loc,st.trace)
        if new is None: e.report('new','it is not told whether the entry is new',i.loc,st.trace)
        elif (st.norm(new)==ZERO)==('pushed' in st.ts): e.report('new','a new entry is taken for a reused one, or the other way round',i.loc,st.trace)
        elif st.norm(new)==ZERO and st.ts[0]!=1: e.report('unlink','a reused entry stays in the list of free entries',i.loc,st.trace)

class Sweep(Base):
    """the expiry task: only what has expired is removed"""
    def __init__(s,C):
        super().__init__(C,0,0); s.used=C.tag('Array','Used'); s.head=C.M.structs[C.tag('_Header','End')[0]].size; s.getsub={f.name for f in C.fns('Array_GetBySubscript')}
    def init(s,fn): return ()
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file
    def key(s,st): return (st.ts,frozenset(k[1][1] for k in st.env if k[0]=='ghost' and k[1][0]=='sub'))
    def on_load(s,e,st,i,a,tag,ctx,fn):
        for k in('TTL','TimeAdded'):
            if tag==s.g.f[k]:
                n=st.norm(add(a,const(-tag[1])))
                if S('first:'+k,n) not in st.env: st.env[S('first:'+k,n)]=e.load(st,ctx,a,tag,i.ty,i)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        g=s.g; n=next(iter(ts)) if len(ts)==1 else ''
        if n=='time':
            x=e.fresh(st,('v',ctx,i.uid)); s.times.add(x[1][0][0]); st.env[S('now')]=x; return [(st,x)]
        if ts&s.getsub:
            if st.ts: s.after(e,i,st)
            for k in [k for k in st.env if k[0]=='ghost' and k[1][0] in('sub','first:TTL','first:TimeAdded')]: del st.env[k]
            st.ts=()
            st.env.pop(S('isnull'),None)
            x=('v',ctx,i.uid); no=st.copy(); v=e.fresh(no,x); v=e.fresh(st,x); st.nes.add(v); st.env[S('sub',v)]=e.renamed(args[1],ctx,i); no.env[S('isnull')]=ZERO
            return [(no,ZERO),(st,v)]
        if n==g.rem:
            s.seen.add(('removal',i.loc)); nd=st.norm(args[2]); now=st.env.get(S('now'))
            t,a=st.env.get(S('first:TTL',nd)),st.env.get(S('first:TimeAdded',nd)); sb=st.env.get(S('sub',nd))
            if None in(t,a,now) or not st.prove_le(sub(t,sub(now,a))): e.report('early','a record is removed from the cache although it may not have expired',i.loc,st.trace)
            if sb is None or st.norm(sb)!=st.norm(args[1]): e.report('index','a record is removed under another entry\'s index',i.loc,st.trace)
            e.opaque(st,i,[n],args,ctx); nd=e.renamed(nd,ctx,i)
            st.ts=('removed',nd); st.mem[(add(nd,const(s.g.f['TTL'][1])),None)]=st.mem.get((add(nd,const(s.g.f['TTL'][1])),None)) or (sym(('ttl?',)),(s.g.f['TTL'],4))
            return [(st,e.fresh(st,('v',ctx,i.uid)))]
        return None
    def after(s,e,i,st):
        z=st.env.get(S('zero'))
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if st.norm(a)==sym(('G','*'+s.g.end)) and isinstance(v,Lin):
            s.seen.add(('end of used space',i.loc)); v=st.norm(v); used=[st.norm(c[0]) for c in st.mem.values() if c[1][0]==s.used]
            if v.isconst():
                if v.c<s.head: e.report('end','the used space is made to end inside the header',i.loc,st.trace)
                if not any(u==ZERO for u in used): e.report('end','the used space is emptied although entries are left',i.loc,st.trace)
            else:
                ok=False
                for k,sb in st.env.items():
                    if k[0]=='ghost' and k[1][0]=='sub':
                        o,l=s.cellv(e,st,k[1][1],'Offset'),s.cellv(e,st,k[1][1],'Length')
                        if o is not None and l is not None and v==st.norm(add(o,l)) and any(st.norm(sub(u,sb))==const(1) for u in used): ok=True
                if not ok and S('isnull') not in st.env: e.report('end','the used space is not made to end where the last entry ends',i.loc,st.trace)
        if tag==s.g.f['TTL']:
            if isinstance(v,Lin) and v==ZERO: s.seen.add(('marked',i.loc))
            else: e.report('ttl','the expiry task changes the time to live of a record',i.loc,st.trace)

class Push(Rule):
    nogc=True
    """growing-down arrays: an element is added only above the boundary"""
    def __init__(s,C): s.C=C; s.seen=0
    def init(s,fn): return ()
    def descend(s,*a): return False
    def key(s,st):
        m=st.mem.get((add(s.a,const(s.C.off('Array','Used'))),None)); return m is not None and st.norm(m[0])==s.used
    def start(s,C,fn):
        st=State(); st.ts=()
        for k in range(len(fn.args)): st.env[((fn.name,),('arg',k))]=argsym(fn,k)
        a=argsym(fn,0); s.a=a; s.b=argsym(fn,2); st.nes.add(s.b)
        st.mem[(add(a,const(C.off('Array','Allocated'))),None)]=(const(-1),(C.tag('Array','Allocated'),4))
        s.used=sym(('used',)); s.data=sym(('data',)); s.dl=sym(('dl',))
        for k,v,z in(('Used',s.used,4),('Data',s.data,8),('DataLength',s.dl,4)): st.mem[(add(a,const(C.off('Array',k))),None)]=(v,(C.tag('Array',k),z))
        return st
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin): return
        u=e.cell(st,add(s.a,const(s.C.off('Array','Used'))))
        if st.prove_le(add(rv,const(1))):
            if u is None or st.norm(u)!=s.used: e.report('count','a refused element is counted',i.loc,st.trace)
            return
        s.seen+=1
        pos=None
        for f in list(st.ineqs):
            d=sub(f,s.b)             # boundary - position <= 0
            if not f[1]: continue
            if dict(f[1]).get(s.b[1][0][0])==1 and dict(f[1]).get(s.data[1][0][0])==-1:
                rest=[(x,k) for x,k in f[1] if x not in(s.b[1][0][0],s.data[1][0][0])]
                if len(rest)==1 and 'used' in str(rest[0][0]) and 'dl' in str(rest[0][0]) and f.c<=0: pos=f
        if pos is None: e.report('boundary','an element is added without looking where the used space ends',i.loc,st.trace)

def P20(C,R,tier):
    root=C.fn('DNSCache_AddItemsToCache')
    r=Space(C,0,0); e=Engine(C.P,r); e.run(root,init=r.start(root)); R.take(e,'space:')
    kinds={k for k,_ in r.seen}
    if not e.violations and not {'allocation','write','insertion'}<=kinds: raise Broken('cache space: steps missing %s'%sorted(kinds))
    for k,l in sorted(r.seen): R.ok('%s at %s'%(k,l)) if k in('allocation','write','insertion') else None
    f=C.M.functions[r.g.unused]; u=Unused(C); e=Engine(C.P,u); e.run(f,init=u.start(f)); R.take(e,'unused:')
    R.need(u.cands,2,'returned entries'); R.ok('%s: %d ways of handing out an entry'%(f.src,u.cands))
    for f in C.P.fns:
        if f.file and f.file.endswith('dnscache.c') and not f.internal is False and any(i.op=='call' and r.g.rem in C.P.targets(i) for i in f.instrs()):
            w=Sweep(C); e=Engine(C.P,w); e.run(f,init=w.start(f)); R.take(e,'sweep:')
            k={k for k,_ in w.seen}
            if not e.violations and 'removal' in k and 'marked' not in k: R.violation('sweep:mark','%s: a removed record keeps its time to live'%f.src,f.file,[])
            for k,l in sorted(w.seen): R.ok('%s at %s'%(k,l))
    from .cachelist import chains
    chains(C,R)
    p=C.fn('Array_PushBack'); w=Push(C); e=Engine(C.P,w); e.run(p,init=w.start(C,p)); R.take(e,'push:'); R.need(w.seen,1,'additions to growing-down arrays'); R.ok('%s: element added only above the boundary'%p.src)

# ------------------------------------------------------------------ P21: reuse of an existing cache
class Reuse(Rule):
    small=400
    def __init__(s,C):
        s.C=C; s.seen=set(); g=Base(C).g; s.g=g
        s.hd={k:C.off('_Header',k) for k in('Ver','CacheSize')}; s.ht={k:C.tag('_Header',k) for k in('Ver','CacheSize')}
        s.size=C.glob('CacheSize','dnscache.c').name; s.inited=C.glob('Inited','dnscache.c').name
        s.re={f.name for f in C.fns('CacheHT_ReInit')}; s.ini={f.name for f in C.fns('CacheHT_Init')}; s.ver=C.cval('dnscache.c','CACHE_VERSION')
        s.readable={f.name for f in C.fns('FileIsReadable')}; s.map=C.glob('MapStart','dnscache.c').name
        s.bools={f.name for f in C.fns('ConfigGetBoolean')}; s.cfg={f.name for n in('ConfigGetBoolean','ConfigGetInt32','ConfigGetRawString','ConfigGetStringList') for f in C.fns(n)}
    def init(s,fn): return ()
    def start(s,fn):
        st=State(); st.ts=()
        for k in range(len(fn.args)): st.env[((fn.name,),('arg',k))]=argsym(fn,k)
        return st
    def key(s,st):
        r=[st.ts]
        for k,v in st.env.items():
            if k[0]=='ghost' and k[1][0] in('cfg','exists'): r.append((k[1],st.decide(Bool('eq',v))))
        return tuple(sorted(map(str,r)))
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file and len(stack)<8
    def on_load(s,e,st,i,a,tag,ctx,fn):
        for k,t in s.ht.items():
            if tag==t: st.env[S('hd',k)]=e.load(st,ctx,a,tag,i.ty,i)
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        for k,t in s.ht.items():
            if tag==t and S('hd',k) in st.env and not {'new','cleared'}&set(st.ts): e.report('header','the header of an existing cache is changed before it is known to fit',i.loc,st.trace)
            if tag==t:
                want=const(s.ver) if k=='Ver' else e.cell(st,sym(('G',s.size)))
                if want is not None and isinstance(v,Lin) and st.norm(v)!=st.norm(want): e.report('header:'+k,'a new cache is not marked with its %s'%('version' if k=='Ver' else 'size'),i.loc,st.trace)
                st.ts=tuple(sorted(set(st.ts)|{'hd'+k}))
        if st.norm(a)==sym(('G',s.inited)) and isinstance(v,Lin) and v!=ZERO:
            s.seen.add(('in use',i.loc))
            if not({'reused','new'}&set(st.ts)): e.report('unready','the cache is put to use without having been set up',i.loc,st.trace)
            if 'new' in st.ts and not{'hdVer','hdCacheSize'}<=set(st.ts): e.report('unmarked','a new cache is not marked with its version and size',i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if ts and all(t in s.C.M.functions and (s.C.M.functions[t].file or '').endswith('logs.c') for t in ts): return [(st,None)]
        if ts&s.cfg:
            k=text(i.ops[1])
            if ts&s.bools:
                no=st.copy(); no.env[S('cfg',k)]=ZERO; st.env[S('cfg',k)]=const(1); return [(no,ZERO),(st,const(1))]
            v=sym(('cfg',k)); st.env[S('cfg',k)]=v; return [(st,v)]
        if n in('open','open64','fopen','fopen64','creat'): st.ts=tuple(sorted(set(st.ts)|{'opened'})); return None
        if ts&s.readable:
            if 'opened' in st.ts: e.report('exists','whether there is a cache file already is looked up after it has been opened, which creates it',i.loc,st.trace)
        if ts&s.readable: no=st.copy(); no.env[S('exists')]=ZERO; st.env[S('exists')]=const(1); return [(no,ZERO),(st,const(1))]
        is_=lambda k: (lambda v: None if v is None else st.decide(Bool('eq',v)))(st.env.get(S('cfg',k)))
        if ts&s.re:
            s.seen.add(('reused',i.loc))
            for k,want,m in(('Ver',const(s.ver),'version'),('CacheSize',e.cell(st,sym(('G',s.size))),'size')):
                v=st.env.get(S('hd',k))
                if v is None or want is None or st.decide(Bool('eq',sub(v,want))) is not True: e.report('fit:'+k,'an existing cache is reused without its %s being the right one'%m,i.loc,st.trace)
            if is_('ReloadCache') is not False: e.report('asked','an existing cache is reused although that was not asked for',i.loc,st.trace)
            st.ts=tuple(sorted(set(st.ts)|{'reused'})); return [(st,ZERO)]
        if ts&s.ini:
            s.seen.add(('new',i.loc))
            new=is_('MemoryCache') is False or (S('exists') in st.env and st.decide(Bool('eq',st.env[S('exists')])) is True)
            if not(new or is_('ReloadCache') is True or is_('OverwriteCache') is False): e.report('overwrite','an existing cache that was to be reused is overwritten without permission',i.loc,st.trace)
            st.ts=tuple(sorted(set(st.ts)|{'new'})); return [(st,ZERO)]
        if n=='memset' or n.startswith('llvm.memset'):
            m=e.cell(st,sym(('G',s.map)))
            if m is not None and st.norm(args[0])==st.norm(m):
                s.seen.add(('cleared',i.loc))
                new=is_('MemoryCache') is False or (S('exists') in st.env and st.decide(Bool('eq',st.env[S('exists')])) is True)
                if not(new or is_('ReloadCache') is True or is_('OverwriteCache') is False): e.report('overwrite','an existing cache that was to be reused is overwritten without permission',i.loc,st.trace)
                st.ts=tuple(sorted({x for x in st.ts if x[:2]!='hd'}|{'cleared'}))
                return [(st,None if i.ty.kind=='void' else args[0])]
        return None
def P21(C,R,tier):
    root=C.fn('DNSCache_Init'); r=Reuse(C); e=Engine(C.P,r); e.run(root,init=r.start(root)); R.take(e,'')
    kinds={k for k,_ in r.seen}
    if not e.violations and not {'reused','new','in use'}<=kinds: raise Broken('setting up the cache: steps missing %s'%sorted(kinds))
    for k,l in sorted(r.seen): R.ok('%s at %s'%(k,l))
