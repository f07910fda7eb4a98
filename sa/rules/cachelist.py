"""The lists of the cache: an entry is in exactly one place (a slot's chain, the free list, or beyond the used ones)."""
from ..flow import KEEP, Rule, Engine, State, Bool, Lin, ZERO, const, add, sub, sym
from ..common import Broken
from .bounds import argsym, S

KEEP|={'lead','link','stored'}
def ptrphis(C,file):
    r=C.__dict__.setdefault('_ptrphis',{})
    if file not in r: r[file]={i.uid for f in C.P.fns if f.file and f.file.endswith(file) for i in f.instrs() if i.op=='phi' and i.ty.kind=='ptr'}
    return r[file]
def nulls(C,file,st): return frozenset((k,v.c) for k,v in st.env.items() if k[0]!='ghost' and k[1] in ptrphis(C,file) and isinstance(v,Lin) and v.isconst())
def slottag(C,node):
    try: return C.tag('Cht_Slot','Next')
    except Broken: pass
    from ..cg import tag_of
    t={tag_of(i.ops[1]) for n in('CacheHT_InsertToSlot',) for i in C.fn(n).instrs() if i.op=='store'}
    t={x for x in t if isinstance(x,tuple) and str(x[0]).startswith('struct.') and x[0]!=node and x[1]==0}
    if len(t)!=1: raise Broken('chain starts of the cache not found')
    return t.pop()
class Lists(Rule):
    nogc=True; small=400; constghosts=('link',)
    def __init__(s,C):
        s.C=C; o=lambda n,k: C.off(n,k)
        s.node=C.tag('Cht_Node','Next')[0]; s.first=C.tag('Cht_2DList','KeyNext'); s.second=C.tag('Cht_2DList','ValNext'); s.slot=slottag(C,s.node); s.free=C.tag('CacheHT','Free2DList')
        if s.second!=C.tag('Cht_Node','Next') or s.first!=C.tag('Cht_Node','Slot'): raise Broken('free entries and used entries do not overlay as assumed')
        s.links={s.first,s.second,s.slot,s.free}; s.get={f.name for f in C.fns('Array_GetBySubscript')}; s.seen=set()
        s.arr={C.tag('Array',k) for k in('Data','Used','Allocated')}
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file
    def key(s,st): return (st.ts,nulls(s.C,'cacheht.c',st),frozenset(k[1][1] for k in st.env if k[0]=='ghost' and k[1][0]=='stored'))
    def start(s,fn):
        st=State(); st.ts=s.init(fn); st.env[S('link',const(-1))]=ZERO; s.fn=fn; s.ptr=[]; s.int=[]
        for k,(n,t) in enumerate(fn.params):
            a=argsym(fn,k); st.env[((fn.name,),('arg',k))]=a
            if '_HashTable' in t or 'CacheHT' in t: s.h=a; st.nes.add(a)
            elif '_Cht_Node' in t and t.count('*')==1: s.nd=a; st.nes.add(a)
            elif '*' not in t: s.sub=a
        return st
    def quiet(s,ts): return ts and all(t in s.C.M.functions and (s.C.M.functions[t].file or '').endswith('logs.c') for t in ts)
    def on_load(s,e,st,i,a,tag,ctx,fn):
        if tag in s.links:
            v=st.norm(e.load(st,ctx,a,tag,i.ty,i)); st.env[S('lead',v)]=st.norm(a); st.env[S('link',v)]=ZERO; st.assume(Bool('le',sub(const(-1),v)))
            if tag in(s.slot,s.second) and not(v.c==0 and v[1] and v[1][0][0]==('next0',)): st.env[('ghost','last')]=v
            if tag in(s.first,s.free) and not(v.c==0 and v[1] and v[1][0][0]==('slot0',)): st.env[('ghost','walk')]=v
    def islink(s,st,v,i):
        """every value the stored one can be was loaded from a link"""
        v=st.norm(v)
        return v==const(-1) or S('link',v) in st.env or s.fromlink(i.ops[0],frozenset())
    def fromlink(s,v,seen):
        from ..cg import tag_of
        if v.kind=='const': return v.v in(-1,0xffffffff)
        if v.kind!='instr' or v.uid in seen: return v.kind=='instr'
        seen=seen|{v.uid}
        if v.op in('phi','select'): return all(s.fromlink(o,seen) for o in(v.ops[1:] if v.op=='select' else v.ops) if o.kind!='block')
        if v.op in('freeze','zext','sext','trunc'): return s.fromlink(v.ops[0],seen)
        return v.op=='load' and tag_of(v.ops[0]) in s.links
class Reused(Lists):
    """an entry taken from the free list is in it no longer"""
    def init(s,fn): return ()
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if s.quiet(ts): return [(st,None)]
        if ts&s.get: v=e.fresh(st,('v',ctx,i.uid)); st.nes.add(v); return [(st,v)]
        if any(t.startswith('Array_PushBack') for t in ts): st.ts=('new',); return [(st,e.fresh(st,('v',ctx,i.uid)))]
        return None
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag in s.links and isinstance(v,Lin) and not st.ts:
            v=st.norm(v)
            if tag!=s.second or v!=const(-1): st.env[S('stored',st.norm(a))]=v
            if not s.islink(st,v,i): e.report('foreign','an index that was not taken from the list of free entries is put into it',i.loc,st.trace)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or st.ts or not isinstance(rv,Lin) or st.decide(Bool('lt',rv)) is True or st.prove_le(add(rv,const(1))): return
        x=st.norm(rv); s.seen.add(i.loc); lead=st.env.get(S('lead',x))
        w=[(st.norm(k[1][1]),st.norm(v)) for k,v in st.env.items() if k[0]=='ghost' and k[1][0]=='stored']
        if lead is None or not any(a==st.norm(lead) for a,_ in w): e.report('stays','an entry is handed out but stays in the list of free entries, so that it is handed out again',i.loc,st.trace); return
        for a,v in w:
            if v==x or st.decide(Bool('eq',sub(v,x))) is True: e.report('stays','an entry that is handed out is put back into the list of free entries',i.loc,st.trace)
class Removed(Lists):
    """ts=(taken out of its chain, put into the free list, cut off the end, first link set, second link set)"""
    def init(s,fn): return (0,0,0,0,0)
    def start(s,fn):
        st=Lists.start(s,fn); s.slot0,s.next0,s.used0=sym(('slot0',)),sym(('next0',)),sym(('used0',))
        for v,o,t in((s.slot0,0,s.first),(s.next0,4,s.second)): st.mem[(add(s.nd,const(o)),None)]=(v,(t,4)); st.env[S('link',v)]=ZERO if t==s.second else None
        st.env={k:v for k,v in st.env.items() if v is not None}
        s.ua=add(s.h,const(s.C.off('CacheHT','NodeChunk')+s.C.off('Array','Used')))
        st.mem[(s.ua,None)]=(s.used0,(s.C.tag('Array','Used'),4))
        return st
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if s.quiet(ts): return [(st,None)]
        if ts&s.get: v=e.fresh(st,('v',ctx,i.uid)); st.nes.add(v); st.nes.add(sub(v,s.nd)); return [(st,v)]
        return None
    def key(s,st):
        w=st.env.get(('ghost','walk'))
        return Lists.key(s,st)+(s.infeasible(st),w is not None and st.decide(Bool('lt',w)))
    def infeasible(s,st):
        l=st.env.get(('ghost','last')); return l is not None and (st.decide(Bool('lt',l)) is True or st.prove_le(add(l,const(1))))
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if not isinstance(v,Lin): return
        a=st.norm(a); v=st.norm(v); t=list(st.ts)
        if a==s.ua:
            t[2]+=1; st.ts=tuple(min(x,2) for x in t)
            if v!=add(s.used0,const(-1)) or st.decide(Bool('eq',add(sub(s.sub,s.used0),const(1)))) is not True: e.report('cut','the number of entries is lowered although the entry removed is not the last one',i.loc,st.trace)
            return
        if tag not in s.links: return
        if a in(s.nd,add(s.nd,const(4))):
            k=3 if a==s.nd else 4; t[k]=1
            if not t[0]: e.report('order','the links of an entry are overwritten before it is taken out of its chain',i.loc,st.trace)
            if not s.islink(st,v,i): e.report('foreign','an index that was not taken from the list of free entries is put into it',i.loc,st.trace)
        elif v==st.norm(s.sub):
            if tag in(s.slot,): e.report('chain','a removed entry is put into a chain',i.loc,st.trace)
            t[1]+=1
        elif tag in(s.slot,s.second):
            cur=e.cell(st,a); ok=cur is not None and st.decide(Bool('eq',sub(cur,s.sub))) is True
            if not ok and not s.infeasible(st): e.report('unlink','another entry than the removed one may be taken out of the chain',i.loc,st.trace)
            elif v!=s.next0: e.report('unlink','taking an entry out of its chain does not lead on to the entry after it',i.loc,st.trace)
            t[0]+=1
        elif not s.islink(st,v,i): e.report('foreign','an index that was not taken from the list of free entries is put into it',i.loc,st.trace)
        st.ts=tuple(min(x,2) for x in t)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        if st.ts==(0,0,0,0,0):
            if not(st.decide(Bool('lt',s.slot0)) is True or isinstance(rv,Lin) and st.decide(Bool('eq',rv)) is False): e.report('nothing','an entry that was to be removed stays in its chain',i.loc,st.trace)
            return
        s.seen.add(i.loc); u,f,c,k,v=st.ts
        if u!=1: e.report('unlink','a removed entry stays in its chain' if not u else 'a removed entry is taken out of its chain twice',i.loc,st.trace)
        if f+c>1: e.report('both','a removed entry is kept for reuse and also cut off, or kept twice',i.loc,st.trace)
        if f and not(k and v): e.report('links','an entry is put into the list of free entries with the links it had in its chain',i.loc,st.trace)
class Inserted(Lists):
    """an entry is put into the chain it will be looked for and removed from"""
    def init(s,fn): return (0,0,0)
    def start(s,fn):
        st=Lists.start(s,fn)
        return st
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if s.quiet(ts): return [(st,None)]
        if ts&s.get:
            v=e.fresh(st,('v',ctx,i.uid)); st.nes.add(v); st.nes.add(sub(v,s.nd)); st.env[S('at')]=e.renamed(args[1],ctx,i); no=st.copy(); return [(no,ZERO),(st,v)]
        return None
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if not isinstance(v,Lin) or tag not in s.links: return
        a=st.norm(a); v=st.norm(v); t=list(st.ts); at=st.env.get(S('at'))
        if a==s.nd:
            st.env[S('slotno')]=v; t[0]=1
        elif a==add(s.nd,const(4)):
            t[1]=1; l=st.env.get(S('lead',v))
            if l is None or S('link',v) not in st.env: e.report('chain','the entry after a new one is not the one its chain started with',i.loc,st.trace)
            st.env[S('head')]=l if l is not None else a
        elif tag==s.slot:
            t[2]=1
            if v!=st.norm(s.sub): e.report('chain','a chain is made to start with another entry than the inserted one',i.loc,st.trace)
            h=st.env.get(S('head'))
            if not t[1]: e.report('chain','the entries a chain had are lost',i.loc,st.trace)
            elif h is None or st.norm(h)!=a: e.report('chain','the entry after a new one is that of another chain',i.loc,st.trace)
        st.ts=tuple(t)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or st.ts==(0,0,0): return
        if isinstance(rv,Lin) and st.decide(Bool('eq',rv)) is False: return
        s.seen.add(i.loc)
        if not all(st.ts): e.report('partial','an entry is inserted without setting %s'%', '.join(n for n,x in zip(('its chain number','its successor','the start of the chain'),st.ts) if not x),i.loc,st.trace)
        a,b=st.env.get(S('at')),st.env.get(S('slotno'))
        if a is None or b is None or st.decide(Bool('eq',sub(a,b))) is not True: e.report('slot','an entry remembers another chain than the one it was put into, so it is never taken out of it',i.loc,st.trace)
def hashing(C,f):
    """(canonical forms of the chain number computed from a key)"""
    get={g.name for g in C.fns('Array_GetBySubscript')}; slots=C.tag('CacheHT','Slots'); out=set()
    def form(v,d=0,seen=()):
        if d>12: return {'?'}
        if v.kind=='const': return {str(v.v)}
        if v.kind=='arg': return {f.params[v.i][1]}
        if v.kind in('func','global'): return {v.name}
        if v.kind!='instr': return {v.kind}
        if v.op=='phi':
            if v.uid in seen: return set()
            return set().union(*[form(o,d+1,seen+(v.uid,)) for o in v.ops if o.kind!='block'])
        if v.op in('zext','sext','trunc','bitcast','freeze'): return form(v.ops[0],d+1,seen)
        if v.op=='gep': return {'.'.join([str(v.srcty)[:24]]+[str(o.v) if o.kind=='const' else '?' for o in v.ops[1:]])}
        r=['']
        for o in v.ops:
            fo=sorted(form(o,d+1,seen)); r=[x+'|'+y for x in r for y in fo]
        n=v.op+(':'+','.join(sorted(C.P.targets(v))) if v.op=='call' else '')
        return {n+'('+x+')' for x in r}
    from ..cg import tag_of
    for i in f.instrs():
        if i.op=='call' and C.P.targets(i)&get:
            a=i.ops[0]
            while a.kind=='instr' and a.op in('bitcast','freeze'): a=a.ops[0]
            if a.kind=='instr' and a.op=='gep' and any(o.kind=='const' and o.v==1 for o in a.ops[1:]): out|=form(i.ops[1])
    return out
class Layout(Rule):
    """where the two arrays of the table lie"""
    nogc=True
    def __init__(s,C): s.C=C; s.seen=set()
    def init(s,fn): return ()
    def descend(s,name,stack,i): return s.C.M.functions[name].file==s.C.M.functions[stack[0]].file
    def start(s,fn):
        st=State(); st.ts=()
        for k,(n,t) in enumerate(fn.params):
            a=argsym(fn,k); st.env[((fn.name,),('arg',k))]=a
            if '_HashTable' in t: s.h=a
            elif '*' in t: s.base=a
            else: s.size=a
        C=s.C; o=lambda *p: add(s.h,const(sum(p)))
        s.sl={k:o(C.off('CacheHT','Slots'),C.off('Array',k)) for k in('Data','Used','DataLength')}; s.nc={k:o(C.off('CacheHT','NodeChunk'),C.off('Array',k)) for k in('Data','Used','DataLength')}
        for d,n in((s.sl,'sl'),(s.nc,'nc')):
            for k,a in d.items():
                x=sym((n,k)); st.mem[(a,None)]=(x,(C.tag('Array',k),8 if k=='Data' else 4))
        st.nes.add(s.h)
        return st
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and all(t.startswith('Array_') for t in ts):
            v=e.fresh(st,('v',ctx,i.uid)); st.nes.add(v); return [(st,v)]
        if ts: return [(st,e.fresh(st,('v',ctx,i.uid)))]
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin) or st.norm(rv)!=ZERO: return
        s.seen.add(i.loc)
        g=lambda a: e.cell(st,a)
        d,u,l,nd,nl=g(s.sl['Data']),g(s.sl['Used']),g(s.sl['DataLength']),g(s.nc['Data']),g(s.nc['DataLength'])
        if None in(d,u,l,nd,nl): e.report('layout','the arrays of the table are not placed',i.loc,st.trace); return
        top=sub(add(s.base,s.size),d); p=st.norm(l); q=st.norm(u)
        from ..flow import scale
        want=[scale(q,p.c)] if p.isconst() else [sym(('d','mul',tuple(p),tuple(q))),sym(('d','mul',tuple(q),tuple(p)))]
        if not any(st.norm(top)==st.norm(w) or st.prove_le(sub(w,top)) for w in want): e.report('layout:slots','the slots do not lie inside the cache area (%s)'%(st.norm(top),),i.loc,st.trace)
        if not st.prove_le(sub(add(nd,nl),d)): e.report('layout:entries','the first entry does not end below the slots',i.loc,st.trace)
def chains(C,R):
    g=lambda n: C.fn(n)
    for n,K,pfx in(('CacheHT_FindUnusedNode',Reused,'reuse:'),('CacheHT_RemoveFromSlot',Removed,'remove:'),('CacheHT_InsertToSlot',Inserted,'insert:')):
        f=g(n); r=K(C); e=Engine(C.P,r); e.run(f,init=r.start(f)); R.take(e,pfx)
        if not e.violations and not r.seen: raise Broken('%s: nothing seen'%n)
        for l in sorted(r.seen): R.ok('%s: %s (%s)'%(f.src,K.__doc__.strip().splitlines()[0] if not K.__doc__.startswith('ts') else 'an entry ends up in exactly one place',l))
    for n in('CacheHT_Init','CacheHT_ReInit'):
        f=g(n); r=Layout(C); e=Engine(C.P,r); e.run(f,init=r.start(f)); R.take(e,'%s:'%n)
        if not e.violations and not r.seen: raise Broken('%s: nothing seen'%n)
        R.ok('%s: slots inside the area, entries below them'%f.src)
def same_chain(C,R):
    a,b=hashing(C,C.fn('CacheHT_InsertToSlot')),hashing(C,C.fn('CacheHT_Get'))
    if not a or not b: raise Broken('chain numbers not found')
    if a!=b: R.violation('chain','a record is put into another chain (%s) than the one it is looked for in (%s)'%(sorted(a),sorted(b)),C.fn('CacheHT_Get').file,[])
    else: R.ok('records are put into the chain they are looked for in')
