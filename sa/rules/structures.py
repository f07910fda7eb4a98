"""Shared sub-rules: comparators, search trees, name lists, loaders, generated replies."""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, sym, const, add, sub, scale, atoms
from ..common import Broken
from ..cg import tag_of
from .policy import PathRule, RECV

def argsym(fn,k): return sym(('u',(fn.name,),('arg',k)))
def args_state(fn,n,r):
    st=State(); st.ts=r.init(fn)
    for k in range(n): st.env[((fn.name,),('arg',k))]=argsym(fn,k)
    return st
def copies(n): return n in('memcpy','memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove')

# ---------------------------------------------------------------- A comparators
class Equal(Rule):
    """a comparator returns zero only when every key is equal in its full width, and never the
    difference of values too wide for the difference to keep its sign"""
    nogc=True
    def __init__(s,C,keys,wide=True):
        s.C=C; s.keys=keys; s.wide=wide; s.w={}; s.cmps={}; s.rets=0
    def descend(s,name,stack,i): return s.small_helper(s.e,name,stack)
    def on_load(s,e,st,i,a,tag,ctx,fn): s.w[i.uid]=(i.ty.bits or 64)//8 if i.ty.kind=='int' else 8
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts=={'memcmp'}:
            x=e.fresh(st,('v',ctx,i.uid)); a,b=s.a0,s.a1
            if args[2].isconst():
                for what,off,w in s.keys:
                    if {args[0],args[1]}=={add(a,const(off)),add(b,const(off))} and args[2].c>=w: s.cmps.setdefault(x[1][0][0],set()).add(what)
            return [(st,x)]
        return None
    def on_loaded(s,e,st,i,a,tag,v):
        if i.ty.kind=='int' and isinstance(v,Lin) and not v.isconst(): st.ineqs.add(scale(v,-1))     # only the order matters here
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        if isinstance(rv,Lin):
            for x,k in rv[1]:
                if isinstance(x,tuple) and x[0]=='bool':
                    for b,n in((x[1],1),(x[1].neg(),0)):
                        q=st.copy()
                        if st.decide(b) is not False and q.assume(b): s.on_ret(e,q,i,fn,ctx,add(sub(rv,scale(sym(x),k)),const(k*n)),root)
                    return
        s.rets+=1
        c=rv if isinstance(rv,Bool) else Bool('ne',rv)
        if s.wide and isinstance(rv,Lin) and rv[1]:
            v=st.norm(rv)
            for x,k in v[1]:
                if len(v[1])>1 and not s.narrow(x):
                    e.report('order','two elements are ordered by a difference that can overflow, so an element can become unreachable',i.loc,st.trace); break
        q=st.copy()
        if st.decide(c.neg()) is False or not q.assume(c.neg()): return
        for what,off,w in s.keys:
            l=[[x for x,p in e.prov.items() if p[1]==add(a,const(off)) and s.width(x)>=w] for a in(s.a0,s.a1)]
            ok=any(what in ks and q.decide(Bool('eq',sym(x))) for x,ks in s.cmps.items())
            for x in l[0]:
                for y in l[1]:
                    for f in (lambda z:sym(z),lambda z:sym(('d','ntohs',(0,((z,1),)),())),lambda z:sym(('zx',16,(0,((z,1),)))),lambda z:sym(('d','ntohs',(0,((('zx',16,(0,((z,1),))),1),)),()))):
                        d=sub(f(x),f(y))
                        if q.decide(Bool('eq',d)) or q.decide(Bool('le',d)) and q.decide(Bool('le',scale(d,-1))): ok=True
            if not ok: e.report('equal:'+what,'two elements compare equal although their %ss may differ'%what,i.loc,st.trace)
    def width(s,x):
        while isinstance(x,tuple) and x and x[0]=='o': x=x[1]
        return s.w.get(x[2],0) if isinstance(x,tuple) and len(x)>2 and x[0]=='v' else 0
    def narrow(s,x):
        if isinstance(x,tuple) and x[0]=='d' and x[1]=='ntohs': return True
        if isinstance(x,tuple) and x[0]=='zx' and x[1]<=16: return True
        if isinstance(x,tuple) and x[0]=='v': return 0<s.width(x)<=2
        return False

def comparators(C,owner):
    """functions given to Bst_Init by `owner` (or a helper of its file, transitively through a parameter)"""
    bi=C.fn('Bst_Init').name; out=set()
    f0=C.fn(owner)
    def look(f,seen,bind):
        r=set()
        def vals(v):
            x=C.P.fnvals(v)
            return x or (bind.get(v.i,set()) if v.kind=='arg' else set())
        for i in f.instrs():
            if i.op!='call': continue
            for t in C.P.targets(i):
                if t==bi: r|=vals(i.ops[2])
                elif t in C.M.functions and t not in seen and not C.M.functions[t].decl and C.M.functions[t].file==f.file:
                    r|=look(C.M.functions[t],seen|{t},{k:vals(v) for k,v in enumerate(i.ops)})
        return r
    out=look(f0,{f0.name},{})
    if not out: raise Broken('comparator of %s not found'%owner)
    return [C.M.functions[n] for n in sorted(out)]

def equal_rule(C,R,owner,keys,wide=True):
    for f in comparators(C,owner):
        r=Equal(C,keys,wide); r.a0=argsym(f,0); r.a1=argsym(f,1); e=Engine(C.P,r); e.run(f,init=args_state(f,2,r)); R.take(e,'%s:'%f.src)
        if not r.rets: raise Broken('comparator has no result')
        R.ok('%s: equal only for equal %s (%d results)'%(f.src,', '.join(k[0] for k in keys),r.rets))

# ---------------------------------------------------------------- B the search tree
EL,CH=('ghost','element'),('ghost','child')
class Tree(Rule):
    """ts=(sign of the last comparison, stored) ; EL = element last compared"""
    def __init__(s,C,mode):
        s.C=C; s.mode=mode; s.L=C.tag('Bst_NodeHead','Left'); s.R_=C.tag('Bst_NodeHead','Right'); s.root=C.tag('Bst','Root')
        s.hs=C.cval('bst.h','sizeof(Bst_NodeHead)'); s.cmp=set(C.P.ft.get(C.tag('Bst','Compare'),()))
        if not s.cmp: raise Broken('no tree comparator')
        s.seen=set()
    def init(s,fn): return ('?',0)
    def descend(s,name,stack,i):
        f=s.C.M.functions[name]; return name not in s.cmp and f.file==s.C.M.functions[stack[-1]].file
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.cmp:
            s.seen.add(('compare',i.loc))
            key,el=args[0],args[1]
            node=st.norm(sub(el,const(s.hs)))
            want={'lt':s.L,'gt':s.R_,'eq':s.L}.get(st.ts[0])
            t=e.src(node)[0]
            if key!=s.key_:
                e.report('key','the tree compares something else than the key it was given',i.loc,st.trace)
            if t is not None:
                if want is not None and t in(s.L,s.R_) and t!=want: e.report('dir:'+st.ts[0],'after a key compared %s the tree continues in its %s'%({'lt':'less','gt':'greater','eq':'equal'}[st.ts[0]],'right' if want==s.L else 'left'),i.loc,st.trace)
                if want is not None and t not in(s.L,s.R_): e.report('jump','the search does not continue in a child of the element compared',i.loc,st.trace)
                if want is None and t not in(s.root,s.L): e.report('start','the search does not start at the root',i.loc,st.trace)
            out=[]
            for k,p in (('lt',1),('eq',0),('gt',-1)):
                q=st.copy(); v=e.fresh(q,('v',ctx,i.uid))
                if k=='eq': v=ZERO
                elif k=='lt': q.ineqs.add(add(v,const(1)))
                else: q.ineqs.add(sub(const(1),v))
                q.ts=(k,0); q.env[EL]=el; q.env.pop(CH,None); out.append((q,v))
            return out
        return None
    def on_loaded(s,e,st,i,a,tag,v):
        if tag in(s.L,s.R_):
            x=st.env.get(EL); want={'lt':s.L,'gt':s.R_,'eq':s.L}.get(st.ts[0])
            if x is not None and tag==want and st.decide(Bool('eq',sub(a,add(x,const(tag[1]-s.hs))))): st.env[CH]=v
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if s.mode=='add' and tag in(s.L,s.R_,s.root):
            if isinstance(v,Lin) and v.isconst() and v.c==0: return
            k=st.ts[0]
            if tag==s.root:
                if k!='?': e.report('reroot','a new element replaces the root although others exist',i.loc,st.trace)
            else:
                want={'lt':s.L,'eq':s.L,'gt':s.R_}.get(k); x=st.env.get(EL)
                if want is None: return
                if tag!=want or x is None or st.decide(Bool('eq',sub(a,add(x,const(tag[1]-s.hs))))) is not True:
                    e.report('insert:'+k,'an element that compared %s is not inserted where the search will look for it'%{'lt':'less','eq':'equal','gt':'greater'}[k],i.loc,st.trace)
            st.ts=(k,1); s.seen.add(('insert',i.loc))
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else None
        k,stored=st.ts; x=st.env.get(EL)
        if s.mode=='search':
            if z is not True:
                if k!='eq': e.report('false-hit','the search returns an element that did not compare equal',i.loc,st.trace)
                elif x is None or st.decide(Bool('eq',sub(rv,x))) is not True: e.report('other','the search returns another element than the one that compared equal',i.loc,st.trace)
            if z is True:
                if k=='eq': e.report('lost','the search reports nothing although an element compared equal',i.loc,st.trace)
                elif k in('lt','gt'):
                    c=st.env.get(CH)
                    if c is None or st.decide(Bool('eq',c)) is not True: e.report('giveup:'+k,'the search gives up although the %s child may hold the element'%('left' if k=='lt' else 'right'),i.loc,st.trace)
        else:
            if z is not True and not stored: e.report('notstored','an element is reported as stored but is not linked into the tree',i.loc,st.trace)

def tree_rule(C,R):
    for mode,fld in(('search','Search'),('add','Add')):
        for n in sorted(C.P.ft.get(C.tag('Bst',fld),())):
            f=C.M.functions[n]; r=Tree(C,mode); r.t_=argsym(f,0); r.key_=argsym(f,1); e=Engine(C.P,r); e.run(f,init=args_state(f,3,r)); R.take(e,'%s:'%f.src)
            if not e.violations and not r.seen: raise Broken('%s: no comparison'%f.src)
            for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))

# ---------------------------------------------------------------- C names in lists
class Suffix(Rule):
    """a name matches when it or a parent of it is listed.
       ts=(current suffix: 'orig'/'dot'/'?' , matched: '?','no','yes', end)"""
    nogc=True
    def __init__(s,C):
        s.C=C; s.one={f.name for f in C.fns('StringChunk_Match_NoWildCard')}; s.seen=set()
        if not s.one: raise Broken('exact list lookup not found')
    def init(s,fn): return ('orig','?',0)
    def descend(s,name,stack,i): return name not in s.one and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts&s.one:
            s.seen.add(('lookup',i.loc)); cur=st.ts[0]
            dot=st.env.get(EL)
            if args[0]!=s.a[0]: e.report('list','a name is looked up in another list',i.loc,st.trace)
            if cur=='orig':
                if args[1]!=s.a[1]: e.report('name','the first lookup does not use the whole name',i.loc,st.trace)
                if not(args[2]==s.a[2] or args[2]==ZERO): e.report('hash','the hash passed is not that of the name',i.loc,st.trace)
            else:
                if dot is None or st.decide(Bool('eq',sub(args[1],add(dot,const(1))))) is not True: e.report('parent','the lookup does not use the parent name behind the dot found',i.loc,st.trace)
                if args[2]!=ZERO: e.report('parenthash','a parent name is looked up with the hash of the whole name, which it does not have',i.loc,st.trace)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.ts=(cur,'yes',0); st.ts=(cur,'no',0)
            return [(a,const(1)),(st,ZERO)]
        if ts=={'strchr'} and args[1]==const(ord('.')):
            s.seen.add(('dot',i.loc))
            if st.ts[1]!='no': e.report('skip','the search moves to a parent name without looking up the %s'%('name itself' if st.ts[0]=='orig' else 'one before'),i.loc,st.trace)
            base=s.a[1] if st.ts[0]=='orig' else st.env.get(EL)
            if base is not None and args[0] not in(base,add(base,const(1))) and st.decide(Bool('eq',sub(args[0],add(base,const(1))))) is not True:
                e.report('jump','the search for the next parent skips a part of the name',i.loc,st.trace)
            st.env.pop(EL,None)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); a.env[EL]=v; a.ts=('dot','?',0); st.ts=('dot','no',1)
            return [(a,v),(st,ZERO)]
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else st.decide(rv.neg())
        if z is not True and st.ts[1]!='yes': e.report('false','a name is reported as listed although no lookup found it',i.loc,st.trace)
        if z is not False:
            if st.ts[1]=='yes': e.report('lost','a listed name is reported as not listed',i.loc,st.trace)
            elif st.ts==('orig','?',0) and st.decide(Bool('eq',s.a[0])) is True: pass
            elif not st.ts[2]: e.report('giveup','a name is reported as not listed before all its parents were looked up',i.loc,st.trace)

class Either(Rule):
    """reports not-listed only after the exact lookup and the wildcard lookup both failed"""
    def __init__(s,C,first,second): s.C=C; s.k=[{f.name for n in g for f in C.fns(n)} for g in(first,second)]; s.seen=set()
    def init(s,fn): return ('?','?')
    def descend(s,name,stack,i): return not any(name in k for k in s.k) and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        for n,k in enumerate(s.k):
            if ts&k:
                s.seen.add((('exact','wildcard')[n],i.loc))
                if args[0]!=s.a[0] or args[1]!=s.a[1]: e.report('args:%d'%n,'the lookup does not use the list and name given',i.loc,st.trace)
                if n==0 and args[2] not in(s.a[2],ZERO): e.report('hash','the hash passed is not that of the name',i.loc,st.trace)
                off=3 if n==0 else 2
                for d in range(3):
                    if off+d<len(args) and args[off+d]!=s.a[3+d]: e.report('cb:%d'%n,'a condition on the entry is not passed on',i.loc,st.trace)
                a=st.copy(); t=list(st.ts); t[n]='yes'; a.ts=tuple(t); t[n]='no'; st.ts=tuple(t)
                return [(a,const(1)),(st,ZERO)]
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        for b,z in ((Bool('eq',rv),True),(Bool('ne',rv),False)) if isinstance(rv,Lin) else ((rv.neg(),True),(rv,False)):
            if st.decide(b) is False: continue
            if z and st.ts!=('no','no'): e.report('giveup','a name is reported as not listed although %s'%('a lookup found it' if 'yes' in st.ts else 'the %s entries were not looked at'%('exact' if st.ts[0]=='?' else 'wildcard')),i.loc,st.trace)
            if not z and 'yes' not in st.ts: e.report('false','a name is reported as listed although no lookup found it',i.loc,st.trace)

def list_rule(C,R):
    f=C.fn('StringChunk_Domain_Match_NoWildCard'); r=Suffix(C); r.a=[argsym(f,k) for k in range(6)]
    e=Engine(C.P,r); e.run(f,init=args_state(f,6,r)); R.take(e,f.src+':')
    if not e.violations and not {'lookup','dot'}<={k for k,_ in r.seen}: raise Broken('%s: lookups not found'%f.src)
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    E=('StringChunk_Match_NoWildCard',); D=('StringChunk_Domain_Match_NoWildCard',); W=('StringChunk_Match_OnlyWildCard',); G=('StringChunk_Match_OnlyWildCard_GetOne',); X=('StringChunk_Match_WildCard_Exactly',)
    n=0
    for name,a,b in (('StringChunk_Match',E,W),('StringChunk_Domain_Match',D,W),('StringChunk_Domain_Match_WildCardRandom',D,G),('StringChunk_Match_Exactly',E,X)):
        f=C.fn(name,need=False)
        if f is None or len(f.args)<6: continue
        r=Either(C,a,b); r.a=[argsym(f,k) for k in range(6)]; e=Engine(C.P,r); e.run(f,init=args_state(f,6,r)); R.take(e,name+':')
        if not e.violations and len({k for k,_ in r.seen})<2: raise Broken('%s: lookups not found'%name)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(name,k,l)); n+=1
    if not R.viol: R.need(n,4,'list lookups')

def scan_rule(C,R,files):
    """loops over an array: every element from the first to the last is visited"""
    gb={f.name for f in C.fns('Array_GetBySubscript')}; used=C.tag('Array','Used'); n=0
    for f in C.P.fns:
        if not any(f.file.endswith(x) for x in files): continue
        for i in f.instrs():
            if i.op!='call' or not C.P.targets(i)&gb: continue
            v=i.ops[1]
            while v.kind=='instr' and v.op in('sext','zext','trunc'): v=v.ops[0]
            if v.kind!='instr' or v.op!='phi': continue
            starts=[]; steps=[]; other=False
            for o in v.ops:
                while o.kind=='instr' and o.op in('sext','zext','trunc'): o=o.ops[0]
                if o.kind=='const': starts.append(o.v)
                elif o.kind=='instr' and o.op in('add','sub') and v in o.ops and any(x.kind=='const' for x in o.ops):
                    k=[x for x in o.ops if x.kind=='const'][0].v; steps.append(k if o.op=='add' else -k)
                elif o is v: pass
                else: other=True
            if other or len(starts)!=1 or not steps: continue
            bound=None
            for j in f.instrs():
                if j.op=='icmp':
                    a,b=j.ops
                    def strip(x):
                        while x.kind=='instr' and x.op in('sext','zext','trunc'): x=x.ops[0]
                        return x
                    a,b=strip(a),strip(b)
                    if a is v or b is v:
                        o=b if a is v else a
                        base=o; k=0
                        while base.kind=='instr' and base.op in('add','sub') and base.ops[1].kind=='const': k+=base.ops[1].v*(1 if base.op=='add' else -1); base=strip(base.ops[0])
                        if base.kind=='instr' and base.op=='load' and tag_of(base.ops[0])==used: bound=(j.pred,k,a is v)
            if bound is None: continue
            n+=1; p,k,lhs=bound
            if not lhs: p={'slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(p,p)
            want=0 if p in('ne','eq','slt','sge','ult','uge') else -1
            if starts!=[0]: R.violation('%s:start'%f.src,'%s skips the first %s element(s) of an array it has to search completely'%(f.src,starts[0]),i.loc)
            elif any(x!=1 for x in steps): R.violation('%s:step'%f.src,'%s skips elements of an array it has to search completely'%f.src,i.loc)
            elif k!=want: R.violation('%s:bound'%f.src,'%s %s the last element(s) of an array it has to search completely'%(f.src,'skips' if k<want else 'runs past'),i.loc)
            else: R.ok('%s: every element visited at %s'%(f.src,i.loc))
    return n

# ---------------------------------------------------------------- E refused reply
def kbits(v):
    """(bits known one, bits known zero) of a value, low 16"""
    M=0xffff
    if not isinstance(v,Lin): return (0,0)
    if v.isconst(): return (v.c&M,~v.c&M)
    if v.c==0 and len(v[1])==1 and v[1][0][1]==1:
        x=v[1][0][0]
        if isinstance(x,tuple):
            if x[0]=='d' and x[1] in('or','and','xor'):
                a,b=kbits(Lin(*x[2])),kbits(Lin(*x[3]))
                if x[1]=='or': return (a[0]|b[0],a[1]&b[1])
                if x[1]=='and': return (a[0]&b[0],a[1]|b[1])
                k=(a[0]|a[1])&(b[0]|b[1]); w=a[0]^b[0]; return (w&k,~w&k&M)
            if x[0]=='d' and x[1]=='shl' and not x[3][1]:
                a=kbits(Lin(*x[2])); n=x[3][0]; return ((a[0]<<n)&M,((a[1]<<n)|((1<<n)-1))&M)
            if x[0] in('zx','tr'):
                a=kbits(Lin(*x[2])); m=(1<<x[1])-1
                return (a[0]&m,(a[1]&m)|(~m&M if x[0]=='zx' else 0))
    return (0,0)
class Refuse(Rule):
    """the refusal is a reply: QR is set in the header that is sent, and it is sent"""
    def __init__(s,C):
        s.C=C; s.back=C.fn('MsgContext_SendBack').name; s.hdr=C.cval('iheader.h','sizeof(IHeader)'); s.seen=set()
    def init(s,fn): return 0
    def descend(s,name,stack,i): return name!=s.back and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if s.back in ts:
            s.seen.add(('refusal',i.loc)); st.ts=1
            if args[0]!=s.a: e.report('other','the refusal sent is not the refused query',i.loc,st.trace)
            ok=False
            for k,(v,(t,z)) in st.mem.items():
                d=sub(k[0],add(s.a,const(s.hdr)))
                if d.isconst() and d.c in(1,2) and z>2-d.c and kbits(st.norm(v) if isinstance(v,Lin) else v)[0]&(0x80<<(8*(2-d.c))): ok=True
            if not ok: e.report('direction','a refused query is sent back without being marked as a response',i.loc,st.trace)
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root and not st.ts: e.report('silent','a refused query gets no reply',i.loc,st.trace)
def refuse_rule(C,R):
    f=C.fn('MsgContext_SendBackRefusedMessage'); r=Refuse(C); r.a=argsym(f,0); e=Engine(C.P,r); e.run(f,init=args_state(f,1,r)); R.take(e,f.src+':')
    if not e.violations and not r.seen: raise Broken('%s: no reply'%f.src)
    R.ok('%s: marked as a response and sent'%f.src)

# ---------------------------------------------------------------- H addresses and ranges
class RangeCb(Rule):
    """the callback of the walk over the ranges: ends the walk exactly when a range contains the address, and keeps it"""
    def __init__(s,C,cmps): s.C=C; s.cmps=cmps; s.keep={}; s.seen=set()
    def init(s,fn): return '?'
    def descend(s,name,stack,i): return name not in s.cmps and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts&s.cmps:
            s.seen.add(('compare',i.loc))
            if args[1]!=s.a[1]: e.report('cb:element','the range compared is not the one visited',i.loc,st.trace)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); a.ts='no'; st.ts='yes'; return [(a,v),(st,ZERO)]
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        d=sub(a,s.a[2])
        if d.isconst() and v==s.a[1]:
            if st.ts!='yes': e.report('cb:keep','a range is kept although it does not contain the address',i.loc,st.trace)
            s.keep[d.c]=i.loc
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else st.decide(rv.neg())
        if st.ts=='yes' and z is not False and not s.keep: e.report('cb:lost','the range found is not kept',i.loc,st.trace)
        if st.ts!='yes' and z is not True: e.report('cb:stop','the walk over the ranges ends before every range was compared',i.loc,st.trace)

class Find(Rule):
    """ts=(single addresses, ranges): '?','miss','hit'"""
    def __init__(s,C,R,cmps):
        s.C=C; s.R=R; s.cmps=cmps; s.se=set(C.P.ft.get(C.tag('Bst','Search'),())); s.en=set(C.P.ft.get(C.tag('Bst','Enum'),()))
        s.A,s.D=C.off('IpChunk','AddrChunk'),C.off('IpChunk','CidrChunk'); s.bits=C.off('IpSet','PrefixBits')+C.off('IpElement','IpSet'); s.seen=set()
        s.ty,s.da=C.tag('IpElement','Type'),C.tag('IpElement','Data')
    def init(s,fn): return ('?','?',0,())
    def descend(s,name,stack,i): return name not in s.se|s.en|s.cmps and s.small_helper(s.e,name,stack)
    def keybits(s,e,st,i,k):
        v=e.cell(st,add(k,const(s.bits)))
        for n in(4,16):
            if st.decide(Bool('eq',sub(s.a[2],const(n)))) and not(v is not None and v.isconst() and v.c==8*n): e.report('bits:%d'%n,'a %d byte address is not looked up with all its bits'%n,i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.se|s.en:
            d=sub(args[0],s.a[0])
            if not d.isconst() or d.c not in(s.A,s.D): return None
            w=0 if d.c==s.A else 1
            s.seen.add((('single','range')[w]+(' lookup' if ts<=s.se else ' walk'),i.loc))
            if ts<=s.se:
                s.keybits(e,st,i,args[1])
                a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); t=list(a.ts); t[w]='hit'; a.ts=tuple(t)
                if w==0: t=list(st.ts); t[0]='miss'; st.ts=tuple(t)      # nested ranges: a search of the ranges may miss one
                return [(a,v),(st,ZERO)]
            cb=s.C.P.fnvals(i.ops[1]); keep=None
            for n in sorted(cb):
                f=s.C.M.functions[n]; r=RangeCb(s.C,s.cmps); r.a=[argsym(f,k) for k in range(3)]; x=Engine(s.C.P,r); x.run(f,init=args_state(f,3,r)); s.R.take(x,f.src+':')
                if not r.seen and not x.violations: return None
                keep=r.keep; s.seen|=r.seen
            if keep is None: return None
            a=st.copy(); e.kill_region(a,args[2]); t=list(a.ts); t[w]='hit'; a.ts=tuple(t)
            for o in keep:
                v=e.fresh(a,('v',ctx,i.uid,o)); a.nes.add(v); e.store(a,add(args[2],const(o)),None,v,8)
            t=list(st.ts); t[w]='miss'; st.ts=tuple(t); v=e.fresh(st,('v',ctx,i.uid))
            return [(a,e.fresh(a,('v',ctx,i.uid))),(st,v)]
        return None
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        if q.ts[2]==0 and (q.decide(Bool('eq',s.a[0])) or all(q.decide(Bool('eq',sub(s.a[2],const(n)))) is False for n in(4,16))): q.ts=q.ts[:2]+(1,q.ts[3])
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        for k,t in((3,s.ty),(4,s.da)):
            if a==s.a[k]: st.ts=st.ts[:3]+(tuple(sorted(set(st.ts[3])-{k}|({k} if isinstance(v,Lin) and e.src(v)[0]==t else set()))),)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else st.decide(rv.neg())
        hit='hit' in st.ts[:2]
        if z is not True and not hit: e.report('false','an address is reported as configured although neither lookup found it',i.loc,st.trace)
        if z is not False:
            if hit: e.report('lost','a configured address is reported as not configured',i.loc,st.trace)
            elif st.ts[2]: pass
            elif st.ts[:2]!=('miss','miss'): e.report('giveup','an address is reported as not configured although the %s were not all looked at'%('ranges' if st.ts[0]=='miss' else 'single addresses'),i.loc,st.trace)
        if z is False and hit:
            for k,t,n in((3,s.ty,'action'),(4,s.da,'substitute')):
                if st.decide(Bool('eq',s.a[k])) is True: continue
                if k not in st.ts[3]: e.report('out:'+n,'the %s reported is not that of the entry found'%n,i.loc,st.trace)

def contain_rule(C,R):
    """comparison of an address with a range: whole words while whole words are left, then the rest under a mask in network order"""
    def strip(v):
        while v.kind=='instr' and v.op in('bitcast','zext','sext','trunc','freeze'): v=v.ops[0]
        return v
    def base(v,n=0):
        v=strip(v)
        if v.kind=='instr' and v.op=='gep' and gepoff(v) is not None: return base(v.ops[0],n+gepoff(v))
        return v,n
    gepoff=constgep
    def form(v,seen=()):
        v,n=base(v)
        if v.kind=='instr' and v.op=='phi' and v not in seen:
            return ('phi',v.block.i if hasattr(v,'block') else 0,n,tuple(sorted(str(form(o,seen+(v,))) for o in v.ops if base(o)[0] is not v)))
        return ('base',n)
    for f in comparators(C,'IpChunk_Init'):
        n=0
        for i in f.instrs():
            if i.op!='call': continue
            if 'memcmp' not in C.P.targets(i): continue
            p=[strip(o) for o in i.ops[:2]]
            if not all(x.kind=='instr' and x.op=='phi' for x in p) or i.ops[2].kind!='const': continue
            steps=[[base(o)[1] for o in x.ops if base(o)[0] is x and base(o)[1]] for x in p]
            if not all(steps): continue
            n+=1; k=i.ops[2].v
            if steps[0]!=steps[1] or any(x!=k for x in steps[0]): R.violation('%s:step'%f.src,'the parts of an address compared do not follow one another (%d bytes compared, steps %s)'%(k,steps),i.loc)
            if form(p[0])!=form(p[1]): R.violation('%s:start'%f.src,'an address and a range are compared from different positions',i.loc)
            # the counter of bits left
            done=False
            for j in f.instrs():
                if j.op!='icmp' or not(j.ops[1].kind=='const'): continue
                c=strip(j.ops[0])
                if c.kind!='instr' or c.op!='phi' or c.block is not p[0].block or j.block is not c.block or not any(strip(o).kind=='instr' and strip(o).op in('add','sub') and strip(strip(o).ops[0]) is c for o in c.ops): continue
                dec=[(strip(o).ops[1].v if strip(o).op=='sub' else -strip(o).ops[1].v) for o in c.ops if strip(o).kind=='instr' and strip(o).op in('add','sub') and strip(strip(o).ops[0]) is c and strip(o).ops[1].kind=='const']
                if not dec or abs(dec[0])!=8*k and j.ops[1].v<k: continue
                t={'sge':j.ops[1].v,'sgt':j.ops[1].v+1,'slt':j.ops[1].v,'sle':j.ops[1].v+1,'uge':j.ops[1].v,'ugt':j.ops[1].v+1,'ult':j.ops[1].v,'ule':j.ops[1].v+1}.get(j.pred)
                if t is None: continue
                done=True
                if dec[0]!=8*k: R.violation('%s:bits'%f.src,'%d bytes are compared but %d bits are counted'%(k,dec[0]),j.loc)
                elif t!=8*k: R.violation('%s:bound'%f.src,'whole words are compared while at least %d bits are left, a word has %d'%(t,8*k),j.loc)
            if done: R.ok('%s: whole words compared in step at %s'%(f.src,i.loc))
        # the rest under a mask
        for i in f.instrs():
            if i.op!='and' or i.ty.kind!='int' or (i.ty.bits or 0) not in(16,32,64): continue
            for a,b in((i.ops[0],i.ops[1]),(i.ops[1],i.ops[0])):
                a,b=strip(a),strip(b)
                if a.kind=='instr' and a.op=='load' and shifted(b) and not swapped(C,b):
                    R.violation('%s:order'%f.src,'the rest of a range is compared under a mask that is not in network byte order',i.loc)
                elif a.kind=='instr' and a.op=='load' and shifted(b): R.ok('%s: the rest is compared under a mask in network order at %s'%(f.src,i.loc))
        R.cov['address comparison loops']=n
def constgep(g):
    """constant byte offset of a gep, or None"""
    t=g.srcty; n=0
    for k,i in enumerate(g.ops[1:]):
        if i.kind!='const' or t is None: return None
        if k==0: n+=i.v*(t.size or 0)
        elif t.kind=='struct': n+=t.offsets[i.v]; t=t.fields[i.v]
        elif t.kind=='array': t=t.elem; n+=i.v*(t.size or 0)
        else: return None
    return n
def shifted(v,d=0):
    if v.kind!='instr' or d>8: return False
    if v.op in('shl','lshr','ashr'): return any(o.kind=='instr' for o in v.ops)
    return v.op in('xor','sub','add','zext','trunc','sext','or','and','call') and any(shifted(o,d+1) for o in v.ops)
def swapped(C,v,d=0):
    if v.kind!='instr' or d>8: return False
    if v.op=='call': return bool(C.P.targets(v)&{'htonl','htons','ntohl','ntohs','llvm.bswap.i32','llvm.bswap.i16','llvm.bswap.i64'})
    return any(swapped(C,o,d+1) for o in v.ops)

class Subst(Rule):
    """a substitute is stored with the length of its own family, which is that of the address it replaces"""
    def __init__(s,C): s.C=C; s.add=C.fn('IpChunk_Add').name; s.SUB=C.enum('IP_MISC_TYPE_SUBSTITUTE'); s.seen=set()
    def init(s,fn): return ('?',None)
    def descend(s,name,stack,i): return name!=s.add and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=s.C.name(next(iter(ts))) if len(ts)==1 else ''
        if n=='strchr' and args[1]==const(ord(':')):
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); a.ts=('6',a.ts[1]); st.ts=('4',st.ts[1]); return [(a,v),(st,ZERO)]
        if n in('IPv6AddressToNum','IPv4AddressToNum'): st.ts=(st.ts[0],(n[3],tuple(args[1]))); return None
        if s.add in ts and args[2]==const(s.SUB):
            s.seen.add(('store',i.loc)); fam,w=st.ts
            if w is None or w[1]!=tuple(args[3]): e.report('source','the substitute stored is not the one that was read',i.loc,st.trace); return None
            if fam in'46' and w[0]!=fam: e.report('family','an IPv%s address gets a substitute read as IPv%s'%(fam,w[0]),i.loc,st.trace)
            if args[4]!=const(16 if w[0]=='6' else 4): e.report('length','an IPv%s substitute is not stored whole'%w[0],i.loc,st.trace)
        return None

def address_rule(C,R):
    cmps={f.name for f in comparators(C,'IpChunk_Init')}
    f=C.fn('IpChunk_Find'); r=Find(C,R,cmps); r.a=[argsym(f,k) for k in range(5)]; e=Engine(C.P,r); e.run(f,init=args_state(f,5,r)); R.take(e,f.src+':')
    if not e.violations and len({k for k,_ in r.seen})<3: raise Broken('%s: lookups not found'%f.src)
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    contain_rule(C,R)
    ad=C.fn('IpChunk_Add').name; n=0
    for f in C.P.fns:
        if ad in C.P.callees.get(f.name,()):
            r=Subst(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
            for k,l in sorted(r.seen): R.ok('%s: substitute stored whole at %s'%(f.src,l)); n+=1
    R.need(n,1,'places that store a substitute')
