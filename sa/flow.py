"""Path-sensitive abstract interpreter over the SSA program (ESP style).

States carry (a) linear values for SSA names and memory cells, (b) facts
(equalities / disequalities / linear inequalities) learnt from branches and
(c) a rule-specific typestate.  States meeting at a block with the same
typestate are joined; different typestates stay apart.  Calls to functions a
rule cares about are entered with the caller's state (virtual inlining);
all others are replaced by their field-based MOD summary.  No code is run and no
solver is used: conditions are decided only by syntactic linear implication.
"""
from .cg import strip, tag_of
from collections import OrderedDict

# ------------------------------------------------------------------ linear values
class Lin(tuple):
    """(const, ((sym,coef),...)) with sorted terms"""
    __slots__=()
    def __new__(cls,c,terms=()):
        return tuple.__new__(cls,(c,terms))
    @property
    def c(s): return s[0]
    @property
    def t(s): return s[1]
    def isconst(s): return not s[1]
    def __repr__(s):
        return '+'.join([('%s*'%k if k!=1 else '')+symstr(x) for x,k in s[1]]+([str(s[0])] if s[0] or not s[1] else []))
_keyc={}
def _k(x):
    r=_keyc.get(x)
    if r is None: r=_keyc[x]=repr(x)
    return r
def mk(c,d):
    return Lin(c,tuple(sorted(((x,k) for x,k in d.items() if k),key=lambda p:_k(p[0]))))
def const(n): return Lin(n)
def sym(x): return Lin(0,((x,1),))
ZERO=const(0)
def add(a,b,kb=1):
    if not b[1]: return Lin(a[0]+kb*b[0],a[1])
    if not a[1] and kb==1: return Lin(a[0]+b[0],b[1])
    d=dict(a[1])
    for x,k in b[1]: d[x]=d.get(x,0)+kb*k
    return mk(a[0]+kb*b[0],d)
def sub(a,b): return add(a,b,-1)
def scale(a,n):
    if n==0: return ZERO
    return Lin(a[0]*n,tuple((x,k*n) for x,k in a[1]))
def symstr(x):
    if isinstance(x,tuple):
        if not x: return '()'
        if x[0]=='G': return '&'+x[1]
        if x[0]=='F': return x[1]
        return '<'+'.'.join(str(y) if not isinstance(y,tuple) else symstr(y) for y in x)+'>'
    return str(x)
def syms(a): return [x for x,_ in a[1]]

class Bool(tuple):
    """predicate value: lin pred 0, pred in eq ne le lt (signed) or un (unsigned, undecided)"""
    __slots__=()
    def __new__(cls,pred,lin): return tuple.__new__(cls,('B',pred,lin))
    @property
    def pred(s): return s[1]
    @property
    def lin(s): return s[2]
    def neg(s):
        p,l=s[1],s[2]
        if p=='eq': return Bool('ne',l)
        if p=='ne': return Bool('eq',l)
        if p=='le': return Bool('lt',scale(l,-1))      # not l<=0 -> -l<0
        if p=='lt': return Bool('le',scale(l,-1))
        if p=='ult': return Bool('nult',l)
        if p=='nult': return Bool('ult',l)
        return Bool('?',l)

class IQ(set):
    """inequality facts with an index by linear form"""
    __slots__=('idx','bysym')
    def __init__(s,*a): set.__init__(s,*a); s.idx=None
    def add(s,f):
        if f not in s: set.add(s,f); s.idx=None
class State:
    deep=True
    __slots__=('env','mem','eqs','nes','ineqs','ts','trace','tags','dead','x')
    def __init__(s):
        s.env={}; s.mem={}; s.eqs={}; s.nes=set(); s.ineqs=set(); s.ts=None; s.trace=(); s.tags={}; s.dead=False; s.x=None
    def copy(s):
        n=State.__new__(State)
        n.env=dict(s.env); n.mem=dict(s.mem); n.eqs=dict(s.eqs); n.nes=set(s.nes); n.ineqs=set(s.ineqs); n.ts=s.ts; n.trace=s.trace; n.tags=dict(s.tags); n.dead=False; n.x=s.x
        return n
    def note(s,msg):
        if len(s.trace)<60: s.trace=s.trace+(msg,)
    # ---- normalisation by known equalities
    def norm(s,l):
        if not l[1] or not s.eqs: return l
        for _ in range(4):
            hit=False
            for x,k in l[1]:
                e=s.eqs.get(x)
                if e is not None:
                    d=dict(l[1]); d.pop(x)
                    l=add(mk(l[0],d),scale(e,k)); hit=True; break
            if not hit: break
        return l
    # ---- decide lin pred 0 : True/False/None
    def decide(s,b):
        if not isinstance(b,Bool): return None
        p=b.pred; l=s.norm(b.lin)
        if p=='eq' or p=='ne':
            r=None
            if l.isconst(): r=(l.c==0)
            else:
                if l in s.nes or scale(l,-1) in s.nes: r=False
                elif s._le(add(l,const(1))) or s._le(add(scale(l,-1),const(1))): r=False
                elif len(l[1])<=2 and s._le(l) and s._le(scale(l,-1)): r=True
                elif len(l[1])==1 and l.c==0 and is_nonnull(l[1][0][0]): r=False
                elif len(l[1])==1 and abs(l[1][0][1])==1 and is_nonnull(l[1][0][0]) and abs(l.c)<(1<<20): r=False
            if r is None: return None
            return r if p=='eq' else (not r)
        if p=='le' or p=='lt':
            if p=='lt': l=add(l,const(1))
            if s._le(l): return True
            if s._le(add(scale(l,-1),const(1))): return False
            return None
        if p in('ult','nult'):
            # l encodes a-b ; a,b in extra
            return None
        return None
    def index(s):
        q=s.ineqs
        if type(q) is not IQ: q=s.ineqs=IQ(q)
        if q.idx is None:
            q.idx={}; q.bysym={}
            for f in q:
                t=f[1]
                o=q.idx.get(t)
                if o is None:
                    q.idx[t]=f[0]
                    for x,k in t: q.bysym.setdefault((x,k>0),[]).append(t)
                elif f[0]>o: q.idx[t]=f[0]
        return q
    def _le(s,l):
        if not l[1]: return l[0]<=0
        q=s.index()
        m=q.idx.get(l[1])
        if m is not None and l[0]<=m: return True
        # sum of two facts sharing a symbol with l
        seen=set()
        for x,k in l[1]:
            for t in q.bysym.get((x,k>0),()):
                if t in seen: continue
                seen.add(t)
                if len(t)>len(l[1])+2: continue
                d=sub(Lin(0,l[1]),Lin(0,t))
                if not d[1]:
                    if l[0]<=q.idx[t]: return True
                    continue
                m=q.idx.get(d[1])
                if m is not None and l[0]-q.idx[t]<=m: return True
        return False
    def prove_le(s,l,depth=3):
        """l <= 0 by adding up to `depth` facts (each fact shares a symbol)"""
        l=s.norm(l)
        if l.isconst(): return l.c<=0
        if depth==0: return False
        if s._le(l): return True
        if depth==1: return False
        q=s.index(); seen=set()
        if any(k not in(1,-1) for _,k in l[1]):       # multiples: their constant bounds, scaled
            m=l
            for x,k in l[1]:
                if k in(1,-1): continue
                b=q.idx.get(((x,1 if k>0 else -1),))
                if b is not None: d=dict(m[1]); d.pop(x); m=mk(m[0]-abs(k)*b,d)
            if m is not l and s.prove_le(m,depth-1): return True
            q=s.index()
        for x,k in l[1]:
            for t in list(q.bysym.get((x,k>0),())):
                if t in seen: continue
                seen.add(t)
                d=sub(l,Lin(q.idx[t],t))
                if len(d[1])<=max(len(l[1]),2) and s.prove_le(d,depth-1): return True
                if q is not s.ineqs: q=s.index()
        return False
    # ---- assume lin pred 0 ; returns False if contradictory
    def assume(s,b):
        if not isinstance(b,Bool): return True
        d=s.decide(b)
        if d is not None: return d
        p=b.pred; l=s.norm(b.lin)
        if p=='eq':
            # substitute a symbol
            for x,k in l[1]:
                if abs(k)==1 and not is_nonnull(x):
                    dd=dict(l[1]); dd.pop(x)
                    e=scale(mk(l.c,dd),-k)
                    s.addeq(x,e); break
            else:
                s.ineqs.add(l); s.ineqs.add(scale(l,-1))
            for n in list(s.nes):
                nn=s.norm(n)
                if nn.isconst() and nn.c==0: return False
            for f in list(s.ineqs):
                nf=s.norm(f)
                if nf.isconst() and nf.c>0: return False
            m=masked(l,s)
            if m: s._addle(sub(const(m[1]),m[0]))
        elif p=='ne':
            s.nes.add(l)
            m=masked(l,s)
            if m: s._addle(add(m[0],const(1-m[1])))
            # tighten bounds
            if add(l,ZERO) in s.ineqs: s.ineqs.add(add(l,const(1)))
            m=scale(l,-1)
            if m in s.ineqs: s.ineqs.add(add(m,const(1)))
        elif p=='le': s._addle(l)
        elif p=='lt': s._addle(add(l,const(1)))
        return True
    def _addle(s,l):
        s.ineqs.add(l)
        if l in s.nes or scale(l,-1) in s.nes: s.ineqs.add(add(l,const(1)))
    def addeq(s,x,e):
        # rewrite existing facts
        for k,v in list(s.eqs.items()):
            if any(y==x for y,_ in v[1]): s.eqs[k]=subst(v,x,e)
        if any(x in (y for y,_ in f[1]) for f in s.nes): s.nes={subst(f,x,e) for f in s.nes}
        if any(x in (y for y,_ in f[1]) for f in s.ineqs): s.ineqs={subst(f,x,e) for f in s.ineqs}
        s.eqs[x]=e
    def forget(s,x):
        """symbol x is about to be redefined: its old value becomes ('o',x)"""
        hit=s._uses(x)
        if not hit: return
        o=('o',x)
        for k in [k for k in s.env if k[0]=='ghost' and x in ghostatoms(k)]:
            v=s.env.pop(k)
            if k[1][0] in KEEP and o not in ghostatoms(k): s.env[('ghost',tuple(rename(y,x,o) if isinstance(y,Lin) else y for y in k[1]))]=v
        def drop(pred):
            for k,v in list(s.env.items()):
                if pred(v): s.env[k]=sym(('t',k))
            for k,v in list(s.mem.items()):
                if pred(v[0]) or pred(k[0]): del s.mem[k]
            for k,v in list(s.eqs.items()):
                if pred(sym(k)) or pred(v): del s.eqs[k]
            s.nes={f for f in s.nes if not pred(f)}; s.ineqs={f for f in s.ineqs if not pred(f)}
        if s.deep:
            drop(lambda v: o in atoms(v) or not isinstance(v,Lin) and nested(v,x))
            rn=lambda l: rename(l,x,o)
        else:
            drop(lambda v: nested(v,x) or (o in flat(v)) or nested(v,o))
            e=sym(o)
            rn=lambda l: subst(l,x,e)
        if x in s.eqs: s.eqs[o]=s.eqs.pop(x)
        def sb(v): return Bool(v.pred,rn(v.lin)) if isinstance(v,Bool) and not isinstance(v,UBool) else (rn(v) if isinstance(v,Lin) else sym(('t',x)))
        for k,v in list(s.env.items()):
            if x in atoms(v): s.env[k]=sb(v)
        for k,v in list(s.mem.items()):
            if x in atoms(v[0]) or x in atoms(k[0]):
                del s.mem[k]; s.mem[(rn(k[0]),k[1])]=(sb(v[0]),v[1])
        for k,v in list(s.eqs.items()):
            if x in symatoms(k): del s.eqs[k]; k=rn(sym(k))[1][0][0]; s.eqs[k]=rn(v)
            elif x in atoms(v): s.eqs[k]=rn(v)
        s.nes={rn(f) if x in atoms(f) else f for f in s.nes}; s.ineqs={rn(f) if x in atoms(f) else f for f in s.ineqs}
    def _uses(s,x):
        for k,v in s.env.items():
            if x in atoms(v) or (k[0]=='ghost' and x in ghostatoms(k)): return True
        for k,v in s.mem.items():
            if x in atoms(v[0]) or x in atoms(k[0]): return True
        for k,v in s.eqs.items():
            if x==k or x in atoms(v) or x in symatoms(k): return True
        for f in s.nes:
            if x in atoms(f): return True
        for f in s.ineqs:
            if x in atoms(f): return True
        return False

KEEP=set()      # names of ghosts that follow a value when its symbol is reused
_ga={}
def ghostatoms(k):
    r=_ga.get(k)
    if r is None:
        r=set()
        if isinstance(k[1],tuple):
            for y in k[1]:
                if isinstance(y,Lin): r|=atoms(y)
        r=_ga[k]=frozenset(r)
    return r
def flat(l):
    if isinstance(l,Lin): return [z for z,_ in l[1]]
    if isinstance(l,Bool): return [z for z,_ in l.lin[1]]
    return []
_sa={}
def symatoms(x):
    """symbols nested inside derived symbols, plus the symbol itself"""
    r=_sa.get(x)
    if r is None:
        r={x}
        if isinstance(x,tuple) and x[0] in('zx','tr','d','bool'):
            for y in x[1:]: r|=_deep(y)
        r=_sa[x]=frozenset(r)
    return r
def _deep(y):
    r=set()
    if isinstance(y,Bool): return set(atoms(y))
    if isinstance(y,tuple):
        if len(y)==2 and isinstance(y[1],tuple) and isinstance(y[0],int):       # a raw lin (c,terms)
            for t in y[1]: r|=symatoms(t[0])
        elif y and isinstance(y[0],tuple):                                      # a raw terms tuple
            for t in y:
                if isinstance(t,tuple) and len(t)==2: r|=symatoms(t[0])
    return r
_at={}
def atoms(l):
    r=_at.get(l)
    if r is None:
        r=set()
        for z in flat(l): r|=symatoms(z)
        r=_at[l]=frozenset(r)
    return r
def nested(l,x): return x in atoms(l) and any(z!=x and x in symatoms(z) for z in flat(l))

def masked(l,st):
    """l = (v & topbits) - topbits for a byte v: (v, topbits)"""
    if len(l[1])==1 and abs(l[1][0][1])==1:
        x=l[1][0][0]
        if isinstance(x,tuple) and x[0]=='d' and x[1]=='and' and not x[3][1]:
            m=x[3][0]
            if l.c==-m*l[1][0][1] and 0<m<256 and (256-m)&(255-m)==0 and len(x[2][1])==1 and x[2][0]==0 and x[2][1][0][1]==1:
                z=x[2][1][0][0]
                if isinstance(z,tuple) and z[0]=='zx' and z[1]==8 or st._le(sym_neg(z)) and st._le(Lin(-255,((z,1),))): return sym(z),m
    return None
_rn={}
def rename(l,x,o):
    """l with every occurrence of the symbol x, however deep, read as o"""
    k=(l,x)
    r=_rn.get(k)
    if r is None:
        def rep(t):
            if t==x: return o
            if not isinstance(t,tuple): return t
            if len(t)==2 and isinstance(t[0],int) and isinstance(t[1],tuple) and all(isinstance(p,tuple) and len(p)==2 and isinstance(p[1],int) for p in t[1]):
                d={}
                for y,n in t[1]: y=rep(y); d[y]=d.get(y,0)+n
                return tuple(mk(t[0],d))
            return tuple(rep(y) for y in t)
        d={}
        for y,n in l[1]:
            y=rep(y) if x in symatoms(y) or y==x else y; d[y]=d.get(y,0)+n
        if len(_rn)>200000: _rn.clear()
        r=_rn[k]=mk(l[0],d)
    return r
def subst(l,x,e):
    for y,k in l[1]:
        if y==x:
            d=dict(l[1]); d.pop(x)
            return add(mk(l[0],d),scale(e,k))
    return l
def is_nonnull(x):
    return isinstance(x,tuple) and x[0] in('G','A','F')

def base_of(l):
    """the single object symbol an address is relative to, or None"""
    b=[x for x,k in l[1] if k==1 and isinstance(x,tuple) and x[0] in('G','A')]
    return b[0] if len(b)==1 else None

class Engine:
    MAXSTATES=4000
    def __init__(s,P,rule):
        s.fm=getattr(rule,'fm',False)
        s.P=P; s.rule=rule; rule.e=s; s.steps=0; s.blocks=0; s.pathstates=0; s.joins={}; s.rkvals={}
        s.violations=OrderedDict(); s.prov={}
        s.visited_fns=set()
        s.limit=getattr(rule,'step_limit',3000000)

    def report(s,key,msg,loc,trace=()):
        if key not in s.violations: s.violations[key]={'msg':msg,'loc':loc,'trace':list(trace)}

    # ---------------------------------------------------------------- values
    def val(s,st,ctx,v):
        k=v.kind
        if k=='const': return const(v.v)
        if k=='null': return ZERO
        if k=='instr' or k=='arg':
            key=(ctx,v.uid) if k=='instr' else (ctx,('arg',v.i))
            r=st.env.get(key)
            if r is None:
                if k=='instr' and v.op=='alloca': r=sym(('A',ctx,v.uid))
                else:
                    r=sym(('u',)+key); st.env[key]=r
            return r
        if k=='global': return sym(('G',v.name))
        if k=='func': return sym(('F',v.name))
        if k=='cexpr':
            if v.op=='gep': return s.gep(st,ctx,v)
            if v.op in('bitcast','ptrtoint','inttoptr','trunc','zext','sext'): return s.val(st,ctx,v.ops[0])
            if v.op in('add','sub'):
                a,b=s.lin(st,ctx,v.ops[0]),s.lin(st,ctx,v.ops[1]); return add(a,b) if v.op=='add' else sub(a,b)
            return sym(('c',id(v)))
        if k=='undef': return sym(('undef',))
        return sym(('c',id(v)))
    def lin(s,st,ctx,v):
        r=s.val(st,ctx,v)
        if isinstance(r,Bool):
            d=st.decide(r)
            if d is not None: return const(1 if d else 0)
            key=('b',r.pred)+tuple(r.lin)
            return sym(('bool',r))
        return st.norm(r)
    def gep(s,st,ctx,g):
        a=s.lin(st,ctx,g.ops[0]); cur=g.srcty; first=True
        for i in g.ops[1:]:
            if first:
                first=False; sz=cur.size or 1
                a=add(a,scale(s.lin(st,ctx,i),sz)); continue
            if cur.kind=='struct':
                a=add(a,const(cur.offsets[i.v])); cur=cur.fields[i.v]
            elif cur.kind=='array':
                a=add(a,scale(s.lin(st,ctx,i),cur.elem.size)); cur=cur.elem
            else: break
        return a

    # ---------------------------------------------------------------- memory
    def may_alias(s,k1,t1,k2,t2,z1=8,z2=8):
        """k=(Lin addr), t=tag"""
        d=sub(k1,k2)
        if d.isconst(): return -z1<d.c<z2   # k1+z1>k2 and k2+z2>k1
        b1,b2=base_of(k1),base_of(k2)
        if b1 and b2 and b1!=b2: return False
        if (b1 and b1[0]=='A' and not s.escapes(b1) and b2!=b1) or (b2 and b2[0]=='A' and not s.escapes(b2) and b1!=b2): return False
        if t1 and t2 and t1!=t2:
            if t1[0]!='A' and t2[0]!='A': return False
            # a scalar local can never be (part of) a named structure field of other type
            for ta,tb in((t1,t2),(t2,t1)):
                if ta[0]=='A' and tb[0]!='A' and s.scalar(ta[1]): return False
        if (t1 is None) != (t2 is None):
            t=t1 or t2
            if t[0] not in('A',): return False      # raw byte access never hits a named field/global (strict-aliasing assumption)
        return True
    _scal=None
    def scalar(s,uid):
        if s._scal is None or s._scal[0] is not s.P:
            d={}
            for f in s.P.fns:
                for i in f.instrs():
                    if i.op=='alloca': d[i.uid]=i.allocty.kind in('int','ptr') 
            Engine._scal=(s.P,d)
        return s._scal[1].get(uid,False)
    _esc={}
    def escapes(s,b):
        """does the alloca's address leave the function other than as a direct load/store address or call argument"""
        r=s._esc.get(b[2])
        if r is None:
            r=s._esc[b[2]]=s._escapes(b[2])
        return r
    def _escapes(s,uid):
        f=s.P.allocfn().get(uid)
        if f is None: return True
        work=[uid]; seen=set()
        users=s.P.users(f)
        while work:
            u=work.pop()
            if u in seen: continue
            seen.add(u)
            for i in users.get(u,()):
                if i.op=='load': continue
                if i.op=='store':
                    if i.ops[0].kind=='instr' and i.ops[0].uid in seen: return True
                    continue
                if i.op in('gep','bitcast','phi','select','ptrtoint'): work.append(i.uid); continue
                if i.op in('call',): return True
                if i.op=='ret': return True
        return False
    def load(s,st,ctx,addr,tag,ty,instr):
        key=(addr,None)
        m=st.mem.get(key)
        if m is not None: return m[0]
        x=('v',ctx,instr.uid)
        s.prov[x]=(tag,addr)
        r=s.fresh(st,x)
        if x in atoms(addr):                      # the address still speaks of the previous value of x
            if not(st.deep or x in flat(addr) and not nested(addr,x)): return r
            addr=rename(addr,x,('o',x)); key=(addr,None); s.prov[x]=(tag,addr)
        if len(addr[1])==1 and addr.c==0 and addr[1][0][0]==('errno',):
            st.ineqs.add(scale(r,-1)); st.ineqs.add(add(r,const(-4095))); return r
        st.mem[key]=(r,(tag,ty.size or 8))
        return r
    def src(s,l):
        """(tag, address) the value was loaded from, when it is exactly one loaded symbol"""
        if not isinstance(l,Lin): return (None,None)
        if l.c!=0 or len(l[1])!=1 or l[1][0][1]!=1: return (None,None)
        x=l[1][0][0]
        while isinstance(x,tuple) and x[0] in('o',): x=x[1]
        if isinstance(x,tuple) and x[0] in('zx','tr') and len(x)==3:
            return s.src(Lin(*x[2]))
        return s.prov.get(x,(None,None))
    def cell(s,st,addr):
        m=st.mem.get((addr,None)); return st.norm(m[0]) if m is not None and isinstance(m[0],Lin) else None
    def fresh(s,st,x):
        st.forget(x)
        return sym(x)
    def store(s,st,addr,tag,v,size):
        for k in list(st.mem):
            m=st.mem[k]
            if k[0]!=addr and s.may_alias(addr,tag,k[0],m[1][0],size,m[1][1]): del st.mem[k]
        st.mem[(addr,None)]=(v,(tag,size))
    def kill_tags(s,st,mod):
        if 'all' in mod:
            for k in list(st.mem):
                b=base_of(k[0])
                if not(b and b[0]=='A' and not s.escapes(b)): del st.mem[k]
            return
        for k in list(st.mem):
            t=st.mem[k][1][0]
            if (t in mod) or (t is None and 'raw' in mod):
                b=base_of(k[0])
                if not(b and b[0]=='A'): del st.mem[k]
                elif s.escapes(b) and t is not None and t[0]!='A': del st.mem[k]
    def kill_region(s,st,addr):
        """object(s) sharing the symbolic base of addr"""
        b=base_of(addr)
        for k in list(st.mem):
            if k[0][1]==addr[1] or (b and base_of(k[0])==b): del st.mem[k]

    def kill_range(s,st,addr,n):
        """bytes [addr,addr+n) ; cells of the same object outside stay"""
        b=base_of(addr)
        for k in list(st.mem):
            if k[0][1]==addr[1]:
                d=k[0].c-addr.c
                if -st.mem[k][1][1]<d<n: del st.mem[k]
            elif b and base_of(k[0])==b: del st.mem[k]

    # ---------------------------------------------------------------- execution
    def run(s,fn,init=None,ctx=()):
        st=init or State()
        if init is None: st.ts=s.rule.init(fn)
        return s.func(fn,st,(fn.name,) if ctx==() else ctx,[fn.name])

    def func(s,fn,st,ctx,stack):
        """returns list of (state, retval Lin|Bool|None)"""
        saved=s.joins; s.joins={}
        try: return s.func_(fn,st,ctx,stack)
        finally: s.joins=saved
    def func_(s,fn,st,ctx,stack):
        s.visited_fns.add(fn.name)
        entry=fn.blocks[0]
        ins={}    # block -> {key: state}
        order=s.rpo(fn)
        work={}
        live=s.live(fn)
        heads={b.i for b in fn.blocks if any(order.get(p.i,0)>=order.get(b.i,0) for p in b.preds)}
        contrib={}
        def push(b,st_,src=None):
            lv=live[b.i]
            for kk in [q for q in st_.env if q[0]==ctx and q[1] not in lv and isinstance(q[1],int)]: del st_.env[kk]
            if len(b.preds)>1 and not getattr(s.rule,'nogc',False): s.gc(st_)
            k=(b.i,s.rule.key(st_),s.rkey(fn,st_,ctx)+s.threaded(b,st_,ctx))
            old=ins.get(k)
            if b.i in heads:          # loops accumulate (and widen) at their heads
                if old is None: ins[k]=st_; work[k]=True
                else:
                    n,ch=s.join(old,st_,ctx,b,k)
                    if ch: ins[k]=n; work[k]=True
                return
            c=contrib.setdefault(k,OrderedDict())     # elsewhere: what the ways in deliver now
            same=src in c
            c[src]=st_
            if old is None: ins[k]=st_; work[k]=True
            elif not same:
                n,ch=s.join(old,st_,ctx,b,k)
                if ch: ins[k]=n; work[k]=True
            else:
                s.joins[(ctx,b.i,k)]=0
                it=iter(c.values()); n=next(it).copy()
                for o in it: n,_=s.join(n,o,ctx,b,k)
                if not s.same(n,old): ins[k]=n; work[k]=True
        push(entry,st)
        exits={}
        while work:
            k=min(work,key=lambda q:(order.get(q[0],0)))
            del work[k]
            s.blocks+=1; s.pathstates+=1
            if s.blocks>s.limit: raise RuntimeError('analysis budget exhausted in '+fn.name)
            b=fn.blocks[k[0]]; cur=ins[k].copy(); nth={}
            for st2,term in s.block(fn,b,cur,ctx,stack):
                if term is None: continue
                if term[0]=='ret':
                    rv=term[1]
                    rk=(s.rule.key(st2), s.retkey(st2,rv))
                    if isinstance(rk[1],tuple): rv=const(rk[1][1])
                    if rk in exits:
                        o=exits[rk]
                        n,_=s.join(o[0],st2,ctx,None,rk)
                        r=rv if rv==o[1] else sym(('r',ctx,fn.name))
                        if r!=rv and r!=o[1]:
                            n.forget(('r',ctx,fn.name))
                            if rk[1]=='nz' : n.nes.add(r)
                        exits[rk]=(n,r)
                    else: exits[rk]=(st2,rv)
                else:
                    for nb,ns in term[1]:
                        nth[nb.i]=nth.get(nb.i,0)+1
                        s.phis(fn,b,nb,ns,ctx); push(nb,ns,(k,nth[nb.i]))
        out=[]
        for rk,(st2,rv) in exits.items():
            # drop callee frame
            for kk in [q for q in st2.env if q[0]==ctx]: del st2.env[kk]
            for kk in list(st2.mem):
                bb=base_of(kk[0])
                if bb and bb[0]=='A' and bb[1]==ctx: del st2.mem[kk]
            out.append((st2,rv))
        return out
    def same(s,a,b):
        return a.env==b.env and a.eqs==b.eqs and a.ineqs==b.ineqs and a.nes==b.nes and a.ts==b.ts and a.x==b.x and len(a.mem)==len(b.mem) and all(q in b.mem and b.mem[q][0]==v[0] for q,v in a.mem.items())
    def retkey(s,st,rv):
        if rv is None: return None
        if isinstance(rv,Bool):
            d=st.decide(rv); return ('k',int(d)) if d is not None else 'bool'
        rv=st.norm(rv)
        if rv.isconst(): return ('k',rv.c)
        if st.decide(Bool('ne',rv)): return 'nz'
        return 'sym'
    def gc(s,st):
        """drop facts about values nothing refers to any more"""
        L=set()
        for k,v in st.env.items():
            L|=atoms(v)
            if k[0]=='ghost': L|=ghostatoms(k)
        for k,v in st.mem.items(): L|=atoms(k[0]); L|=atoms(v[0])
        if hasattr(s.rule,'livesyms'): L|=s.rule.livesyms(st)
        work=[x for x in st.eqs if x in L]
        while work:
            n=[]
            for x in work:
                for y in atoms(st.eqs[x]):
                    if y not in L:
                        L.add(y)
                        if y in st.eqs: n.append(y)
            work=n
        for fs in(st.ineqs,st.nes):               # a widened form of a live value comes back when the value is used again
            for f in fs:
                for x,_ in f[1]:
                    if x not in L and isinstance(x,tuple) and x[0] in('zx','tr') and all(y in L for y in symatoms(x) if y!=x): L.add(x)
        if any(x not in L for x in st.eqs): st.eqs={x:e for x,e in st.eqs.items() if x in L}
        st.nes={f for f in st.nes if all(x in L for x,_ in f[1])}
        keep=set()
        for f in st.ineqs:
            dead=[t for t in f[1] if t[0] not in L]
            if not dead: keep.add(f)
            elif len(f[1])>len(dead)<3 and all(abs(k)==1 for _,k in dead):      # constant bounds take the dead values' place
                c=f[0]
                for x,k in dead:
                    b=st.index().idx.get(((x,-k),))
                    if b is None: c=None; break
                    c+=b
                if c is not None: keep.add(Lin(c,tuple(t for t in f[1] if t not in dead)))
                if len(dead)>1: continue
                x,k=dead[0]
                if k>0 and s.fm:
                    for t in st.index().bysym.get((x,False),())[:12]:
                        if len(t)>1 and all(y[0] in L for y in t if y[0]!=x):
                            g=add(f,Lin(st.index().idx[t],t))
                            if g[1] and len(g[1])<=5 and not any(y[0]==x for y in g[1]): keep.add(g)
        st.ineqs=keep
    def live(s,fn):
        r=getattr(fn,'_live',None)
        if r is not None: return r
        def uses(v,acc):
            k=getattr(v,'kind','')
            if k=='instr': acc.add(v.uid)
            elif k=='cexpr':
                for o in v.ops: uses(o,acc)
        gen={}; kill={}; phid={}; phiuse={}
        for b in fn.blocks:
            g=set(); d=set(); pd=set()
            for i in b.instrs:
                if i.op=='phi':
                    pd.add(i.uid)
                    for v,pb in i.incoming:
                        acc=set(); uses(v,acc); phiuse.setdefault(pb.i,set()).update(acc)
                    continue
                acc=set()
                for o in i.ops: uses(o,acc)
                if i.op=='call': uses(i.callee,acc)
                g|=acc-d; d.add(i.uid)
            gen[b.i]=g-pd; kill[b.i]=d|pd; phid[b.i]=pd
        inn={b.i:set(gen[b.i]) for b in fn.blocks}; ch=True
        while ch:
            ch=False
            for b in reversed(fn.blocks):
                out=set(phiuse.get(b.i,()))
                for x in b.succs: out|=inn[x.i]
                n=gen[b.i]|(out-kill[b.i])
                if n!=inn[b.i]: inn[b.i]=n; ch=True
        r=fn._live={b.i:inn[b.i]|phid[b.i] for b in fn.blocks}
        return r
    def rkey(s,fn,st,ctx):
        """constants currently held by the variables that feed the function's result"""
        r=[]
        for u in s.retphis(fn):
            v=st.env.get((ctx,u))
            if isinstance(v,Lin):
                if v.isconst():
                    vs=s.rkvals.setdefault((ctx,u),set())
                    if v.c not in vs and len(vs)<10: vs.add(v.c)
                    if v.c in vs and len(vs)<10: r.append((u,v.c))
                elif st.nes and v in st.nes: r.append((u,'nz'))
        return tuple(r)
    def threaded(s,b,st,ctx):
        """a block deciding on a short-circuit value: the decided ways in are kept apart"""
        u=getattr(b,'_cp',0)
        if u==0:
            u=None; t=b.instrs[-1] if b.instrs else None
            if t is not None and t.op=='br' and len(t.ops)>=1:
                v=strip(t.ops[0])
                if getattr(v,'kind','')=='instr' and v.op=='phi' and any(v is i for i in b.instrs): u=v.uid
            b._cp=u
        if u is None: return ()
        v=st.env.get((ctx,u))
        if isinstance(v,Lin) and v.isconst(): return (('br',v.c),)
        return ()
    def retphis(s,fn):
        r=getattr(fn,'_rp',None)
        if r is None:
            r=set(); work=[i.ops[0] for b in fn.blocks for i in b.instrs if i.op=='ret' and i.ops]
            while work:
                v=strip(work.pop())
                if getattr(v,'kind','')=='instr' and v.op in('zext','sext','trunc'): work.append(v.ops[0])
                if getattr(v,'kind','')=='instr' and v.op=='phi' and v.uid not in r:
                    r.add(v.uid); work+=[x for x,_ in v.incoming]
                if getattr(v,'kind','')=='instr' and v.op in('call','select'): r.add(v.uid)
            r=fn._rp=sorted(r)
            if len(r)>12: r=fn._rp=r[-12:]
        return r
    def rpo(s,fn):
        r=getattr(fn,'_rpo',None)
        if r is None:
            seen=set(); post=[]
            st=[(fn.blocks[0],iter(fn.blocks[0].succs))]; seen.add(fn.blocks[0].i)
            while st:
                b,it=st[-1]
                for x in it:
                    if x.i not in seen:
                        seen.add(x.i); st.append((x,iter(x.succs))); break
                else: post.append(b.i); st.pop()
            r={bi:n for n,bi in enumerate(reversed(post))}; fn._rpo=r
        return r
    def phis(s,fn,b,nb,st,ctx):
        vals=[]
        for i in nb.instrs:
            if i.op!='phi': break
            for v,pb in i.incoming:
                if pb is b: vals.append((i,s.val(st,ctx,v))); break
        for i,v in vals: st.env[(ctx,i.uid)]=v

    def narrow(s,st,v,bits=None):
        """a truncated value that by now is known to have fitted"""
        if len(v[1])==1 and v.c==0 and v[1][0][1]==1:
            x=v[1][0][0]
            if isinstance(x,tuple) and x[0]=='tr':
                l=Lin(*x[2]); top=(1<<x[1])-1 if bits==x[1] else (1<<(x[1]-1))-1
                if st.prove_le(scale(l,-1)) and st.prove_le(add(l,const(-top))): return st.norm(l)
        return v
    def simp(s,st,v):
        if isinstance(v,Lin): return s.narrow(st,st.norm(v))
        d=st.decide(v)
        return v if d is None else const(int(d))
    def join(s,a,b,ctx,blk,key):
        """join b into a; returns (state,changed)"""
        n=a.copy(); ch=False
        jk=(ctx,blk.i if blk else None,key); cnt=s.joins.get(jk,0); s.joins[jk]=cnt+1
        bid=blk.i if blk else -1
        if isinstance(key,tuple) and key and key[0]=='mid': bid=('m',key[1])
        for q in (a,b):
            for d in (q.mem,q.env):
                for k,v in list(d.items()):
                    l=v[0] if d is q.mem else v
                    if isinstance(l,Lin) and len(l[1])==1 and isinstance(l[1][0][0],tuple) and l[1][0][0][0]=='tr':
                        w=s.narrow(q,l)
                        if w is not l:
                            d[k]=(w,v[1]) if d is q.mem else w
        # symbols about to be redefined: what still refers to their earlier meaning is renamed first
        ren_a=[]; ren_b=[]
        for d,pre in((a.env,0),(a.mem,1)):
            bd=b.env if pre==0 else b.mem
            for k,v in d.items():
                w=bd.get(k)
                if w is None or w==v: continue
                if pre: v,w=v[0],w[0]
                if v==w: continue
                x=('jm',ctx,bid,k[0]) if pre else ('j',)+(k if k[0]!='ghost' else (ctx,k),bid)
                if v!=sym(x):
                    va=s.simp(a,v)
                    if isinstance(va,Lin) and va==s.simp(b,w): continue
                    ren_a.append(x)
                ren_b.append(x)
        if s.fm:
            for k,v in a.env.items():
                w=b.env.get(k)
                if k[0]=='ghost' or not isinstance(v,Lin) or not isinstance(w,Lin) or v==w: continue
                for q,(c,t) in a.mem.items():
                    if t[1]!=1: continue
                    d=sub(a.norm(q[0]),a.norm(v))
                    if d.isconst():
                        y=('jm',ctx,bid,add(sym(('j',k,bid)),d))
                        if c!=sym(y): ren_a.append(y)
                        ren_b.append(y)
        ua=[x for x in ren_a if a._uses(x)]; ub=[x for x in ren_b if b._uses(x)]
        if ua:
            a=a.copy()
            for x in ua: a.forget(x)
            n=a.copy()
        if ub:
            b=b.copy()
            for x in ub: b.forget(x)
        # facts kept about a value (ghosts naming it) follow the value through the join
        carry=[]
        if any(k[0]=='ghost' and len(k[1])>1 and isinstance(k[1][1],Lin) for k in a.env):
            for k,v in a.env.items():
                if k[0]=='ghost' or not isinstance(v,Lin): continue
                w=b.env.get(k)
                if w is None or not isinstance(w,Lin) or v==w: continue
                x=sym(('j',k,bid)); va=a.norm(v); wb=b.norm(w)
                if va==wb: continue
                for g in list(a.env):
                    if g[0]=='ghost' and len(g[1])==2 and g[1][1]==va and (not va.isconst() or g[1][0] in s.rule.constghosts):
                        gb=('ghost',(g[1][0],wb))
                        if gb in b.env: carry.append((g,gb,('ghost',(g[1][0],x))))
            for g,gb,gn in carry:
                xg=('j',ctx,gn,bid)
                if b._uses(xg):
                    b=b.copy(); b.forget(xg)
                if a.env.get(g)!=sym(xg) and a._uses(xg):
                    a=a.copy(); a.forget(xg); n=a.copy()
            carry=[(g,gb,gn,a.env.get(g),b.env.get(gb)) for g,gb,gn in carry]
        repl={}
        for k in list(n.env):
            v=n.env[k]
            if k not in b.env:
                if k[0]=='ghost': del n.env[k]; ch=True
                continue
            w=b.env[k]
            if v!=w:
                va=s.simp(a,v); wb=s.simp(b,w)
                x=sym(('j',)+(k if k[0]!='ghost' else (ctx,k),bid))
                if v!=x and isinstance(va,Lin) and va==wb: n.env[k]=va; continue
                if v!=x: ch=True
                repl[k]=(va,wb,v!=x); n.env[k]=x
        for k in b.env:
            if k not in n.env and k[0]!='ghost': n.env[k]=b.env[k]
        for g,gb,gn,v,w in carry:
            if not isinstance(v,Lin) or not isinstance(w,Lin): continue
            va=s.simp(a,v); wb=s.simp(b,w)
            if gn in n.env and gn!=g: continue
            if va==wb:
                if n.env.get(gn)!=va: n.env[gn]=va
                continue
            xg=sym(('j',ctx,gn,bid))
            if v!=xg: ch=True
            n.env[gn]=xg; repl[gn]=(va,wb,v!=xg)
        for k in list(n.mem):
            v=n.mem[k]; w=b.mem.get(k)
            if w is None: del n.mem[k]; ch=True
            elif v[0]!=w[0]:
                va=s.simp(a,v[0]); wb=s.simp(b,w[0])
                x=sym(('jm',ctx,bid,k[0]))
                if v[0]!=x and isinstance(va,Lin) and va==wb: n.mem[k]=(va,v[1]); continue
                if v[0]!=x: ch=True
                repl[('m',k)]=(va,wb,v[0]!=x); n.mem[k]=(x,v[1])
        bytes_=[]
        if s.fm:                                   # what is known to be stored at an address follows the address
            moved=[(a.norm(v),b.norm(w),n.env[k]) for k,(v,w,_) in repl.items() if k[0] not in('m','ghost') and isinstance(v,Lin) and isinstance(w,Lin)]
            for ka,(va,ta) in list(a.mem.items()):
                if not isinstance(va,Lin) or ta[1]!=1: continue
                na=a.norm(ka[0])
                for v,w,x in moved:
                    d=sub(na,v)
                    if not d.isconst(): continue
                    kb=next((q for q in b.mem if b.norm(q[0])==add(w,d)),None)
                    if kb is None or not isinstance(b.mem[kb][0],Lin) or (add(x,d),None) in n.mem: continue
                    if a.norm(va)==b.norm(b.mem[kb][0]): n.mem[(add(x,d),None)]=(va,ta); continue
                    def forms(st_,l):
                        r=[sym(('zx',8,tuple(l))),st_.norm(l)]
                        if len(l[1])==1 and isinstance(l[1][0][0],tuple) and l[1][0][0][0]=='tr': r.append(st_.norm(Lin(*l[1][0][0][2])))
                        return r
                    z1=forms(a,va); z2=forms(b,b.mem[kb][0])
                    for v2,w2,x2 in moved:
                        if v2 in z1 and w2 in z2: n.mem[(add(x,d),None)]=(sym(('tr',8,tuple(x2))),ta); break
                    else:
                        y=('jm',ctx,bid,add(x,d)); n.mem[(add(x,d),None)]=(sym(y),ta); bytes_.append((y,va,b.mem[kb][0]))
        # facts
        ne={}
        for x,e in a.eqs.items():
            if b.eqs.get(x)==e: ne[x]=e
            else: ch=True
        facts=set()
        for f in a.ineqs:
            if f in b.ineqs or b._le(b.norm(f)): facts.add(f)
            else: ch=True
        lost=[(x,e) for x,e in a.eqs.items() if x not in ne]
        nes=set()
        for f in a.nes:
            if f in b.nes or b.decide(Bool('ne',f)): nes.add(f)
            else: ch=True
        for f in b.nes:
            if f not in nes and a.decide(Bool('ne',f)): nes.add(f)
        for f in b.ineqs:
            if f not in facts and a._le(a.norm(f)): facts.add(f)
        # facts lost as equalities may survive as ne / bounds
        for x,e in a.eqs.items():
            if x in ne: continue
            y=b.eqs.get(x)
            if e.isconst():
                if y is not None and y.isconst():
                    if e.c!=0 and y.c!=0: nes.add(sym(x))
                    lo,hi=min(e.c,y.c),max(e.c,y.c)
                    if cnt<3:
                        facts.add(Lin(-hi,((x,1),))); facts.add(Lin(lo,((x,-1),)))
                else:
                    if e.c!=0 and b.decide(Bool('ne',sym(x))): nes.add(sym(x))
                    for f in b.ineqs:
                        if len(f[1])==1 and f[1][0][0]==x and a._le(a.norm(f)): facts.add(f)
                    if cnt<4 and y is None:
                        for f in (Lin(-e.c,((x,1),)),Lin(e.c,((x,-1),))):
                            if b._le(f): facts.add(f)
        for x,y in b.eqs.items():
            if x in a.eqs or x in ne: continue
            if y.isconst():
                if y.c!=0 and a.decide(Bool('ne',sym(x))): nes.add(sym(x))
                for f in a.ineqs:
                    if len(f[1])==1 and f[1][0][0]==x and b._le(b.norm(f)): facts.add(f)
                if cnt<4:
                    for f in (Lin(-y.c,((x,1),)),Lin(y.c,((x,-1),))):
                        if a._le(f): facts.add(f)
        # purge facts about replaced join symbols, then re-derive
        newsyms=[]
        for k,(v,w,stale) in repl.items():
            x=n.mem[k[1]][0] if k[0]=='m' else n.env[k]
            xs=x[1][0][0]
            newsyms.append((x,xs,v,w))
            ne={q:e for q,e in ne.items() if q!=xs and not any(z==xs for z,_ in e[1])}
            if stale:
                nes={f for f in nes if not any(z==xs for z,_ in f[1])}; facts={f for f in facts if not any(z==xs for z,_ in f[1])}; ne={q:e for q,e in ne.items() if q!=xs and not any(z==xs for z,_ in e[1])}
        newnz=set()
        for x,xs,v,w in newsyms:
            if not(isinstance(v,Lin) and isinstance(w,Lin)): continue
            if a.decide(Bool('ne',v)) and b.decide(Bool('ne',w)):
                nes.add(x)
                if v!=x: newnz.add(x)
            elif x in nes: nes.discard(x); ch=True
            for f in n.nes:
                if any(z==xs for z,_ in f[1]) and f!=x and a.decide(Bool('ne',a.norm(subst(f,xs,v)))) and b.decide(Bool('ne',b.norm(subst(f,xs,w)))): nes.add(f)
            va,wb=a.norm(v),b.norm(w)
            if cnt<4:
                if va.isconst() and wb.isconst():
                    facts.add(Lin(-max(va.c,wb.c),((xs,1),))); facts.add(Lin(min(va.c,wb.c),((xs,-1),)))
            cand=set()
            # bounds/relations of either side, rewritten to the join symbol
            for src,val_ in ((a,va),(b,wb)):
                if len(val_[1])==1 and val_[1][0][1]==1:
                    y=val_[1][0][0]; e=add(x,const(-val_.c))
                    for f in src.ineqs:
                        if any(z==y for z,_ in f[1]): cand.add(subst(f,y,e))
                if val_.isconst() and cnt<3: cand.add(sub(x,val_)); cand.add(sub(val_,x))
                # value itself as a bound (monotone loops): x - v >= 0 , x - v <= 0
                if cnt<6: cand.add(sub(x,val_)); cand.add(sub(val_,x))
            cand|={f for f in n.ineqs if any(z==xs for z,_ in f[1])}
            jc=s.rule.joincand(s,a,b,x,va,wb) if hasattr(s.rule,'joincand') else ()
            cand|=set(jc)
            thr=set()
            if cnt<12 and not va.isconst() and not wb.isconst():
                for c in (sub(const(1),x),scale(x,-1),sub(x,const(255)),sub(x,const(32767))):
                    if c not in cand and a.prove_le(subst(c,xs,va)) and b.prove_le(subst(c,xs,wb)): thr.add(c)
            keep=set(thr)
            for c in cand:
                if any(z==xs for z,_ in c[1]):
                    ca=a.norm(subst(c,xs,va)) ; cb=b.norm(subst(c,xs,wb))
                    if a._le(ca) and b._le(cb) or cnt<12 and (len(c[1])==1 or s.fm and c in jc) and a.prove_le(ca) and b.prove_le(cb): keep.add(c)
            facts={f for f in facts if not any(z==xs for z,_ in f[1])}|keep
        for y,va,vb in bytes_:
            facts={f for f in facts if y not in atoms(f)}; nes={f for f in nes if y not in atoms(f)}; ne={k:e for k,e in ne.items() if y not in symatoms(k) and y not in atoms(e)}
            zy,za,zb=[('zx',8,tuple(q)) for q in (sym(y),va,vb)]
            for src,z in((a,za),(b,zb)):
                for f in src.ineqs:
                    if len(f[1])==1 and f[1][0][0]==z:
                        if a._le(Lin(f[0],((za,f[1][0][1]),))) and b._le(Lin(f[0],((zb,f[1][0][1]),))): facts.add(Lin(f[0],((zy,f[1][0][1]),)))
        # facts connecting several of the joined values
        if cnt<8 and len(newsyms)>1:
            A={xs:a.norm(v) for x,xs,v,w in newsyms if isinstance(v,Lin) and isinstance(w,Lin)}
            B={xs:b.norm(w) for x,xs,v,w in newsyms if isinstance(v,Lin) and isinstance(w,Lin)}
            def at(f,M):
                r=const(f.c)
                for z,k in f[1]: r=add(r,M[z],k) if z in M else add(r,Lin(0,((z,k),)))
                return r
            for src,M in((a,A),(b,B)):
                back={}
                for xs,v in M.items():
                    if len(v[1])==1 and v[1][0][1]==1 and v[1][0][0] not in back: back[v[1][0][0]]=add(sym(xs),const(-v.c))
                offs=[sub(sym(xs),v) for xs,v in M.items() if v!=sym(xs) and hasattr(s.rule,'joinoff') and s.rule.joinoff(src,v)] if cnt<4 else []
                for f in list(src.ineqs):
                    hit=[z for z,_ in f[1] if z in back]
                    if not hit or len(f[1])>5: continue
                    c0=at(f,back)
                    for c in ([c0] if len(hit)>1 else [])+[add(c0,o) for o in offs]:
                        if c in facts: continue
                        if a._le(a.norm(at(c,A))) and b._le(b.norm(at(c,B))): facts.add(c)
        live=[(x,xs,s_n(a,v),s_n(b,w)) for x,xs,v,w in newsyms if isinstance(v,Lin) and isinstance(w,Lin)]
        for x,e in lost:
            if not any(l[1]==x for l in live): live.append((sym(x),x,e,b.norm(sym(x))))
        if 1<len(live)<=24 and cnt<30:
            for p_ in range(len(live)):
                x,xs,va,wb=live[p_]
                if xs in ne: continue
                for q_ in range(p_):
                    y,ys,vb,wc=live[q_]
                    if ys in ne: continue
                    d1,d2=sub(va,vb),sub(wb,wc)
                    if d1==d2 and not any(z in(xs,ys) for z,_ in d1[1]) and len(d1[1])<=2: ne[xs]=add(y,d1); break
                    d1,d2=add(va,vb),add(wb,wc)
                    if d1==d2 and not any(z in(xs,ys) for z,_ in d1[1]) and len(d1[1])<=2: ne[xs]=sub(d1,y); break
            if len(live)<=12:
                for p_ in range(len(live)):
                    x,xs,va,wb=live[p_]
                    if xs in ne or va.isconst() and wb.isconst(): continue
                    for q_ in range(len(live)):
                        y,ys,vb,wc=live[q_]
                        if q_==p_ or ys in ne: continue
                        for r_ in range(q_):
                            z,zs,vc,wd=live[r_]
                            if r_==p_ or zs in ne: continue
                            d1=sub(sub(va,vb),vc)
                            if len(d1[1])<=1 and d1==sub(sub(wb,wc),wd) and not any(t in(xs,ys,zs) for t,_ in d1[1]) and not any(set(t[0] for t in ne[k][1])&{xs} for k in ne): ne[xs]=add(add(y,z),d1); break
                        if xs in ne: break
            if ne:
                for xs in [z for z,_,_,_ in [(l[1],0,0,0) for l in live] if z in ne]:
                    e_=ne[xs]
                    facts={subst(f,xs,e_) for f in facts}; nes={subst(f,xs,e_) for f in nes}
                    for k_ in list(ne):
                        if k_!=xs and any(z==xs for z,_ in ne[k_][1]): ne[k_]=subst(ne[k_],xs,e_)
        n.eqs=ne; n.ineqs=facts; n.nes=nes
        if cnt>12:
            # widening: only facts that were already there survive
            n.ineqs=set(f for f in n.ineqs if f in a.ineqs); n.nes=set(f for f in n.nes if f in a.nes or f in newnz)
            n.eqs={k:v for k,v in n.eqs.items() if a.eqs.get(k)==v}
            if cnt>20:
                gone={f[1] for f in a.ineqs if f not in n.ineqs}
                if gone: n.ineqs={f for f in n.ineqs if f[1] not in gone}
        if s.fm:
            for k in list(n.mem):
                q=(n.norm(k[0]),k[1])
                if q!=k:
                    v=n.mem.pop(k)
                    if q not in n.mem: n.mem[q]=v
        ch=(n.env!=a.env or n.eqs!=a.eqs or n.ineqs!=a.ineqs or n.nes!=a.nes or len(n.mem)!=len(a.mem) or any(k not in a.mem or a.mem[k][0]!=v[0] for k,v in n.mem.items()))
        n.x=s.rule.joinx(a,b) if hasattr(s.rule,'joinx') else a.x
        if n.x!=a.x: ch=True
        return n,ch

    def block(s,fn,b,st,ctx,stack):
        states=[st]
        for i in b.instrs:
            op=i.op
            if op=='phi': continue
            if op in('br','switch','ret','unreachable'):
                out=[]
                for q in states:
                    out+=s.term(i,q,ctx,fn,stack)
                return out
            nxt=[]
            for q in states: nxt+=s.instr(i,q,ctx,fn,stack)
            states=nxt
            if not states: return []
            if len(states)>1: states=s.dedup(states,ctx,b,i,fn)
        return []
    def dedup(s,states,ctx,b,i,fn):
        d=OrderedDict()
        for q in states:
            k=(s.rule.key(q),s.retkey(q,q.env.get((ctx,i.uid))) if (ctx,i.uid) in q.env else None,s.rkey(fn,q,ctx))
            if k in d:
                n,_=s.join(d[k],q,ctx,b,('mid',i.uid,k)); d[k]=n
            else: d[k]=q
        return list(d.values())

    def cond(s,st,ctx,v):
        r=s.val(st,ctx,v)
        if isinstance(r,Bool): return r
        r=st.norm(r)
        if len(r[1])==1 and r.c==0 and isinstance(r[1][0][0],tuple) and r[1][0][0][0]=='bool': return r[1][0][0][1]
        return Bool('ne',r)
    def term(s,i,st,ctx,fn,stack):
        if i.op=='unreachable': return []
        if i.op=='ret':
            rv=s.val(st,ctx,i.ops[0]) if i.ops else None
            if isinstance(rv,Lin): rv=st.norm(rv)
            if hasattr(s.rule,'on_ret'): s.rule.on_ret(s,st,i,fn,ctx,rv,len(stack)==1)
            return [(st,('ret',rv))]
        if i.op=='br':
            if len(i.succs)==1: return [(st,('go',[(i.succs[0],st)]))]
            c=s.cond(st,ctx,i.ops[0]); d=st.decide(c); res=[]
            if d is not False:
                q=st.copy() 
                if q.assume(c): 
                    if hasattr(s.rule,'on_branch'): s.rule.on_branch(s,q,i,c,True,ctx,fn)
                    if not q.dead: res.append((i.succs[0],q))
            if d is not True:
                q=st.copy(); nc=c.neg()
                if q.assume(nc):
                    if hasattr(s.rule,'on_branch'): s.rule.on_branch(s,q,i,nc,False,ctx,fn)
                    if not q.dead: res.append((i.succs[1],q))
            return [(st,('go',res))]
        if i.op=='switch':
            v=s.lin(st,ctx,i.ops[0]); res=[]
            dflt=st.copy(); ok=True
            for cv,blk in i.cases:
                q=st.copy(); e=Bool('eq',sub(v,const(cv)))
                if st.decide(e) is not False and q.assume(e):
                    if hasattr(s.rule,'on_branch'): s.rule.on_branch(s,q,i,e,True,ctx,fn)
                    res.append((blk,q))
                if ok and not dflt.assume(e.neg()): ok=False
            if ok:
                if hasattr(s.rule,'on_branch'): s.rule.on_branch(s,dflt,i,None,False,ctx,fn)
                res.append((i.succs[0],dflt))
            return [(st,('go',res))]

    def instr(s,i,st,ctx,fn,stack):
        op=i.op; key=(ctx,i.uid); env=st.env
        s.steps+=1
        if op=='alloca':
            env[key]=sym(('A',ctx,i.uid)); return [st]
        if op=='load':
            a=s.lin(st,ctx,i.ops[0]); tag=tag_of(i.ops[0])
            if hasattr(s.rule,'on_load'): s.rule.on_load(s,st,i,a,tag,ctx,fn)
            env[key]=s.load(st,ctx,a,tag,i.ty,i)
            if hasattr(s.rule,'on_loaded'): s.rule.on_loaded(s,st,i,a,tag,env[key])
            if hasattr(s.rule,'split_load'):
                r=s.rule.split_load(s,st,i,a,tag,env[key])
                if r: return r
            return [st]
        if op=='store':
            a=s.lin(st,ctx,i.ops[1]); tag=tag_of(i.ops[1]); v=s.val(st,ctx,i.ops[0])
            if hasattr(s.rule,'on_store'): s.rule.on_store(s,st,i,a,tag,v,ctx,fn)
            t=getattr(i.ops[0],'ty',None); size=(t.size if t is not None and t.size else (i.ops[0].bits//8 if i.ops[0].kind=='const' else 8))
            s.store(st,a,tag,v,size or 1)
            return [st]
        if op=='gep': env[key]=st.norm(s.gep(st,ctx,i)); return [st]
        if op in('bitcast','inttoptr','ptrtoint','addrspacecast','freeze','sext'):
            env[key]=s.val(st,ctx,i.ops[0])
            if isinstance(env[key],Bool) and op=='sext': env[key]=s.fresh(st,('v',ctx,i.uid))
            return [st]
        if op=='zext':
            v=s.val(st,ctx,i.ops[0])
            if isinstance(v,Lin):
                src=getattr(i.ops[0],'ty',None)
                if src is not None and src.bits and src.bits<=16:
                    v=s.narrow(st,v,src.bits)
                    if v.isconst(): v=const(v.c&((1<<src.bits)-1))
                    else:
                        n=('zx',src.bits,tuple(v))
                        if not(len(v[1])==1 and v.c==0 and v[1][0][1]==1 and isinstance(v[1][0][0],tuple) and v[1][0][0][0]=='zx') and not (st.prove_le(scale(v,-1)) and st.prove_le(add(v,const(-((1<<src.bits)-1))))):
                            x=sym(n); st.ineqs.add(scale(x,-1)); st.ineqs.add(add(x,const(-((1<<src.bits)-1))))
                            v=x
            env[key]=v; return [st]
        if op=='trunc':
            v=s.val(st,ctx,i.ops[0])
            if isinstance(v,Lin) and i.ty.bits<32:
                if v.isconst():
                    m=v.c&((1<<i.ty.bits)-1)
                    if i.ty.bits>1 and m>>(i.ty.bits-1): m-=1<<i.ty.bits
                    v=const(m)
                elif len(v[1])==1 and v.c==0 and isinstance(v[1][0][0],tuple) and v[1][0][0][0]=='zx' and v[1][0][0][1]<=i.ty.bits: pass
                elif i.ty.bits==1: v=Bool('ne',v)
                elif st.prove_le(scale(v,-1)) and st.prove_le(add(v,const(-((1<<(i.ty.bits-1))-1)))): v=st.norm(v)
                else: v=sym(('tr',i.ty.bits,tuple(v)))
            env[key]=v; return [st]
        if op=='icmp':
            a,b=s.val(st,ctx,i.ops[0]),s.val(st,ctx,i.ops[1]); p=i.pred
            if isinstance(a,Bool) and isinstance(b,Lin) and b.isconst() and p in('eq','ne'):
                tv=(b.c!=0)
                r=a if (p=='eq')==tv else a.neg()
                env[key]=r; return [st]
            a=s.lin(st,ctx,i.ops[0]); b=s.lin(st,ctx,i.ops[1])
            if p in('eq','ne') and b.isconst() and len(a[1])==1 and a.c==0 and isinstance(a[1][0][0],tuple) and a[1][0][0][0]=='bool':
                r=a[1][0][0][1]; env[key]=r if (p=='eq')==(b.c!=0) else r.neg(); return [st]
            env[key]=s.cmp(st,p,a,b,getattr(i.ops[0],'ty',None)); return [st]
        if op in('add','sub','mul','shl'):
            a,b=s.lin(st,ctx,i.ops[0]),s.lin(st,ctx,i.ops[1])
            if op=='add': r=add(a,b)
            elif op=='sub': r=sub(a,b)
            elif op=='mul':
                if a.isconst(): r=scale(b,a.c)
                elif b.isconst(): r=scale(a,b.c)
                else: r=s.derived(st,ctx,i,'mul',a,b)
            else: r=scale(a,1<<b.c) if b.isconst() and 0<=b.c<40 else s.derived(st,ctx,i,'shl',a,b)
            env[key]=r; return [st]
        if op in('and','or','xor'):
            a,b=s.val(st,ctx,i.ops[0]),s.val(st,ctx,i.ops[1])
            if i.ty.bits==1:
                if op=='xor' and isinstance(b,Lin) and b.isconst() and isinstance(a,Bool): env[key]=a.neg() if b.c else a; return [st]
                da=st.decide(a) if isinstance(a,Bool) else (bool(a.c) if a.isconst() else None)
                db=st.decide(b) if isinstance(b,Bool) else (bool(b.c) if b.isconst() else None)
                if op=='and':
                    if da is False or db is False: env[key]=ZERO; return [st]
                    if da: env[key]=b; return [st]
                    if db: env[key]=a; return [st]
                if op=='or':
                    if da or db: env[key]=const(1); return [st]
                    if da is False: env[key]=b; return [st]
                    if db is False: env[key]=a; return [st]
            a,b=s.lin(st,ctx,i.ops[0]),s.lin(st,ctx,i.ops[1])
            if a.isconst() and b.isconst():
                r=const({'and':a.c&b.c,'or':a.c|b.c,'xor':a.c^b.c}[op])
            elif op=='or' and ZERO in(a,b): r=a if b==ZERO else b
            else:
                nz=op=='or' and (st.decide(Bool('eq',a)) is False or st.decide(Bool('eq',b)) is False)
                if nz and i.ty.bits>=32 and not s.fm: r=s.fresh(st,('v',ctx,i.uid)); st.nes.add(r); env[key]=r; return [st]
                r=s.derived(st,ctx,i,op,a,b)
                if nz: st.nes.add(r)
                if op=='and' and b.isconst() and b.c>=0:
                    st.ineqs.add(scale(r,-1)); st.ineqs.add(add(r,const(-b.c)))
            env[key]=r; return [st]
        if op in('sdiv','udiv','srem','urem','ashr','lshr'):
            a,b=s.lin(st,ctx,i.ops[0]),s.lin(st,ctx,i.ops[1])
            if a.isconst() and b.isconst() and b.c!=0 and op in('sdiv','udiv','srem','urem'):
                q=abs(a.c)//abs(b.c)*(1 if (a.c<0)==(b.c<0) else -1); r=const(q if op in('sdiv','udiv') else a.c-q*b.c)
            else: r=s.derived(st,ctx,i,op,a,b)
            env[key]=r; return [st]
        if op=='select':
            c=s.cond(st,ctx,i.ops[0]); d=st.decide(c); out=[]
            if d is not False:
                q=st.copy()
                if q.assume(c): q.env[key]=s.val(q,ctx,i.ops[1]); out.append(q)
            if d is not True:
                q=st.copy()
                if q.assume(c.neg()): q.env[key]=s.val(q,ctx,i.ops[2]); out.append(q)
            return out
        if op=='call': return s.call(i,st,ctx,fn,stack)
        env[key]=s.fresh(st,('v',ctx,i.uid))
        return [st]
    def derived(s,st,ctx,i,op,a,b): return sym(('d',op,tuple(a),tuple(b)))
    def cmp(s,st,p,a,b,ty):
        d=sub(a,b)
        if p=='eq': return Bool('eq',d)
        if p=='ne': return Bool('ne',d)
        if p in('slt','sle','sgt','sge'):
            return {'slt':Bool('lt',d),'sle':Bool('le',d),'sgt':Bool('lt',scale(d,-1)),'sge':Bool('le',scale(d,-1))}[p]
        ptr=ty is not None and ty.kind=='ptr'
        def nn(x): return ptr or (x.isconst() and x.c>=0) or st._le(scale(x,-1)) or s.nonneg_form(st,x)
        if nn(a) and nn(b):
            return {'ult':Bool('lt',d),'ule':Bool('le',d),'ugt':Bool('lt',scale(d,-1)),'uge':Bool('le',scale(d,-1))}[p]
        # a <u b with b nonneg: true => 0<=a<b.  modelled as opaque two-sided predicate
        return UBool(p,a,b,nn(a),nn(b))
    def nonneg_form(s,st,x):
        """sum of symbols each known non-negative, const>=0"""
        x=st.norm(x)
        return x.c>=0 and all(k>0 and (st._le(sym_neg(y)) or (isinstance(y,tuple) and y[0] in('zx','strlen'))) for y,k in x[1])

    # ---------------------------------------------------------------- calls
    def call(s,i,st,ctx,fn,stack):
        key=(ctx,i.uid)
        ts=s.P.targets(i)
        if len(ts)>1:                # a function pointer whose value is known on this path
            v=s.lin(st,ctx,i.callee)
            if v.c==0 and len(v[1])==1 and v[1][0][1]==1 and v[1][0][0][0]=='F' and v[1][0][0][1] in ts: ts={v[1][0][0][1]}
        args=[s.lin(st,ctx,a) for a in i.ops]
        r=s.rule.on_call(s,st,i,ts,args,ctx,fn,stack)
        if r is not None:
            out=[]
            for q,rv in r:
                if i.ty.kind!='void': q.env[key]=rv if rv is not None else s.fresh(q,('v',ctx,i.uid))
                out.append(q)
            return out
        out=[]
        descend=[t for t in ts if t in s.P.M.functions and not s.P.M.functions[t].decl and s.rule.descend(t,stack,i)]
        opaque=[t for t in ts if t not in descend]
        if opaque or not ts:
            q=st.copy() if descend else st
            s.opaque(q,i,opaque,args,ctx)
            out.append(q)
        for t in descend:
            f=s.P.M.functions[t]
            if stack.count(t)>=1 or len(stack)>14:
                q=st.copy(); s.opaque(q,i,[t],args,ctx); out.append(q); continue
            q=st.copy(); nctx=(ctx,i.uid,t) if len(ts)>1 else (ctx,i.uid)
            # clean stale frame entries
            for kk in [e for e in q.env if e[0]==nctx]: del q.env[kk]
            for n,a in enumerate(i.ops):
                if n<len(f.args): q.env[(nctx,('arg',n))]=s.val(q,ctx,a)
            if hasattr(s.rule,'on_enter'): s.rule.on_enter(s,q,i,f,args,ctx)
            for q2,rv in s.func(f,q,nctx,stack+[t]):
                if i.ty.kind!='void':
                    q2.env[key]=rv if rv is not None else s.fresh(q2,('v',ctx,i.uid))
                if hasattr(s.rule,'on_leave'): s.rule.on_leave(s,q2,i,f,rv,ctx)
                out.append(q2)
        return out
    LENARG={'memcpy':2,'memmove':2,'memset':2,'strncpy':2,'recv':2,'recvfrom':2,'read':2,'fgets':1,'snprintf':1,'vsnprintf':1}
    def lenarg(s,t):
        if t.startswith('llvm.mem'): return 2
        return s.LENARG.get(t)
    def renamed(s,a,ctx,i):
        """an argument evaluated before the call, in terms valid after the call's result symbol was renewed"""
        x=('v',ctx,i.uid)
        return subst(a,x,sym(('o',x))) if x in flat(a) else (sym(('stale',x)) if x in atoms(a) else a)
    def opaque(s,q,i,names,args,ctx):
        key=(ctx,i.uid)
        if names!=['__errno_location']: q.mem.pop((sym(('errno',)),None),None)
        if not names and not s.P.never(i): s.kill_tags(q,{'all'})
        for t in names:
            if t in s.P.mod:
                s.kill_tags(q,s.P.mod[t]); wr=s.P.amod[t]
            else:
                wr=s.P.extwrites(t,i)
                if wr is None: wr=range(len(args))
                lk=s.lenarg(t)
                if lk is not None and lk<len(args) and args[lk].isconst() and args[lk].c>=0 and len(wr)>=1:
                    s.kill_range(q,args[wr[0]],args[lk].c); wr=wr[1:]
            for k in wr:
                if k<len(args) and args[k][1]: s.kill_region(q,args[k])
            # locals whose address is handed over may be written by a defined callee
            if t in s.P.mod or not names:
                for k,a in enumerate(args):
                    b=base_of(a)
                    if b and b[0]=='A' and (k in wr or 'all' in s.P.mod.get(t,())): s.kill_region(q,a)
        if not names:
            for a in args:
                b=base_of(a)
                if b and b[0]=='A': s.kill_region(q,a)
        if i.ty.kind!='void':
            n=names[0] if len(names)==1 else None
            if n=='__errno_location': q.env[key]=sym(('errno',)); return
            if n in('recv','recvfrom','send','sendto','read') :
                r=s.fresh(q,('v',ctx,i.uid)); q.env[key]=r
                q.ineqs.add(add(scale(r,-1),const(-1))); q.ineqs.add(sub(r,s.renamed(args[2],ctx,i))); return
            if n in('ntohs','htons','ntohl','htonl'):
                q.env[key]=sym(('d',n,tuple(args[0]),()))
                if n.endswith('s'):
                    x=q.env[key]; q.ineqs.add(scale(x,-1)); q.ineqs.add(add(x,const(-65535)))
                return
            q.env[key]=s.fresh(q,('v',ctx,i.uid))
            if n in('strlen',): q.ineqs.add(scale(q.env[key],-1))

class UBool(Bool):
    """unsigned comparison whose operand signs are unknown"""
    __slots__=()
    def __new__(cls,p,a,b,na,nb):
        # encode inside the lin slot to stay hashable
        return tuple.__new__(cls,('B','u'+p,(a,b,na,nb)))
    @property
    def lin(s): return sub(s[2][0],s[2][1])
    def neg(s):
        m={'ult':'uge','uge':'ult','ugt':'ule','ule':'ugt'}
        a,b,na,nb=s[2]; return UBool(m[s[1][1:]],a,b,na,nb)
    def facts(s):
        """signed consequences when the predicate is true"""
        p=s[1][1:]; a,b,na,nb=s[2]; r=[]
        if p in('ugt','uge'): a,b,na,nb=b,a,nb,na; p={'ugt':'ult','uge':'ule'}[p]
        # a <u b (or <=u)
        if nb:   # b >= 0 signed  =>  0 <= a < b
            r.append(Bool('le',scale(a,-1))); r.append(Bool('lt' if p=='ult' else 'le',sub(a,b)))
        return r
_oa=State.assume; _od=State.decide
def _assume(s,b):
    if isinstance(b,UBool):
        for f in b.facts():
            if not _oa(s,f): return False
        return True
    return _oa(s,b)
def _decide(s,b):
    if isinstance(b,UBool):
        p=b[1][1:]; a,bb,na,nb=b[2]
        a=s.norm(a); bb=s.norm(bb)
        if a.isconst() and bb.isconst():
            m=(1<<64)-1; x,y=a.c&m,bb.c&m
            return {'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y}[p]
        def nn(x): return (x.isconst() and x.c>=0) or s._le(scale(x,-1))
        if nn(a) and nn(bb):
            d=sub(a,bb)
            return _od(s,{'ult':Bool('lt',d),'ule':Bool('le',d),'ugt':Bool('lt',scale(d,-1)),'uge':Bool('le',scale(d,-1))}[p])
        return None
    return _od(s,b)
State.assume=_assume; State.decide=_decide
def s_n(st,v): return st.norm(v)
def sym_neg(y): return Lin(0,((y,-1),))

class Rule:
    """base: override hooks"""
    small=70
    def small_helper(s,e,name,stack):
        """loop-free-or-not little function living in the file of the current frame: entered so that
        an extracted helper is seen exactly like the code it came from"""
        f=e.P.M.functions[name]; g=e.P.M.functions[stack[-1]]
        return f.internal and f.file==g.file and sum(len(b.instrs) for b in f.blocks)<=s.small
    def init(s,fn): return ()
    constghosts=()   # ghosts that may name constants
    def key(s,st): return st.ts
    def on_call(s,e,st,i,targets,args,ctx,fn,stack): return None
    def descend(s,name,stack,i): return False
