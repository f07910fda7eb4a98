"""Extent analysis: every write of variable or bulk extent stays inside its object."""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, const, add, sub, scale, sym, base_of, atoms, flat
from ..common import Broken
from ..cg import strip, tag_of
import re, time

def S(name,*a): return ('ghost',(name,)+a)
def argsym(fn,k): return sym(('u',(fn.name,),('arg',k)))
WR={'memcpy':(0,2),'memmove':(0,2),'memset':(0,2),'recv':(1,2),'recvfrom':(1,2),'read':(1,2),'strncpy':(0,2),'snprintf':(0,1),'vsnprintf':(0,1),'fgets':(0,1)}
def wr(n):
    if n.startswith('llvm.mem'): return (0,2)
    return WR.get(n)
def csize(C):
    if not hasattr(C,'_csize'): C._csize=C.cval('iheader.h','SOCKET_CONTEXT_LENGTH')
    return C._csize
def namemax(C):
    if not hasattr(C,'_nm'):
        try: C._nm=C.cval('hostscontainer.h','DOMAIN_NAME_LENGTH_MAX')
        except Broken: C._nm=253
    return C._nm
def stored(C):
    """globals written by some instruction, or whose address is used other than by a plain load"""
    r=getattr(C,'_stored',None)
    if r is None:
        r=C._stored=set()
        def addr(v):
            v=strip(v)
            if v is None: return
            if v.kind=='global': r.add(v.name)
            elif v.kind=='cexpr':
                for o in v.ops: addr(o)
        for f in C.P.fns:
            for i in f.instrs():
                if i.op=='load': continue
                for o in i.ops: addr(o)
                if i.op=='phi':
                    for o,_ in i.incoming: addr(o)
    return r
def literal(C,v):
    v=strip(v)
    if v is not None and v.kind=='instr' and v.op=='load':
        g=strip(v.ops[0])         # a pointer variable that only ever holds its initial string
        if g is not None and g.kind=='global' and g.internal and g.name not in stored(C): return literal(C,g.elems) if getattr(g.elems,'kind','') else None
        return None
    if v is not None and v.kind=='global' and v.string is not None: return v.string
    return None
def text(C,v):
    t=literal(C,v)
    return t.decode('latin1').split('\0')[0] if isinstance(t,bytes) else t

# greatest length of the text a function leaves in one of its arguments
TEXT={'IPv4AddressToAsc':(1,15),'IPv6AddressToAsc':(1,45),
  'Hosts_GetCName':(1,None),'HostsUtils_GetCName':(1,None),'StaticHosts_GetCName':(1,None),'DynamicHosts_GetCName':(1,None)}   # names from hosts are read with a width
# directories named by the environment: assumed to leave room for the file names put behind them
DIRS={'GetFileDirectory':0,'GetConfigDirectory':0,'GetModulePath':0}; DIRMAX=256

class Bounds(Rule):
    step_limit=80000
    def __init__(s,C,K):
        s.C=C; s.K=K; s.done={}; s.bad=[]; s.rets=[]
        s.alloc=C.P.__dict__.setdefault('_alloca',None) or {i.uid:i for f in C.P.fns for i in f.instrs() if i.op=='alloca'}
        C.P._alloca=s.alloc
        s.elen=C.tag('IHeader','EntityLength'); s.hsize=C.M.structs[s.elen[0]].size; s.csize=csize(C)
        s.gen=C.tag('DnsGenerator','Buffer')[0]
        s.go={n:C.off('DnsGenerator',n) for n in('Buffer','BufferLength','Itr','NumberOfRecords')}
        s.gslots={}
        for (t,o),fs in C.P.ft.items():
            if t==s.gen:
                for f in fs: s.gslots.setdefault(f,set()).add(o)
        s.ginit={f.name for f in C.fns('DnsGenerator_Init')}
        s.glen=set(C.P.ft.get(C.tag('DnsGenerator','Length'),()))
        s.row=set(C.P.ft.get(C.tag('DnsSimpleParserIterator','RowData'),()))
        s.copyl={f.name for f in C.fns('DNSCopyLable')}; s.compress={f.name for f in C.fns('DNSCompress')}
        s.fill={f.name for f in C.fns('IHeader_Fill')}
        s.gparam=None; s.map=C.glob('MapStart').name
    def init(s,fn): return ()
    def setup(s,e,fn):
        """what the function may assume about its arguments"""
        C=s.C; st=State(); st.ts=(); s.e=e; s.root=fn
        for p,l in s.K.get(fn.name,()):
            st.env[S('cap',argsym(fn,p))]=argsym(fn,l) if not isinstance(l,tuple) else const(l[1])
            if not isinstance(l,tuple): st.ineqs.add(add(const(MIN.get(fn.src,{}).get(l,0)),argsym(fn,l),-1))
        for k,(n,t) in enumerate(fn.params):
            if t=='struct _DnsGenerator*' and fn.name not in s.ginit:
                s.gparam=argsym(fn,k); s.hold(st,s.gparam,sym(('B',)),sym(('L',)),'0')
        return st
    # ---- the message generator: Buffer <= Itr <= Buffer+BufferLength, NumberOfRecords inside the header
    def hold(s,st,g,B,L,tag):
        e=s.e
        u=sym(('u0',tag)); n=sym(('n0',tag))
        for x in(('u0',tag),('n0',tag)): st.forget(x)
        for f in(add(const(12),L,-1),add(const(12),u,-1),sub(u,L),add(const(4),n,-1),add(n,const(-12))): st.ineqs.add(st.norm(f))
        st.env[S('cap',B)]=L
        for f,v,z in(('Buffer',B,8),('BufferLength',L,4),('Itr',add(B,u),8),('NumberOfRecords',add(B,n),8)):
            st.mem[(add(g,const(s.go[f])),None)]=(v,((s.gen,s.go[f]),z))
    def joinoff(s,st,v):
        return any(k[0]=='ghost' and k[1][0]=='cap' and len(k[1][1][1])==1 and k[1][1][1][0] in v[1] for k in st.env)
    def key(s,st):
        return (st.ts,tuple(st.decide(Bool('eq',argsym(s.root,p))) for p,_ in s.K.get(s.root.name,())[:3]))
    def joincand(s,e,a,b,x,v,w):
        r=set()
        for st,l in((a,v),(b,w)):
            for k,c in st.env.items():
                if k[0]=='ghost' and k[1][0]=='cap':      # a position inside an object of known size
                    p=k[1][1]
                    if len(p[1])==1 and dict(l[1]).get(p[1][0][0])==p[1][0][1]:
                        r.add(sub(sub(x,p),c)); r.add(add(p,x,-1))
        return r
    def descend(s,name,stack,i):
        if len(stack)<6 and private(s.C,name,s.gslots,s.ginit): return True
        if name in s.K and not s.trusting(name): return False
        if name in s.gslots or name in s.copyl|s.compress|s.row or name in s.ginit: return False
        return s.small_helper(s.e,name,stack)
    def trusting(s,name): return False
    def objty(s,b):
        if b[0]=='A': return s.alloc[b[2]].allocty if b[2] in s.alloc else None
        g=s.C.M.globals.get(b[1]); return g.ty if g is not None else None
    # ---- capacities
    def field_cap(s,e,st,ctx,v):
        """capacity left in an array member the address syntactically points into"""
        v=strip(v)
        if v.kind in('instr','cexpr') and v.op=='gep':
            cur=v.srcty; first=True; arr=None
            for k in v.ops[1:]:
                if first: first=False; off=e.lin(st,ctx,k); base=cur; continue
                if cur.kind=='struct': cur=cur.fields[k.v]; arr=None
                elif cur.kind=='array': arr=(cur,e.lin(st,ctx,k)); cur=cur.elem
                else: break
            if arr and arr[0].count>1: return sub(const(arr[0].size),scale(arr[1],arr[0].elem.size))
        return None
    def member_cap(s,v):
        """size of the structure member (not the last one) the address is that of"""
        v=strip(v)
        if v.kind not in('instr','cexpr') or v.op!='gep': return None
        cur=v.srcty; own=None
        for k in v.ops[2:]:
            if cur.kind=='struct' and k.kind=='const':
                own=cur if k.v<len(cur.fields)-1 else None; cur=cur.fields[k.v]
            else: return None
        return cur.size if own is not None and cur.size else None
    def caps(s,e,st,ctx,a,v=None):
        """[(room left at address a, sized at run time?)]"""
        out=[]
        if v is not None:
            c=s.field_cap(e,st,ctx,v)
            if c is not None: out.append((c,False))
            else:
                c=s.member_cap(v)
                if c: out.append((const(c),True))
        b=base_of(a)
        if b is not None:
            if b[0]=='A' and b[2] in s.alloc:
                if 'fd_set' not in str(s.alloc[b[2]].allocty): out.append((sub(const(s.alloc[b[2]].allocty.size),sub(a,sym(b))),False))
            elif b[0]=='G':
                g=s.C.M.globals.get(b[1])
                if g is not None and g.ty is not None and g.ty.size and g.ty.size>8 and 'fd_set' not in str(g.ty): out.append((sub(const(g.ty.size),sub(a,sym(b))),False))
        for k,c in st.env.items():
            if k[0]=='ghost' and k[1][0]=='cap':
                p=st.norm(k[1][1]); rt=k[1][-1]=='heap' and not c.isconst()
                if p[1] and all(t in a[1] for t in p[1]): out.append((sub(c,sub(a,p)),rt))
                elif b is None and p[1] and not set(p[1])<=set(a[1]) and st.prove_le(sub(p,a),2): out.append((sub(c,sub(a,p)),rt))
        return out
    def check(s,e,st,i,ctx,a,v,n,what,only=None):
        cs=s.caps(e,st,ctx,a,v)
        key=(i.fn.src,i.loc,what)
        if only is not None: cs=[x for x in cs if only(x[0])]
        if not cs: s.done.setdefault(key,'?'); return
        for c,rt in cs:
            if st.prove_le(sub(n,c)):
                if s.done.get(key) in(None,'?'): s.done[key]='ok'
                continue
            if rt and not st.prove_le(add(sub(c,n),const(1))):     # sized at run time: only a certain overrun counts
                s.done.setdefault(key,'?'); continue
            if s.done.get(key,'')[:3]!='BAD':
                s.done[key]='BAD'; s.bad.append((key,i,st.norm(n),st.norm(c),list(st.trace)))
            return
    # ---- string lengths
    def slen(s,e,st,ctx,a,v,i):
        t=text(s.C,v) if v is not None else None
        if t is not None: return const(len(t))
        k=S('sl',st.norm(a))
        r=st.env.get(k)
        if r is None:
            for q,x in st.env.items():
                if q[0]=='ghost' and q[1][0]=='sl' and st.norm(q[1][1])==k[1][1]: return st.norm(x)
            r=sym(('d','strlen',('o',i.uid,ctx),tuple(a)))
            st.env[k]=r; st.ineqs.add(scale(r,-1))
            for c,_ in s.caps(e,st,ctx,a,v): st.ineqs.add(st.norm(sub(add(r,const(1)),c)))
            for x,_ in a[1]:
                _,src=e.src(sym(x))
                if src is not None and base_of(src) is not None and base_of(src)==('G',s.map): st.ineqs.add(add(r,const(-253)))   # names the cache holds were written from decoded names
        return st.norm(r)
    def touched(s,st,a):
        b=base_of(a)
        for k in [k for k in st.env if k[0]=='ghost' and k[1][0]=='sl']:
            p=k[1][1]; pb=base_of(p)
            if b is not None and pb is not None and b!=pb: continue
            if (b is None)!=(pb is None): continue       # a local is never what a parameter points to
            if b is None and a[1]!=p[1] : continue
            del st.env[k]
    def settext(s,st,a,l,most=None):
        s.touched(st,a); st.env[S('sl',a)]=l
        st.ineqs.add(scale(l,-1))
        if most is not None: st.ineqs.add(add(l,const(-most)))
    def fmt(s,e,st,ctx,f,args,vals,i):
        """upper bound of formatted length"""
        n=ZERO; pos=0; k=0
        for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([diouxXcspfgeE%])',f):
            n=add(n,const(m.start()-pos)); pos=m.end(); c=m.group(5)
            if c=='%': n=add(n,const(1)); continue
            if k>=len(args): return None
            if c=='s': w=s.slen(e,st,ctx,args[k],vals[k],i)
            elif c=='c': w=const(1)
            else:
                w=const({'d':11,'i':11,'u':10,'x':8,'X':8,'o':11}.get(c,40) if not m.group(4) in('l','ll','z') else 20)
                v=args[k]
                if c in 'diu':
                    for d in range(1,11):
                        if st.prove_le(add(v,const(-(10**d-1)))) and st.prove_le(scale(v,-1)): w=const(d); break
                elif c in 'xX':
                    for d in range(1,8):
                        if st.prove_le(add(v,const(-(16**d-1)))) and st.prove_le(scale(v,-1)): w=const(d); break
            k+=1
            if m.group(2) and c!='s' and w.isconst() and int(m.group(2))>w.c: w=const(int(m.group(2)))
            n=add(n,w)
        return add(n,const(len(f)-pos+1))
    # ---- calls
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        C=s.C
        n=next(iter(ts)) if len(ts)==1 else ''
        w=wr(n)
        if w:
            s.check(e,st,i,ctx,args[w[0]],i.ops[w[0]],args[w[1]],n)
            s.touched(st,args[w[0]])
            if n in('recv','recvfrom','read'): return s.atmost(e,st,i,ts,args,ctx,args[w[1]])
            return None
        if n in('malloc','calloc') or C.name(n)=='SafeMalloc':
            e.opaque(st,i,[n],args,ctx); r=st.env[(ctx,i.uid)]
            sz=args[0] if n!='calloc' else (scale(args[0],args[1].c) if args[1].isconst() else scale(args[1],args[0].c) if args[0].isconst() else None)
            for k in [k for k in st.env if k[0]=='ghost' and k[1][0]=='cap' and set(x for x,_ in r[1])&set(atoms(k[1][1]))]: del st.env[k]
            if sz is not None: st.env[S('cap',r,'heap')]=e.renamed(sz,ctx,i)
            return [(st,r)]
        if n=='strlen': return [(st,s.slen(e,st,ctx,args[0],i.ops[0],i))]
        if n in('strcpy','strcat'):
            src=s.slen(e,st,ctx,args[1],i.ops[1],i); tot=src
            if n=='strcat': tot=add(tot,s.slen(e,st,ctx,args[0],i.ops[0],i))
            s.check(e,st,i,ctx,args[0],i.ops[0],add(tot,const(1)),n)
            s.touched(st,args[0]); st.env[S('sl',args[0])]=tot
            e.kill_region(st,args[0]); return [(st,args[0])]
        if n=='sprintf':
            f=text(C,i.ops[1]); ln=s.fmt(e,st,ctx,f,args[2:],i.ops[2:],i) if f is not None else None
            if ln is not None: s.check(e,st,i,ctx,args[0],i.ops[0],ln,n)
            s.touched(st,args[0]); return None
        if n in('sscanf','__isoc99_sscanf','fscanf','__isoc99_fscanf'):
            f=text(C,i.ops[1]); k=2
            if f is not None:
                for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l)?([diouxc%s]|\[\^?\]?[^\]]*\])',f):
                    c=m.group(4)
                    if c=='%' or m.group(1): continue
                    if k>=len(args): break
                    if c=='s' or c[0]=='[':
                        if not m.group(2):
                            key=(i.fn.src,i.loc,'scanf')
                            if s.done.get(key)!='BAD': s.done[key]='BAD'; s.bad.append((key,i,None,None,list(st.trace)))
                        else: s.check(e,st,i,ctx,args[k],i.ops[k],const(int(m.group(2))+1),'scanf')
                    s.touched(st,args[k]); k+=1
            return None
        # message generator
        r=s.on_gen(e,st,i,ts,args,ctx,fn,stack)
        if r is not None: return r
        if ts&s.row:                       # reads fields only: equal calls give equal addresses
            return [(st,sym(('d','row',tuple(args[0]),())))]
        if ts&s.copyl:
            v=sym(('d','copylable',(tuple(args[0]),tuple(args[1])),tuple(args[3])))
            st.ineqs.add(add(v,const(-256))); st.ineqs.add(add(const(-1),v,-1))
            if not args[2].isconst():
                s.check(e,st,i,ctx,args[2],i.ops[2],v,'call:DNSCopyLable'); s.touched(st,args[2]); s.root_raw=True
            return [(st,v)]
        if ts&s.compress:
            s.contract(e,st,i,ts,args,ctx)
            top=e.renamed(args[1],ctx,i); e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
            st.ineqs.add(st.norm(sub(v,top)))
            return [(st,v)]
        s.contract(e,st,i,ts,args,ctx)
        if n!='free':                          # a call that is handed a generator works it through its methods
            for a in args:
                L=st.env.get(S('genL',a))
                if L is not None and a[1]:
                    B=e.cell(st,add(a,const(s.go['Buffer'])))
                    if B is None: continue
                    e.opaque(st,i,list(ts),args,ctx); s.hold(st,a,B,L,(ctx,i.uid,'m'))
                    for x in args:
                        if x[1]: s.touched(st,x)
                    return [(st,st.env.get((ctx,i.uid)))]
        for t in ts:
            nm=C.name(t)
            if nm in TEXT:
                k,most=TEXT[nm]; most=most or namemax(C); s.limit(e,st,i,ctx,args[k],i.ops[k],most+1,'call:'+nm)
                e.opaque(st,i,list(ts),args,ctx)
                s.settext(st,args[k],sym(('d','strlen',('o',i.uid,ctx),tuple(args[k]))),most); return [(st,None)]
            if nm in DIRS:
                e.opaque(st,i,list(ts),args,ctx)
                k=DIRS[nm]; s.settext(st,args[k],sym(('d','strlen',('o',i.uid,ctx),tuple(args[k]))),DIRMAX); return [(st,st.env.get((ctx,i.uid)))]
        for a in args:
            if a[1]: s.touched(st,a)
        l=s.C.__dict__.get('_retle',{}).get(n)
        if l is not None: return s.atmost(e,st,i,ts,args,ctx,args[l])
        return None
    def atmost(s,e,st,i,ts,args,ctx,top):
        """the result is never more than the length handed over"""
        top=e.renamed(top,ctx,i); e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
        st.ineqs.add(st.norm(sub(v,top)))
        return [(st,v)]
    def limit(s,e,st,i,ctx,a,v,n,what): s.check(e,st,i,ctx,a,v,const(n),what)
    def contract(s,e,st,i,ts,args,ctx):
        for t in ts:
            for p,l in s.K.get(t,()):
                if p<len(args) and (isinstance(l,tuple) or l<len(args)):
                    ln=const(l[1]) if isinstance(l,tuple) else args[l]
                    if args[p].isconst(): continue
                    if st.decide(Bool('le',ln)) is True: continue
                    least=MIN.get(s.C.name(t),{}).get(l)
                    if least and t not in s.ginit and ln.isconst() and ln.c<least: s.check(e,st,i,ctx,args[p],i.ops[p],add(const(least),s.caps(e,st,ctx,args[p],i.ops[p])[0][0]) if s.caps(e,st,ctx,args[p],i.ops[p]) else ln,'least:%s'%s.C.name(t))
                    s.check(e,st,i,ctx,args[p],i.ops[p],ln,'call:%s:%d'%(s.C.name(t),p))
            if t in s.fill:      # the length recorded in the header: its message sits right behind it
                if any(True for _ in s.caps(e,st,ctx,args[0],i.ops[0])):
                    s.check(e,st,i,ctx,args[0],i.ops[0],add(args[3],const(s.hsize)),'header:%s'%s.C.name(t),lambda c:not(c.isconst() and c.c==s.hsize))
    def on_gen(s,e,st,i,ts,args,ctx,fn,stack):
        C=s.C
        if ts&s.ginit:
            s.contract(e,st,i,ts,[a if k!=2 else a for k,a in enumerate(args)],ctx)
            g,B,L=args[0],args[1],args[2]
            if args[3].isconst() and args[3].c==0:
                key=(i.fn.src,i.loc,'room')
                if st.prove_le(add(const(12),L,-1)): s.done.setdefault(key,'ok')
                elif L.isconst() or any(True for _ in s.caps(e,st,ctx,B,i.ops[1])):
                    s.check(e,st,i,ctx,B,i.ops[1],const(12),'room')
            e.kill_region(st,B)
            bad=st.copy(); v=e.fresh(bad,('v',ctx,i.uid)); bad.nes.add(v); e.kill_region(bad,g)
            e.kill_region(st,g); s.hold(st,g,B,L,(ctx,i.uid))
            st.env[S('genL',g)]=L; bad.ts=('nogen',)
            return [(bad,v),(st,ZERO)]
        if not args: return None
        g=args[0]; L=None
        if s.gparam is not None and g==s.gparam: B,L=sym(('B',)),sym(('L',))
        else:
            L=st.env.get(S('genL',g)); B=e.cell(st,add(g,const(s.go['Buffer']))) if L is not None else None
            if L is not None and B is None: return None
        if L is None: return None
        hit=[t for t in ts if t in s.gslots]
        if not hit:
            if ts and all(private(C,t,s.gslots,s.ginit) for t in ts) and len(stack)<6: return None
            if ts and all(t in C.M.functions and not C.M.functions[t].decl and any(p[1]=='struct _DnsGenerator*' for p in C.M.functions[t].params) and not s.descend(t,stack,i) for t in ts): hit=list(ts)
            else: return None
        if set(hit)&s.glen:
            r=e.fresh(st,('v',ctx,i.uid)); st.ineqs.add(scale(r,-1)); st.ineqs.add(st.norm(sub(r,L)))
            return [(st,r)]
        s.contract(e,st,i,ts,args,ctx)
        for a in args[1:]:
            if a[1]: s.touched(st,a)
        e.opaque(st,i,list(ts),args,ctx)
        s.hold(st,g,B,L,(ctx,i.uid,'m'))
        return [(st,st.env.get((ctx,i.uid)))]
    # ---- the length field of a message context
    def on_load(s,e,st,i,a,tag,ctx,fn):
        p=strip(i.ops[0])
        if p.kind=='instr' and p.op=='call' and any(t=='__errno_location' for t in e.P.targets(p)) and e.cell(st,a) is None and (a,None) not in st.mem:
            st.ineqs.add(scale(e.load(st,ctx,a,tag,i.ty,i),-1))
        if tag==s.elen and e.cell(st,a) is None and (a,None) not in st.mem:
            r=e.load(st,ctx,a,tag,i.ty,i)
            st.ineqs.add(add(const(0),r,-1)); s.fieldbound(e,st,ctx,a,r)
    def fieldbound(s,e,st,ctx,a,r):
        p=sub(a,const(s.elen[1])); room=[c for c,_ in s.caps(e,st,ctx,p)]
        st.ineqs.add(add(r,const(s.hsize-s.csize)))
        for c in room: st.ineqs.add(st.norm(add(sub(r,c),const(s.hsize))))
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        g=strip(i.ops[1])
        b=base_of(a)
        if tag==s.elen and isinstance(v,Lin):
            if fn.name in s.fill and len(fn.args)>3 and st.norm(v)==st.norm(argsym(fn,3)): return
            key=(i.fn.src,i.loc,'length field')
            p=sub(a,const(s.elen[1])); cs=[c for c,_ in s.caps(e,st,ctx,p)] or [const(s.csize)]
            if all(st.prove_le(add(sub(v,c),const(s.hsize))) for c in cs):
                if s.done.get(key) in(None,'?'): s.done[key]='ok'
            elif s.done.get(key)!='BAD': s.done[key]='BAD'; s.bad.append((key,i,st.norm(v),st.norm(sub(cs[0],const(s.hsize))),list(st.trace)))
            return
        s.touched(st,a)
        if tag is not None and 'fd_set' in str(tag[0]): return
        if b is not None and 'fd_set' in str(s.objty(b)): return
        var=any(x!=b for x,_ in a[1]) if b else bool(a[1])
        if b is None:
            # through a pointer: only objects under contract
            if not any(k[0]=='ghost' and k[1][0]=='cap' for k in st.env): return
        elif not var: return
        if b is None and tag is not None and tag[0]!='A': return      # a field of a structure
        t=getattr(i.ops[0],'ty',None); sz=t.size if t is not None and t.size else (getattr(i.ops[0],'bits',64)//8 or 1)
        if b is None and sz>2: return                                  # an element of a typed array
        s.check(e,st,i,ctx,a,g,const(sz),'store')
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root and isinstance(rv,Lin): s.rets.append([l for _,l in s.K.get(fn.name,()) if not isinstance(l,tuple) and st.prove_le(sub(rv,argsym(fn,l)))])
        elif root: s.rets.append([])
        if not root or s.gparam is None or fn.name in s.glen: return
        key=(fn.src,i.loc,'generator')
        it=e.cell(st,add(s.gparam,const(s.go['Itr'])))
        if it is None:
            s.done.setdefault(key,'?'); return
        u=sub(it,sym(('B',)))
        if st.prove_le(sub(u,sym(('L',)))) and st.prove_le(scale(u,-1)):
            if s.done.get(key) in(None,'?'): s.done[key]='ok'
        elif s.done.get(key)!='BAD': s.done[key]='BAD'; s.bad.append((key,i,u,sym(('L',)),list(st.trace)))

def private(C,name,slots,init): return name in C.__dict__.setdefault('_inl',set())
def helper(C,name,slots,init):
    """a helper of the generator's methods: judged where it is used"""
    m=C.__dict__.setdefault('_private',{})
    if name not in m:
        f=C.M.functions.get(name); sites=C.P.sites.get(name,()) if f is not None else ()
        m[name]=bool(f is not None and not f.decl and f.internal and name not in slots and name not in init and sites and any(t=='struct _DnsGenerator*' for _,t in f.params) and all(strip(c.callee).kind=='func' for c in sites))
    return m[name]
MIN={'DnsGenerator_Init':{2:12},'HostsUtils_CombineRecursedResponse':{1:1024},'GetDefaultConfigureFile':{1:264},'GetCurDateAndTime':{1:1},'DNSRRGetString':{3:1},'DnsSimpleParserIterator_ParseRaw':{4:1}}
TRUSTED={'DNSLabelizedName':'walks the text up to its terminator'}
def adjacency(C):
    """(buffer, length) parameter pairs: a byte buffer directly followed by a length"""
    K={}
    for f in C.P.fns:
        if len(f.params)!=len(f.args): continue
        for k in range(len(f.args)-1):
            n,t=f.params[k]; m,u=f.params[k+1]
            if t in('char*','unsigned char*','void*','struct _MsgContext*') and u in('int','unsigned long','unsigned int','long') and re.search('len|size',m,re.I): K.setdefault(f.name,[]).append((k,k+1))
    for n,v in {'ReplaceStr_WithLengthChecking':[(0,3)]}.items():
        for f in C.fns(n): K[f.name]=v
    return K

def analyse(C):
    r=getattr(C,'_bounds',None)
    if r is not None: return r
    K=adjacency(C); out={}; bad=[]; engines=[]; C._retle={}
    for f in C.P.fns:            # functions whose result is at most the length they were given
        if f.name in K and str(f.retty)=='i32' and any(i.op=='call' and (C.P.targets(i)&{'recv','recvfrom','read'}) for i in f.instrs()):
            r=Bounds(C,K); e=Engine(C.P,r)
            try: e.run(f,init=r.setup(e,f))
            except RuntimeError: continue
            both=set.intersection(*map(set,r.rets)) if r.rets else ()
            if both: C._retle[f.name]=min(both)
    C._inl=set()
    r=Bounds(C,K); hs=[f for f in C.P.fns if helper(C,f.name,r.gslots,r.ginit)]
    for _ in range(3):           # helpers that lean on what their callers established are judged inside them
        n=len(C._inl)
        for f in hs:
            if f.name in C._inl: continue
            r=Bounds(C,K); e=Engine(C.P,r)
            try: e.run(f,init=r.setup(e,f))
            except RuntimeError: continue
            if r.bad: C._inl.add(f.name)
        if len(C._inl)==n: break
    for f in C.P.fns:
        r=Bounds(C,K)
        if private(C,f.name,r.gslots,r.ginit): continue
        e=Engine(C.P,r); st=r.setup(e,f)
        t0=time.time()
        try: e.run(f,init=st)
        except RuntimeError as x: out[(f.src,'','budget')]='?'
        engines.append(e)
        C.__dict__.setdefault('_btime',{})[f.src]=(e.blocks,e.steps,time.time()-t0)
        for k,v in r.done.items():
            if f.src in TRUSTED and k[2]=='store': continue
            if v!='ok' or k not in out: out[k]=v
        bad+=[b for b in r.bad if not(f.src in TRUSTED and b[0][2]=='store')]
    C._bounds=(out,bad,engines,K); return C._bounds

def P10(C,R,tier):
    out,bad,engs,K=analyse(C)
    gp={f.src for f in C.P.fns if any(t=='struct _DnsGenerator*' for _,t in f.params)}
    b={}
    for x in bad: b.setdefault(x[0],x)
    n=u=0
    for k,v in sorted(out.items()):
        if k[0] in gp or k[2] in('generator','room') or 'DnsGenerator' in k[2]: continue      # P07
        if v=='ok': R.ok('%s: %s at %s fits'%(k[0],k[2],k[1])); n+=1
        elif v=='?': u+=1
        else:
            x=b.get(k)
            if x is None or x[2] is None: R.violation('overrun:%s:%s'%(k[0],k[2]),'text of any length is read into a buffer of fixed size',k[1],x[4] if x else ())
            elif k[2]=='length field': R.violation('overrun:%s:%s'%(k[0],k[2]),'the recorded length of a message may be %s although only %s bytes belong to it'%(x[2],x[3]),k[1],x[4])
            else: R.violation('overrun:%s:%s'%(k[0],k[2]),'%s of %s bytes where only %s are left'%(k[2],x[2],x[3]),k[1],x[4])
    R.need(n,180,'bounded writes')
    for e in engs:
        c=R.cov; c['blocks_explored']=c.get('blocks_explored',0)+e.blocks; c['instructions_interpreted']=c.get('instructions_interpreted',0)+e.steps
        c['functions_entered']=sorted(set(c.get('functions_entered',()))|e.visited_fns)
    R.cov['writes_without_known_extent']=u
    R.notes.append('%d writes go to objects whose size this analysis does not know (structures reached through pointers, memory sized at run time); they are not judged'%u)
    R.assume=['directories named by the environment (HOME, the program path) are at most %d bytes long'%DIRMAX,'names kept in the cache are at most 253 bytes (they were decoded by the name reader)','DNSLabelizedName stays within the text it is given']
