"""P07: messages the program builds: inside their buffer, every record whole and counted once."""
from ..flow import Engine, State, Bool, Lin, ZERO, const, add, sub, scale, sym, base_of, flat
from ..common import Broken
from ..cg import strip
from . import bounds
from .bounds import Bounds, S, argsym

def inner(v,*names):
    """argument of a byte-order conversion, truncations aside"""
    v=plain(v)
    if len(v[1])==1 and v.c==0 and v[1][0][1]==1:
        x=v[1][0][0]
        if isinstance(x,tuple) and x[0]=='d' and x[1] in names: return plain(Lin(*x[2]))
    return None
def plain(v):
    while len(v[1])==1 and v.c==0 and v[1][0][1]==1 and isinstance(v[1][0][0],tuple) and v[1][0][0][0] in('tr','zx'): v=Lin(*v[1][0][0][2])
    return v
class Enc(Bounds):
    """walks one generator method with everything it calls on the same generator"""
    step_limit=200000
    def __init__(s,C,K,slots):
        Bounds.__init__(s,C,K); s.slots=slots; s.results=[]; s.loads={}
    def setup(s,e,fn):
        st=Bounds.setup(s,e,fn); st.ts=0
        s.txt=[argsym(fn,k) for k,(n,t) in enumerate(fn.params) if t=='char*']
        s.B=sym(('B',)); s.cnt=e.cell(st,add(s.gparam,const(s.go['NumberOfRecords']))) if s.gparam else None
        return st
    def key(s,st):
        r=[st.ts]
        for p in s.txt:
            v=st.env.get(S('first',p)); r.append(None if v is None else st.decide(Bool('eq',v)))
            r.append(st.decide(Bool('eq',p)))
        return tuple(r)
    def descend(s,name,stack,i):
        f=s.C.M.functions[name]
        if name in s.glen or name in s.ginit: return False
        if f.params and f.params[0][1]=='struct _DnsGenerator*' and len(stack)<6: return True
        return Bounds.descend(s,name,stack,i)
    def on_gen(s,e,st,i,ts,args,ctx,fn,stack):
        if all(t in s.C.M.functions and not s.C.M.functions[t].decl and s.descend(t,stack,i) for t in ts) and ts: return None
        return Bounds.on_gen(s,e,st,i,ts,args,ctx,fn,stack)
    def on_load(s,e,st,i,a,tag,ctx,fn):
        Bounds.on_load(s,e,st,i,a,tag,ctx,fn)
        if any(a==p for p in s.txt):                   # the text handed over does not change meanwhile
            st.assume(Bool('ne',a)); v=e.load(st,ctx,a,tag,i.ty,i); k=S('first',a); o=st.env.get(k)
            if o is None: st.env[k]=v
            elif isinstance(v,Lin) and isinstance(o,Lin) and v!=o: st.assume(Bool('eq',sub(v,o)))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        d=[t for t in ts if t in s.C.M.functions and not s.C.M.functions[t].decl and s.descend(t,stack,i)]
        if not d:
            for a in args:
                if s.B[1][0] in a[1]:
                    st.env[S('wr',st.norm(a))]=const(1)
                    for o in args:
                        if o is not a and o[1] and s.B[1][0] not in o[1]: st.env[S('ws',st.norm(a),o)]=const(1)
        return Bounds.on_call(s,e,st,i,ts,args,ctx,fn,stack)
    def touched(s,st,a):
        if not any(a==p for p in s.txt): Bounds.touched(s,st,a)
    def check(s,*a,**k): pass
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if s.gparam is None: return
        a=st.norm(a)
        if s.B[1][0] in a[1] and isinstance(v,Lin):
            t=getattr(i.ops[0],'ty',None); bits=t.bits if t is not None else 0
            n=e.cell(st,add(s.gparam,const(s.go['NumberOfRecords'])))
            if n is not None and st.decide(Bool('eq',sub(a,n))) is True:
                w=inner(v,'htons','ntohs'); o=w is not None and w.c==1 and inner(add(w,const(-1)),'ntohs','htons')
                st.ts=(st.ts if isinstance(st.ts,int) else 0)+1 if o else 'count'
                return
            st.env[S('wr',a)]=const(1)
            if bits==16:
                w=inner(v,'htons','ntohs')
                if w is None and v.isconst(): w=const(((v.c&255)<<8)|(v.c>>8&255))
                if w is not None: st.env[S('w2',a)]=w
            elif bits==32:
                w=inner(v,'htonl','ntohl')
                if w is None and v.isconst(): w=const(int.from_bytes((v.c&0xffffffff).to_bytes(4,'little'),'big'))
                if w is not None: st.env[S('w4',a)]=w
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or s.gparam is None: return
        if not isinstance(rv,Lin): return
        it=e.cell(st,add(s.gparam,const(s.go['Itr'])))
        s.results.append((rv,it,st,i))

RECORD={'CopyCName':5,'CopyA':1,'CopyAAAA':28,'CName':5,'MX':15,'A':1,'AAAA':28,'EDns':41}
def layout(R,st,s,it,want,name,loc):
    """type, class, ttl, length and data of the record that ends where the message now ends"""
    q=None; why='no record layout ends where the message ends'
    for k,v in st.env.items():
        if k[0]=='ghost' and k[1][0]=='w2':
            p=k[1][1]
            if st.decide(Bool('eq',sub(add(add(p,const(2)),v),it))) is True and S('w4',add(p,const(-4))) in st.env:
                q=p; break
    if q is None: return why
    if S('w2',add(q,const(-8))) not in st.env: return 'the type field is not written where the record needs it'
    if S('w2',add(q,const(-6))) not in st.env: return 'the class field is not written where the record needs it'
    if not(it==add(q,const(2)) or S('wr',st.norm(add(q,const(2)))) in st.env): return 'the data is not written behind the length'
    t=st.norm(st.env[S('w2',add(q,const(-8)))])
    if want is not None and st.decide(Bool('eq',sub(t,want))) is not True: return 'the type written (%s) is not the type of the record'%(t,)
    return None

LENGTH={'A':4,'AAAA':16,'CopyA':4,'CopyAAAA':16,'EDns':0}
def nameok(st,s,nl,nm):
    """is the room between the record's start and its type what its name needs"""
    if nm=='EDns': return nl==const(1)
    if nm.startswith('Copy'): return nl.c==0 and len(nl[1])==1 and isinstance(nl[1][0][0],tuple) and nl[1][0][0][:2]==('d','copylable')
    p=s.txt[0]; f=st.env.get(S('first',p))
    if st.decide(Bool('eq',p)) is True or f is not None and st.decide(Bool('eq',f)) is True: return st.decide(Bool('eq',add(nl,const(-1)))) is True
    l=st.env.get(S('sl',p))
    return l is not None and st.decide(Bool('eq',sub(nl,add(l,const(2))))) is True
def fields(C,st,s,f,nm,q,it):
    """owner name, class, time to live and data of a record, where its values are known"""
    if not nameok(st,s,st.norm(sub(add(q,const(-8)),add(s.B,sym(('u0','0'))))),nm): return 'the owner name does not fill the space between the start of the record and its type'
    k=len(f.params)
    cl=plain(st.norm(st.env[S('w2',add(q,const(-6)))])); ttl=plain(st.norm(st.env[S('w4',add(q,const(-4)))]))
    def same(a,b): return st.decide(Bool('eq',sub(a,b))) is True
    want={'RawData':argsym(f,3),'EDns':argsym(f,1)}.get(nm,const(1))
    if not same(cl,want): return 'the class written (%s) is not the class of the record'%(cl,)
    if nm=='EDns': okt=ttl==ZERO
    elif nm.startswith('Copy'): okt=not ttl.isconst()
    else: okt=same(ttl,argsym(f,k-1))
    if not okt: return 'the time to live written (%s) is not the one of the record'%(ttl,)
    d=add(q,const(2)); ln=plain(st.norm(st.env[S('w2',q)]))
    if nm in LENGTH and ln!=const(LENGTH[nm]): return 'the data of the record has not the length of its type'
    src={x[1][2] for x in st.env if x[0]=='ghost' and x[1][0]=='ws' and st.norm(x[1][1])==st.norm(d)}
    if nm=='MX':
        w=st.env.get(S('w2',st.norm(d)))
        if w is None or not same(plain(st.norm(w)),argsym(f,2)): return 'the preference is not the first thing in the data'
    if nm=='RawData' and argsym(f,4) not in src or nm in('A','AAAA') and argsym(f,2) not in src: return 'the data written is not the data handed over'
    if nm in('CopyA','CopyAAAA') and not any(x[:2]==('d','row') for v in src for x,_ in v[1] if isinstance(x,tuple)): return 'the data written is not the data of the record copied'
    return None

class Begin(Bounds):
    """what a generator looks like when it was set up: how much of the message there is and which records are counted"""
    def __init__(s,C,K): Bounds.__init__(s,C,K); s.results=[]
    def init(s,fn): return ()
    def check(s,*a,**k): pass
    def key(s,st): return (st.decide(Bool('eq',argsym(s.root,3))),st.decide(Bool('eq',add(argsym(s.root,5),const(-1)))),st.decide(Bool('le',argsym(s.root,4))))
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        a=st.norm(a); d=st.norm(sub(a,argsym(s.root,1)))
        if d.isconst(): st.env[S('bw',d)]=v if isinstance(v,Lin) else const(1)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        for t in ts:
            if t.startswith(('llvm.memmove','llvm.memcpy','memmove','memcpy')) and st.norm(args[0])==st.norm(argsym(s.root,1)): st.env[S('len')]=args[2]
        return Bounds.on_call(s,e,st,i,ts,args,ctx,fn,stack)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin): return
        g=argsym(fn,0); c=lambda n: e.cell(st,add(g,const(s.go[n])))
        s.results.append((rv,c('Itr'),c('NumberOfRecords'),c('Buffer'),c('BufferLength'),st,i))
def begin(C,R,K):
    """a fresh message is its header with nothing counted; a copied one ends where the copy ends, and what was cut off is not counted"""
    n=0
    for f in C.fns('DnsGenerator_Init'):
        r=Begin(C,K); e=Engine(C.P,r); st=r.setup(e,f)
        e.run(f,init=st); B=argsym(f,1); bad=None
        for rv,it,nr,b,bl,st,i in r.results:
            if st.decide(Bool('eq',rv)) is False: continue
            def zero(o):
                v=st.env.get(S('bw',const(o))); 
                if not isinstance(v,Lin): return False
                w=inner(v,'htons','ntohs'); return (w if w is not None else plain(st.norm(v)))==ZERO
            fresh=st.decide(Bool('eq',argsym(f,3))) is True or st.decide(Bool('le',argsym(f,4))) is True
            strip=st.decide(Bool('eq',add(argsym(f,5),const(-1))))
            w=None
            if b is None or st.norm(b)!=B: w='the buffer is not the one handed over'
            elif bl is None or st.decide(Bool('eq',sub(bl,argsym(f,2)))) is not True: w='the room is not the room handed over'
            elif it is None: w='the position is not set'
            elif fresh:
                if st.norm(sub(it,B))!=const(12): w='a fresh message does not start behind its header'
                elif nr is None or st.norm(sub(nr,B))!=const(4): w='a fresh message does not begin with its questions'
                else:
                    for o,nm in((4,'questions'),(6,'answers'),(8,'name servers'),(10,'additional records')):
                        if not zero(o): w='a fresh message starts with %s counted that are not there'%nm
            else:
                l=st.env.get(S('len'))
                if l is None or st.decide(Bool('eq',sub(sub(it,B),l))) is not True: w='a copied message does not go on where the copy ends'
                elif strip is not False and not(zero(8) and zero(10)): w='records that were cut off are still counted'
            if w: R.violation('begin:%s'%f.src,w,i.loc,st.trace)
            else: n+=1; R.ok('%s: %s (return at %s)'%(f.src,'a fresh message is an empty header' if fresh else 'a copied message ends where the copy ends and counts what it holds',i.loc))
    R.need(n,2,'ways a message is begun')

class Shrink(Bounds):
    """taking bytes out of a message: what follows moves up to the last byte, and the length shrinks by as much before it is used again"""
    def __init__(s,C,K):
        Bounds.__init__(s,C,K); s.raw=C.off('DnsSimpleParser','RawDns'); s.len=C.off('DnsSimpleParser','RawDnsLength')
        s.seen=0; s.ptag=C.tag('DnsSimpleParser','RawDns')[0]; s.itn=set(C.P.ft.get(C.tag('DnsSimpleParserIterator','Next'),()))
    def init(s,fn): return ()
    def check(s,*a,**k): pass
    def key(s,st): return st.ts
    def parser(s,st):
        for k in st.mem:
            if k[1] is None and st.mem[k][1][0]==(s.ptag,s.len): return add(k[0],const(-s.len))
    def due(s,e,st,i,how):
        if st.ts=='due':
            want=st.env.get(('ghost','due')); have=e.cell(st,s.at)
            if want is None or have is None or st.decide(Bool('eq',sub(have,want))) is not True: e.report('shrunk:%s'%s.root.src,'the message became shorter but its length was not reduced by as much before it is %s'%how,i.loc,st.trace)
            st.ts=(); st.env.pop(('ghost','due'),None)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        for t in ts:
            if t.startswith(('llvm.memmove','memmove')):
                d=st.norm(sub(args[1],args[0]))
                p=None
                for k,m in st.mem.items():
                    if k[1] is None and m[1][0]==(s.ptag,s.len): p=k[0]; L=m[0]
                if p is None: continue
                b=e.cell(st,add(p,const(s.raw-s.len)))
                if b is None or not isinstance(L,Lin): continue
                s.due(e,st,i,'used again')
                s.seen+=1
                if st.decide(Bool('eq',sub(sub(add(args[1],args[2]),b),L))) is not True:
                    e.report('moved:%s'%s.root.src,'what is moved up does not end where the message ends',i.loc,st.trace)
                st.env[('ghost','due')]=st.norm(sub(L,d)); st.ts='due'; s.at=p
        if ts&s.itn: s.due(e,st,i,'read on')
        return Bounds.on_call(s,e,st,i,ts,args,ctx,fn,stack)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root and isinstance(rv,Lin) and st.decide(Bool('le',add(rv,const(1)))) is not True:
            s.due(e,st,i,'handed back')
def shrink(C,R,K):
    for f in C.fns('DNSCompress'):
        r=Shrink(C,K); e=Engine(C.P,r); e.run(f,init=r.setup(e,f)); R.take(e,'')
        R.need(r.seen,1,'places that shorten a message'); R.ok('%s: what is moved up ends where the message ends and the length shrinks by as much (%d moves examined)'%(f.src,r.seen))

def P07(C,R,tier):
    out,bad,engs,K=bounds.analyse(C)
    gp={f.name for f in C.P.fns if any(t=='struct _DnsGenerator*' for _,t in f.params)}
    src={C.name(f) for f in gp}
    n=0
    for k,v in sorted(out.items()):
        if k[0] in src or k[2]=='generator' or 'DnsGenerator' in k[2] or k[2]=='room':
            if v=='ok': R.ok('%s: %s at %s stays inside the message buffer'%(k[0],k[2],k[1])); n+=1
            elif v[:3]=='BAD':
                for b in bad:
                    if b[0]==k: R.violation('room:%s:%s'%(k[0],k[2]),'a write of %s bytes to a message buffer with room for %s'%(b[2],b[3]),k[1],b[4])
    R.need(n,15,'writes into messages')
    tag=C.tag('DnsGenerator','Buffer')[0]
    slots={}
    for (t,o),fs in C.P.ft.items():
        if t==tag:
            for nm,off in (C.M.fieldnames.get(tag) or {}).items() if isinstance(C.M.fieldnames.get(tag),dict) else []: 
                if off==o: slots[nm]=fs
    if not slots:
        for nm in list(RECORD)+['Question','RawData','Generate']: slots[nm]=C.P.ft.get(C.tag('DnsGenerator',nm),())
    done=0
    for nm in list(RECORD)+['Question','RawData']:
        for t in sorted(slots.get(nm,())):
            f=C.M.functions[t]
            r=Enc(C,K,slots); e=Engine(C.P,r)
            e.run(f,init=r.setup(e,f)); R.cov['blocks_explored']=R.cov.get('blocks_explored',0)+e.blocks
            R.cov['functions_entered']=sorted(set(R.cov.get('functions_entered',()))|e.visited_fns)
            good=[x for x in r.results if x[0].isconst() and x[0].c==0]
            if not good: raise Broken('%s never succeeds'%f.src)
            for rv,it,st,i in r.results:
                zero=st.decide(Bool('eq',rv))
                if zero is False:
                    if st.ts!=0: R.violation('count:%s'%f.src,'a record that could not be added is counted',i.loc,st.trace)
                    continue
                if st.ts!=1:
                    R.violation('count:%s'%f.src,'a record is added without being counted once' if st.ts!='count' else 'the record count is not increased by one',i.loc,st.trace); continue
                if it is None: continue
                want=const(RECORD[nm]) if nm in RECORD else None
                if nm=='RawData': want=argsym(f,2)
                if nm=='Question':
                    w=None
                    if S('w2',st.norm(add(it,const(-4)))) not in st.env or S('w2',st.norm(add(it,const(-2)))) not in st.env: w='type and class of the question are not its last four bytes'
                    elif st.decide(Bool('eq',sub(plain(st.env[S('w2',st.norm(add(it,const(-4))))]),argsym(f,2)))) is not True: w='the type written is not the one asked for'
                else: w=layout(R,st,r,it,want,nm,i.loc)
                if w is None and nm!='Question':
                    for k,v in st.env.items():
                            if k[0]=='ghost' and k[1][0]=='w2' and st.decide(Bool('eq',sub(add(add(k[1][1],const(2)),v),it))) is True and S('w4',add(k[1][1],const(-4))) in st.env: w=fields(C,st,r,f,nm,k[1][1],it); break
                if w: R.violation('layout:%s'%f.src,w,i.loc,st.trace)
                else: done+=1; R.ok('%s: record complete, counted once, length field equals the data (return at %s)'%(f.src,i.loc))
    R.need(done,10,'record encodings')
    begin(C,R,K); shrink(C,R,K)
