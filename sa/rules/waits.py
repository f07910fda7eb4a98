"""P26: no thread that serves several peers waits for a single one of them."""
from ..flow import Rule, Engine, Bool, ZERO, sub, const
from ..common import Broken
from ..cg import strip
from .internal import roots, const_of

STREAM=1
BLOCK={'recv','recvfrom','accept','accept4','recvmsg'}
READY,NONB,DGRAM,NEW=('ghost','ready'),('ghost','nonblock'),('ghost','dgram'),('ghost','new')
class Waits(Rule):
    """ts: '-' / 'any' (a select on the sockets of this function reported something).
       READY the socket that has something, NONB the one that never blocks, DGRAM one without connection, NEW one accepted and not prepared yet"""
    def __init__(s,C,home):
        s.C=C; s.home=home; s.seen=set(); s.need={}
        s.pull=set(C.P.ft.get(C.tag('SocketPuller','Select'),()))
        s.add=set(C.P.ft.get(C.tag('SocketPuller','Add'),()))
        s.still={f.name for f in C.fns('SocketIsStillReadable')}; s.nb={f.name for f in C.fns('SetSocketNonBlock')}
        s.blk=C.P.reaching(BLOCK); s.fnow=[]
    def init(s,fn): return '-'
    def descend(s,name,stack,i):
        if name in s.pull or name in s.add or name in s.still or name in s.nb: return False
        f,g=s.C.M.functions[name],s.C.M.functions[stack[-1]]
        if name in s.home: return sum(len(b.instrs) for b in f.blocks)<=200
        if name in s.blk: return False
        return s.small_helper(s.e,name,stack)
    def same(s,st,k,v):
        x=st.env.get(k); return x is not None and st.decide(Bool('eq',sub(st.norm(x),v))) is True
    def split(s,e,st,i,args,ctx,names):
        e.opaque(st,i,names,args,ctx); r=st.env[(ctx,i.uid)]
        a=st.copy(); out=[]
        a.nes.add(r)
        if st.assume(Bool('eq',r)): out.append((st,ZERO))
        else: st=None
        return a,st,r
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if ts and ts<=s.pull:
            e.opaque(st,i,list(ts),args,ctx); r=st.env[(ctx,i.uid)]; st.env[READY]=r; s.seen.add(('select',i.loc)); return [(st,r)]
        if ts&s.still:
            k=e.renamed(args[0],ctx,i); a,b,r=s.split(e,st,i,args,ctx,[n])
            a.env[READY]=k; s.seen.add(('wait',i.loc)); return [(a,r)]+([(b,ZERO)] if b else [])
        if ts&s.nb:
            k=e.renamed(args[0],ctx,i); on=args[1].isconst() and args[1].c==1
            if s.same(st,NEW,args[0]) and on: st.env.pop(NEW,None)
            a,b,r=s.split(e,st,i,args,ctx,[n])
            if b and on: b.env[NONB]=k
            s.seen.add(('nonblock',i.loc)); return [(a,r)]+([(b,ZERO)] if b else [])
        if n=='select':
            rd=strip(i.ops[1])
            e.opaque(st,i,[n],args,ctx); r=st.env[(ctx,i.uid)]
            if rd.kind=='null': return [(st,r)]
            a=st.copy(); out=[]
            if a.assume(Bool('lt',sub(ZERO,r))): a.ts='any'; out.append((a,r))
            for v in(ZERO,const(-1)):
                q=st.copy()
                if q.assume(Bool('eq',sub(r,v))): q.ts='-'; out.append((q,v))
            return out
        if n=='socket':
            e.opaque(st,i,[n],args,ctx); r=st.env[(ctx,i.uid)]
            if args[1].isconst() and args[1].c!=STREAM: st.env[DGRAM]=r
            return [(st,r)]
        if n=='connect':
            s.seen.add(('connect',i.loc))
            if not s.same(st,DGRAM,args[0]) and not s.same(st,NONB,args[0]): e.report('connect','a connection is set up by waiting for the other side',i.loc,st.trace)
            return None
        if n in BLOCK:
            s.seen.add((n,i.loc)); k=args[0]
            flags=args[3] if n in('recv','recvfrom') and len(args)>3 else None
            now=flags is not None and flags.isconst() and flags.c&0x40
            if not(now or st.ts=='any' or s.same(st,READY,k) or s.same(st,NONB,k)):
                s.need.setdefault(i.loc,(fn,st.trace,n))
            st.ts='-'; st.env.pop(READY,None)
            if n.startswith('accept'):
                e.opaque(st,i,[n],args,ctx); r=st.env[(ctx,i.uid)]; st.env[NEW]=r; return [(st,r)]
            return None
        if ts&s.add and len(args)>1 and s.same(st,NEW,args[1]):
            e.report('accepted','an accepted connection is served although sending to it waits for its client',i.loc,st.trace); st.env.pop(NEW,None)
        return None

def makers(C):
    """functions that make stream sockets, by file"""
    out={}
    for f in C.P.fns:
        for i in f.instrs():
            if i.op=='call' and 'socket' in (C.P.targets(i) or ()) and const_of(strip(i.ops[1])) in(None,STREAM): out.setdefault(f.file,set()).add(f.name)
    return out

def P26(C,R,tier):
    run=set()
    for t in C.P.threads: run|=C.P.reach(t)
    direct={}; callers={}
    for f in C.P.fns:
        for i in f.instrs():
            if i.op!='call': continue
            t=set(C.P.targets(i) or ())
            for n in t: callers.setdefault(n,set()).add(f.name)
            if f.name in run and t&(BLOCK|{'connect'}): direct.setdefault(f.name,set()).update(t&(BLOCK|{'connect'}))
    R.need(len(direct),6,'functions that receive, accept or connect in a thread')
    mk=makers(C); conn_bad=set(); left={}; inner=set(); done=set(); work=sorted(direct); kinds=set(); accepted=0
    while work:
        n=work.pop(0)
        if n in done: continue
        done.add(n); f=C.M.functions[n]
        r=Waits(C,inner); e=Engine(C.P,r); e.run(f)
        if any(k.startswith('connect') for k in e.violations): conn_bad.add(f.file)
        R.take(e,f.src+':'); kinds|=r.seen
        if r.need and n not in inner and any(arg_sock(C,f)) and (callers.get(n,set())-{n})&run:
            # its socket comes from the caller: judged there
            inner.add(n)
            for c in sorted(callers[n]&run): done.discard(c); work.append(c)
            left[n]=r.need; continue
        if r.need: left[n]=r.need
        else: left.pop(n,None)
    calm={fl for fl,fs in mk.items() if fl not in conn_bad and all('connect' in direct.get(x,()) for x in fs)}
    for n in sorted(left):
        f=C.M.functions[n]
        if n in inner and f.file not in calm and all(not left.get(c) or C.M.functions[c].file in calm for c in callers[n]&run): continue
        for l,(fn,tr,k) in sorted(left[n].items()):
            if f.file in calm: R.ok('%s: %s at %s: only sockets that never block'%(f.src,k,l)); continue
            R.violation('%s:%s'%(f.src,k),'%s waits for one peer: nothing is known to be there and the socket blocks'%k,l,tr)
    for k,l in sorted(kinds): R.ok('%s at %s'%(k,l))
    have={k for k,_ in kinds}
    if not R.viol:
        if not {'select','recvfrom','connect'}<=have: raise Broken('receiving code not recognised (%s)'%sorted(have))

def arg_sock(C,f):
    for i in f.instrs():
        if i.op=='call' and set(C.P.targets(i) or ())&BLOCK: yield any(x.kind=='arg' for x in roots(i.ops[0]))
