"""P05/P06: framing of messages and dropping of unusable ones."""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, sym, const, add, sub, scale, atoms, base_of
from ..common import Broken
from ..cg import tag_of
from .policy import PathRule, upstream_senders, RECV
from .response import gen_answer, workers, argsym

GS,GL,GN=('ghost','start'),('ghost','len'),('ghost','announced')
def copylike(n): return n in('memcpy','memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove')
def split_recv(e,st,i,args,ctx):
    """recv: got 1..len bytes / nothing / failed -> list of (state, result, kind)"""
    e.opaque(st,i,['recvfrom'] if len(args)>4 else ['recv'],args,ctx)
    r=st.env[(ctx,i.uid)]; out=[]
    for k,b in (('got',Bool('lt',scale(r,-1))),('zero',Bool('eq',r)),('fail',Bool('lt',r))):
        q=st.copy()
        if q.assume(b):
            if k=='fail':
                x=e.fresh(q,('v',ctx,i.uid,'errno')); q.ineqs.add(sub(const(1),x)); q.ineqs.add(add(x,const(-4095)))
                q.mem[(sym(('errno',)),None)]=(x,(None,4))
            out.append((q,r if k!='zero' else ZERO,k))
    return out

def gatherers(C):
    """functions that receive again and again into one buffer: name -> (buffer, length, socket argument).
       Each receives at buffer+done, at most length-done bytes, done grows by what came (only if something came),
       and the result is done."""
    out={}
    for f in C.M.functions.values():
        if f.decl: continue
        ins=[i for b in f.blocks for i in b.instrs]
        cs=[i for i in ins if i.op=='call' and set(C.P.targets(i) or ())&RECV]
        if len(cs)!=1: continue
        c=cs[0]; buf,ln=c.ops[1],c.ops[2]
        low=lambda v: low(v.ops[0]) if v.kind=='instr' and v.op in('sext','zext','bitcast','freeze','trunc') else v
        buf,ln=low(buf),low(ln)
        if not(buf.kind=='instr' and buf.op=='gep' and len(buf.ops)==2 and buf.ops[0].kind=='arg'): continue
        acc=low(buf.ops[1])
        if not(c.ops[0].kind=='arg' and acc.kind=='instr' and acc.op=='phi' and ln.kind=='instr' and ln.op=='sub' and low(ln.ops[0]).kind=='arg' and low(ln.ops[1]) is acc): continue
        def parts(v,seen):
            v=low(v)
            if v.kind=='instr' and v.op=='phi':
                if v in seen: return []
                seen.append(v); return [x for o in v.ops for x in parts(o,seen)]
            return [v]
        def grown(v):
            return v.kind=='instr' and v.op=='add' and {id(low(o)) for o in v.ops}=={id(acc),id(c)} and positive(f,c,v.block)
        ok=all(v.kind=='const' and v.v==0 or grown(v) for v in parts(acc,[]))
        rets=[i for i in ins if i.op=='ret']
        if ok and rets and all(r.ops and low(r.ops[0]).kind=='instr' and acc in phis(low(r.ops[0]),low) and all(v.kind=='const' and v.v==0 or grown(v) for v in parts(r.ops[0],[])) for r in rets):
            out[f.name]=(buf.ops[0].i,low(ln.ops[0]).i,c.ops[0].i)
    return out
def phis(v,low):
    seen=[]
    def go(v):
        v=low(v)
        if v.kind=='instr' and v.op=='phi' and v not in seen:
            seen.append(v)
            for o in v.ops: go(o)
    go(v); return seen
def positive(f,c,blk):
    """is the block reached only if the result of the call is above zero"""
    good=set()
    for b in f.blocks:
        t=b.instrs[-1]
        if t.op=='br' and len(t.succs)==2 and t.ops and t.ops[0].kind=='instr' and t.ops[0].op=='icmp':
            q=t.ops[0]
            x=q.ops[0]
            while x.kind=='instr' and x.op in('trunc','sext','freeze'): x=x.ops[0]
            if x is c and q.ops[1].kind=='const':
                k=q.ops[1].v
                if (q.pred,k) in(('sgt',0),('sge',1)): good.add((b,t.succs[0]))
                if (q.pred,k) in(('sle',0),('slt',1)): good.add((b,t.succs[1]))
    seen=set(); w=[c.block]
    while w:                                # from the call without passing such an edge
        b=w.pop()
        for n in b.instrs[-1].succs or ():
            if (b,n) in good or n in seen: continue
            seen.add(n); w.append(n)
    return blk not in seen and blk is not c.block

class Received(PathRule):
    """ts=(packet: 'none' nothing usable, 'ok' header filled from the packet, 'bad' filling failed)
       ghosts: the region received so far since it started, and the announced length"""
    def __init__(s,C):
        s.C=C; s.fill=C.fn('IHeader_Fill').name
        s.gen=gen_answer(C); s.sinks=s.gen|{C.fn(n).name for n in('MMgr_Send','IPMiscMapping_Process','MsgContext_IsBlocked','DNSCache_AddItemsToCache','MsgContext_SendBack')}
        s.mmadd=set(C.P.ft.get(C.tag('ModuleContext','Add'),()))
        s.gather=gatherers(C)
        s.ev=s.sinks|{s.fill}|RECV|set(s.gather); s.reach=C.P.reaching(s.ev); s.seen=set()
        s.hdr=C.cval('iheader.h','sizeof(IHeader)')
        use=C.P.reaching(s.sinks|{s.fill}); rx=C.P.reaching(RECV); tx=C.P.reaching({'send','sendto','connect'})
        s.into=use|{n for n in rx-tx if C.P.amod.get(n)}        # handles the packet, or receives into a buffer it is given
        s.other=rx-s.into                                        # receives something of its own
    def init(s,fn): return ('none','-')
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if n in('ntohs','htons'):
            # the announced length: conversion of a value read from the wire
            a=args[0]; t,addr=e.src(a)
            rs=st.env.get(GS)
            if addr is not None and rs is not None and st.decide(Bool('eq',sub(rs,addr))):
                gl=st.env.get(GL)
                if gl is None or not st.prove_le(sub(const(2 if n[-1]=='s' else 4),gl)): e.report('prefix','the length prefix of a message is used although it may not have been received completely',i.loc,st.trace)
                e.opaque(st,i,[n],args,ctx); st.env[GN]=st.env[(ctx,i.uid)]; st.env.pop(GS); st.env.pop(GL,None); st.ts=('none','ann'); return [(st,st.env[(ctx,i.uid)])]
            return None
        ev=ts&s.ev
        if not ev:
            if ts&s.other and not s.descends(ts,stack):
                for k in(GS,GL,GN): st.env.pop(k,None)
                st.ts=('none','-')
            return None
        if ev&set(s.gather):
            g=next(iter(ev)); bi,li,_=s.gather[g]; s.seen.add(('receive',i.loc)); out=[]
            buf,ln=e.renamed(args[bi],ctx,i),e.renamed(args[li],ctx,i)
            e.opaque(st,i,[g],args,ctx); r=st.env[(ctx,i.uid)]
            for k in(GS,GL): st.env.pop(k,None)
            q=st.copy()
            if q.assume(Bool('eq',r)): q.env[GS]=buf; q.env[GL]=ZERO; q.ts=('none','zero'); q.note('%s: nothing received'%i.loc); out.append((q,ZERO))
            q=st
            if q.assume(Bool('lt',scale(r,-1))) and q.assume(Bool('le',sub(r,ln))): q.env[GS]=buf; q.env[GL]=r; q.ts=('none','got'); out.append((q,r))
            return out
        if ev&RECV:
            s.seen.add(('receive',i.loc))
            out=[]
            gs,gl=st.env.get(GS),st.env.get(GL)
            cont=gs is not None and gl is not None and st.decide(Bool('eq',sub(add(gs,gl),args[1])))
            buf=e.renamed(args[1],ctx,i)
            for q,r,k in split_recv(e,st,i,args,ctx):
                if k!='fail':
                    if cont: q.env[GL]=q.norm(add(q.env[GL],r))
                    else: q.env[GS]=buf; q.env[GL]=r
                elif not cont: q.env.pop(GS,None); q.env.pop(GL,None)
                q.ts=('none',k); out.append((q,r))
            return out
        if s.fill in ev:
            s.seen.add(('fill',i.loc))
            gs,gl,gn=[st.env.get(k) for k in(GS,GL,GN)]
            buf,ln=args[2],args[3]
            if gs is None or gl is None: e.report('nothing','a header is filled in although nothing was received',i.loc,st.trace)
            else:
                if st.decide(Bool('eq',sub(gs,buf))) is not True: e.report('buffer','the message handled does not start where the received data starts',i.loc,st.trace)
                elif st.decide(Bool('eq',sub(gl,ln))) is not True: e.report('length','the length handled is not the number of bytes received',i.loc,st.trace)
                if gn is not None and st.decide(Bool('eq',sub(gn,ln))) is not True: e.report('announced','a TCP message is handled although its length is not the announced one',i.loc,st.trace)
                if gn is not None: s.seen.add(('announced',i.loc))
            if args[0]!=sub(buf,const(s.hdr)): e.report('place','the header is not the one in front of the message',i.loc,st.trace)
            e.opaque(st,i,list(ev),args,ctx)
            r=s.two(e,st,ctx,i,lambda t:('bad',t[1]),lambda t:('ok',t[1]))
            r[0][0].note('%s: the packet cannot be parsed'%i.loc)
            return r
        f=ev&s.sinks
        if f:
            what=sorted(s.C.name(x) for x in f)[0]; s.seen.add(('use:'+what,i.loc))
            if st.ts[0]!='ok': e.report('%s:%s'%(st.ts[0],what),'%s is reached %s'%(what,'for a packet that could not be parsed' if st.ts[0]=='bad' else 'without a parsed packet'),i.loc,st.trace)
        return None
    def descends(s,ts,stack): return any(s.descend(t,stack,None) for t in ts if t in s.C.M.functions and not s.C.M.functions[t].decl)
    def descend(s,name,stack,i):
        if name in s.ev or name in s.other: return False
        return name in s.into or s.small_helper(s.e,name,stack)

def frontends(C):
    skip={f.name for f in C.threads_reaching({C.fn('HostsUtils_GenerateQuery').name})}
    return [f for f in C.threads_reaching({C.fn('MMgr_Send').name}) if f.name not in skip]

def P06(C,R,tier):
    fs=frontends(C); ws=workers(C)
    R.need(len(fs),2,'front ends'); R.need(len(ws),2,'answer threads')
    ann=0
    for f in fs+ws:
        r=Received(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        kinds={k for k,_ in r.seen}
        if not e.violations and not ({'receive','fill'}<=kinds and any(k.startswith('use:') for k in kinds)): raise Broken('%s: receive/fill/use not found (%s)'%(f.src,kinds))
        ann+='announced' in kinds
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    if not R.viol: R.need(ann,2,'TCP receivers whose announced length is tracked')
    fill_rule(C,R,('unparsed','name:none','name:badname','second','field:EntityLength'))

# ---------------------------------------------------------------- P05
SENT,FULL=('ghost','sent'),('ghost','full')
def unwrap(l):
    while isinstance(l,Lin) and l.c==0 and len(l[1])==1 and l[1][0][1]==1 and isinstance(l[1][0][0],tuple) and l[1][0][0][0] in('tr','zx'): l=Lin(*l[1][0][0][2])
    return l
def iszero(st,v):
    """is a loaded field zero, also when only its widened form was compared"""
    if v is None: return None
    for x in(v,unwrap(v)):
        d=st.decide(Bool('eq',x))
        if d is not None: return d
        for b in(8,16):
            d=st.decide(Bool('eq',sym(('zx',b,tuple(x)))))
            if d is not None: return d
    return None
PRE=('ghost','prefix')
def leaves(v,seen=None):
    """what an SSA value is made of, through conversions and merges"""
    seen=set() if seen is None else seen
    if v.kind!='instr' or v.uid in seen: return [] if v.kind=='instr' else [v]
    seen.add(v.uid)
    if v.op in('zext','sext','bitcast','freeze') or v.op=='trunc' and (v.ty.bits or 0)>=16: return leaves(v.ops[0],seen)
    if v.op=='phi': return [x for o in v.ops for x in leaves(o,seen)]
    if v.op=='select': return leaves(v.ops[1],seen)+leaves(v.ops[2],seen)
    return [v]
def htons_arg(v):
    v=unwrap(v) if isinstance(v,Lin) else None
    if v is None or v.c!=0 or len(v[1])!=1: return None
    x=v[1][0][0]
    if not(isinstance(x,tuple) and x[0]=='d' and x[1] in('htons','ntohs')): return None
    return unwrap(Lin(*x[2]))
def split_send(e,st,i,args,ctx):
    """everything sent / some bytes / nothing"""
    ln=e.renamed(args[2],ctx,i)
    st.assume(Bool('lt',scale(args[2],-1)))       # nothing negative is ever passed as a length (else send fails anyway)
    e.opaque(st,i,['send'],args,ctx); r=st.env[(ctx,i.uid)]; out=[]
    q=st.copy()
    if q.decide(Bool('eq',sub(r,ln))) is not False and q.decide(Bool('le',add(ln,const(1)))) is not True:
        q.addeq(r[1][0][0],ln); out.append((q,ln,'full'))
    q=st.copy()
    if q.assume(Bool('lt',scale(r,-1))) and q.assume(Bool('lt',sub(r,ln))): out.append((q,r,'part'))
    q=st.copy()
    if q.assume(Bool('lt',r)):
        x=e.fresh(q,('v',ctx,i.uid,'errno')); q.ineqs.add(sub(const(1),x)); q.ineqs.add(add(x,const(-4095)))
        q.mem[(sym(('errno',)),None)]=(x,(None,4)); out.append((q,r,'fail'))
    return out

class Framed(Rule):
    """one function that writes one message to the network; a subclass says which region is expected at a call.
       ts=(facts, progress); progress: none/part/full/fail"""
    SEND={'send','sendto'}
    def __init__(s,C): s.C=C; s.hdr=C.cval('iheader.h','sizeof(IHeader)'); s.el=C.off('IHeader','EntityLength'); s.gal=C.fn('GetAddressLength').name; s.seen=set(); s.sends=C.P.reaching(s.SEND)
    def init(s,fn): return (frozenset(),'none')
    def descend(s,name,stack,i):
        if name==s.gal: return False
        return s.samefile(name,stack)
    def samefile(s,name,stack):
        f,g=s.C.M.functions[name],s.C.M.functions[stack[-1]]
        return f.file==g.file and sum(len(b.instrs) for b in f.blocks)<=200
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        # the two bytes in front of the message: the TCP length prefix
        if getattr(s,'h',None) is not None and a==add(s.h,const(s.hdr-2)):
            x=htons_arg(v)
            if x is not None: st.env[PRE]=x
            else: st.env.pop(PRE,None)
    def prefixed(s,st,EL):
        x=st.env.get(PRE)
        return x is not None and st.decide(Bool('eq',sub(st.norm(x),unwrap(EL)))) is True
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if s.gal in ts:
            return [(st,sym(('d','addrlen',tuple(args[0]),())))]
        if not ts&s.SEND: return None
        s.seen.add(('send',i.loc))
        exp=s.expect(e,st,i,args)
        if exp is None: e.opaque(st,i,['send'],args,ctx); return [(st,st.env[(ctx,i.uid)])]
        start,ln,what=exp
        stream=what.startswith('TCP')
        done=st.env.get(SENT,ZERO) if stream else ZERO
        if stream: st.env[FULL]=ln
        if st.decide(Bool('eq',sub(args[1],add(start,done)))) is not True: e.report('start:'+what,'%s: what is sent does not start at the %s'%(what,'message' if st.ts[1]!='part' else 'first byte not sent yet'),i.loc,st.trace)
        elif (st.decide(Bool('eq',sub(args[2],sub(ln,done)))) is not True) if not stream else not st.prove_le(sub(add(args[2],done),ln)): e.report('len:'+what,'%s: the number of bytes sent is not that of the message'%what,i.loc,st.trace)
        if st.ts[1]=='full' and not getattr(s,'many',False): e.report('twice:'+what,'%s: the message is sent twice'%what,i.loc,st.trace)
        out=[]
        for q,r,k in split_send(e,st,i,args,ctx):
            if stream and k!='fail': q.env[SENT]=q.norm(add(q.env.get(SENT,ZERO),r)); k='part'
            k2='fail' if k=='fail' and stream else q.ts[1] if k=='fail' else k
            q.ts=(q.ts[0],'fail' if k2=='none' else k2); q.note('%s: send -> %s'%(i.loc,k)); out.append((q,r))
        return out
    def truth(s,e,st,rv):
        """possible truths of 'result is zero'"""
        c=rv if isinstance(rv,Bool) else Bool('ne',rv); out=[]
        for b,t in((c.neg(),True),(c,False)):
            q=st.copy()
            if st.decide(b) is not False and q.assume(b): out.append((q,t))
        return out

class SendBack(Framed):
    def __init__(s,C):
        Framed.__init__(s,C)
        s.sock,s.rh,s.fam,s.adr=C.off('IHeader','SendBackSocket'),C.off('IHeader','ReturnHeader'),C.off('IHeader','BackAddress')+C.off('Address_Type','family'),C.off('IHeader','BackAddress')+C.off('Address_Type','Addr')
        s.cases=set()
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        have=dict(q.ts[0]); new=dict(have)
        for n,o in(('tcp',s.fam),('hdr',s.rh)):
            d=iszero(q,e.cell(q,add(s.h,const(o))))
            if d is not None: new[n]=d if n=='tcp' else not d
        if new!=have: q.ts=(frozenset(new.items()),q.ts[1])
    def expect(s,e,st,i,args):
        f=dict(st.ts[0]); tail=add(s.h,const(s.hdr)); EL=e.cell(st,add(s.h,const(s.el)))
        if EL is None: e.report('nolen','a reply is sent without using its length',i.loc,st.trace); return None
        sv=e.cell(st,add(s.h,const(s.sock)))
        if sv is None or st.decide(Bool('eq',sub(sv,args[0]))) is not True: e.report('socket','a reply is not sent on the socket of its client',i.loc,st.trace)
        if 'tcp' not in f: e.report('transport','a reply is sent without telling TCP from UDP clients',i.loc,st.trace); return None
        s.cases.add((f['tcp'],f.get('hdr') if not f['tcp'] else None))
        if f['tcp']:
            if not s.prefixed(st,EL): e.report('prefix','the TCP length prefix of a reply is not its length in network order',i.loc,st.trace)
            return sub(tail,const(2)),add(EL,const(2)),'TCP reply'
        if len(args)<6: e.report('noaddr','a UDP reply is sent without the address of its client',i.loc,st.trace); return None
        if args[4]!=add(s.h,const(s.adr)): e.report('address','a UDP reply is not sent to the address its query came from',i.loc,st.trace)
        fam=e.cell(st,add(s.h,const(s.fam)))
        okl=fam is not None and args[5]==sym(('d','addrlen',tuple(fam),())) or (args[5].isconst() and args[5].c>=28)
        if not okl and args[5].isconst() and fam is not None:
            d=st.decide(Bool('eq',add(unwrap(fam),const(-2)))); okl=(d is True and args[5].c>=16) or (d is None and False)
        if not okl: e.report('addrlen','the length of the client address does not follow its family',i.loc,st.trace)
        if 'hdr' not in f: e.report('nohdr','a UDP reply is sent without deciding whether its receiver needs the internal header',i.loc,st.trace); return None
        if f['hdr']: return s.h,add(EL,const(s.hdr)),'internal reply'
        return tail,EL,'UDP reply'
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        for q,z in s.truth(e,st,rv):
            if q.ts[1] in('part','fail') and FULL in q.env and q.prove_le(sub(q.norm(q.env[FULL]),q.norm(q.env.get(SENT,ZERO)))): q.ts=(q.ts[0],'full')
            if z and q.ts[1]!='full': e.report('success:'+q.ts[1],'success is reported although the reply was %s'%{'none':'not sent','part':'sent only partly','fail':'not sent'}[q.ts[1]],i.loc,st.trace)
            if not z and q.ts[1]=='full': e.report('failure','failure is reported although the reply was sent',i.loc,st.trace)

class Stream(Framed):
    """sends its buffer argument completely, or fails"""
    def expect(s,e,st,i,args):
        if args[0]!=s.args[0]: e.report('socket','sent on another socket',i.loc,st.trace)
        return s.args[1],s.args[2],'TCP stream'
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts&s.SEND:
            # may send the rest in smaller pieces: only the position is fixed
            s.seen.add(('send',i.loc)); done=st.env.get(SENT,ZERO)
            if args[0]!=s.args[0]: e.report('socket','sent on another socket',i.loc,st.trace)
            if st.decide(Bool('eq',sub(args[1],add(s.args[1],done)))) is not True: e.report('start','a send does not continue at the first byte not sent yet',i.loc,st.trace)
            if not st.prove_le(sub(add(args[2],done),s.args[2])): e.report('len','more bytes are sent than the message has',i.loc,st.trace)
            out=[]
            for q,r,k in split_send(e,st,i,args,ctx):
                if k!='fail': q.env[SENT]=q.norm(add(q.env.get(SENT,ZERO),r))
                q.ts=(q.ts[0],'fail' if k=='fail' else 'adv')
                q.note('%s: send -> %s'%(i.loc,k)); out.append((q,r))
            return out
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin): return
        if st.decide(Bool('lt',rv)) is True: return
        done=st.env.get(SENT,ZERO)
        if not st.prove_le(sub(s.args[2],done)): e.report('success','success is reported although only a part was sent',i.loc,st.trace)
        else: s.seen.add(('complete',i.loc))

class Upstream(Framed):
    """a query written to an upstream server / handed to another thread"""
    many=True
    def __init__(s,C,wrappers): Framed.__init__(s,C); s.wr=wrappers
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts&s.wr: return s.check(e,st,i,args,ctx)
        if s.gal in ts: return [(st,sym(('d','addrlen',tuple(args[0]),())))]
        if ts&s.SEND:
            r=s.check(e,st,i,args,ctx)
            if not s.result or args[1][1]!=s.h[1]: return r
            e.opaque(st,i,['send'],args,ctx); v=st.env[(ctx,i.uid)]; no=st.copy(); out=[]
            if no.assume(Bool('le',v)): out.append((no,v))
            if st.assume(Bool('lt',scale(v,-1))): st.ts=('sent',); out.append((st,v))
            return out
        return None
    result=False
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root and s.result and st.ts!=('sent',) and isinstance(rv,Lin) and st.decide(Bool('eq',rv)) is not False:
            e.report('result','success is reported although the query was sent nowhere',i.loc,st.trace)
    def descend(s,name,stack,i):
        if name in s.wr or name==s.gal: return False
        return s.samefile(name,stack) and (name in s.sends or s.small_helper(s.e,name,stack))
    def check(s,e,st,i,args,ctx):
        tail=add(s.h,const(s.hdr))
        if args[1][1]!=s.h[1]: return None            # something else than the query (proxy handshake)
        s.seen.add(('send',i.loc)); EL=e.cell(st,add(s.h,const(s.el)))
        start,extra=s.form
        if EL is None: e.report('nolen','a query is sent without using its length',i.loc,st.trace); return None
        if args[1]!=add(s.h,const(start)): e.report('start','the query sent upstream does not start at its first byte',i.loc,st.trace)
        elif st.decide(Bool('eq',sub(args[2],add(EL,const(extra))))) is not True: e.report('len','the number of bytes sent upstream is not that of the query',i.loc,st.trace)
        if s.prefix:
            if not s.prefixed(st,EL): e.report('prefix','the TCP length prefix of a query is not its length in network order',i.loc,st.trace)
        return None

class Fill(Rule):
    """what a filled-in header holds. ts=(parser, iterator, cur record: purpose/class, name state, type stored, address copied)"""
    def __init__(s,C):
        s.C=C; s.off=lambda f:C.off('IHeader',f)
        s.pi,s.ii=C.fn('DnsSimpleParser_Init').name,C.fn('DnsSimpleParserIterator_Init').name
        it='DnsSimpleParserIterator'; ft=C.P.ft
        s.next=set(ft.get(C.tag(it,'Next'),())); s.getn=set(ft.get(C.tag(it,'GetName'),()))
        s.gal=C.fn('GetAddressLength').name
        if not s.next or not s.getn: raise Broken('record iterator interface not found')
        s.pt,s.kt=C.tag(it,'Purpose'),C.tag(it,'Klass'); s.Q,s.IN=C.enum('DNS_RECORD_PURPOSE_QUESTION'),C.enum('DNS_CLASS_IN')
        s.dsz=C.cval('iheader.h','sizeof(((IHeader *)0)->Domain)'); s.seen=set()
        s.tt=C.tag(it,'Type'); s.OPT=C.enum('DNS_TYPE_OPT'); s.ADD=C.enum('DNS_RECORD_PURPOSE_ADDITIONAL')
    # + OPT record seen, EDNS flag stored, questions seen (up to 2)
    def init(s,fn): return ('?','?','-','none',0,0,'-','-',0)
    def setv(s,st,k,v): t=list(st.ts); t[k]=v; st.ts=tuple(t)
    def descend(s,name,stack,i): return s.small_helper(s.e,name,stack)
    def field(s,st,tag):
        for k,(v,(t,_)) in st.mem.items():
            if t==tag and isinstance(v,Lin): yield st.norm(v)
    def settle(s,e,st,i):
        if st.ts[2] in('q','q?','?') and st.ts[3]!='none' and st.ts[3]!='old': e.report('class','the name of a question is used although its class is not checked',i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if n in(s.pi,s.ii):
            k=0 if n==s.pi else 1; s.seen.add(('parser',i.loc))
            if n==s.pi and (args[1]!=s.a[2] or args[2]!=s.a[3]): e.report('parse','something else than the received message is parsed',i.loc,st.trace)
            e.opaque(st,i,[n],args,ctx); a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); s.setv(a,k,'bad'); s.setv(st,k,'ok'); return [(a,v),(st,ZERO)]
        if ts&s.next:
            if st.ts[2] in('q','?') and st.ts[3] in('named','lower','hashed'): e.report('class','the name of a question is used although its class is not checked',i.loc,st.trace)
            e.opaque(st,i,list(ts),args,ctx); a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); s.setv(a,2,'?'); s.setv(st,2,'-'); return [(a,v),(st,ZERO)]
        if ts&s.getn:
            s.seen.add(('name',i.loc))
            if args[1]!=add(s.h,const(s.off('Domain'))): return None
            if not st.prove_le(add(args[2],const(-s.dsz))): e.report('namesize','the question name is written with a limit larger than its buffer',i.loc,st.trace)
            e.opaque(st,i,list(ts),args,ctx); r=st.env[(ctx,i.uid)]; out=[]
            for b,v in((Bool('lt',r),'badname'),(Bool('le',scale(r,-1)),'named')):
                q=st.copy()
                if q.assume(b): s.setv(q,3,v); s.setv(q,4,0); out.append((q,r))
            return out
        if n=='StrToLower' or s.C.name(n)=='StrToLower':
            if args[0]==add(s.h,const(s.off('Domain'))) and st.ts[3]=='named': s.setv(st,3,'lower')
            return None
        if len(args)==2 and args[0]==add(s.h,const(s.off('Domain'))) and n in s.C.M.functions and not s.C.M.functions[n].decl:
            e.opaque(st,i,[n],args,ctx); st.x=st.env[(ctx,i.uid)]; return [(st,st.x)]
        if n==s.gal: return [(st,sym(('d','addrlen',tuple(args[0]),())))]
        if copylike(n) and args[0]==add(s.h,const(s.off('BackAddress')+s.C.off('Address_Type','Addr'))):
            s.seen.add(('address',i.loc))
            if args[1]!=s.a[4]: e.report('addrsrc','the address kept for the reply is not the sender\'s',i.loc,st.trace)
            okl=args[2]==sym(('d','addrlen',tuple(s.a[6]),())) or (args[2].isconst() and args[2].c>=28)
            if not okl: e.report('addrlen','the sender\'s address is copied with a length that does not follow its family',i.loc,st.trace)
            e.kill_range(st,args[0],s.C.cval('addresslist.h','sizeof(((Address_Type *)0)->Addr)')); s.setv(st,5,1); return [(st,args[0])]
        return None
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if a==add(s.h,const(s.off('HashValue'))) and isinstance(v,Lin):
            if st.x is not None and v==st.x: s.setv(st,3,'hashed' if st.ts[3]=='lower' else 'case' if st.ts[3]=='named' else st.ts[3])
        elif a==add(s.h,const(s.off('Type'))) and isinstance(v,Lin) and not v.isconst():
            s.seen.add(('type',i.loc))
            for l in leaves(i.ops[0]):
                good=l.kind=='const' or l.kind=='instr' and (l.op=='load' and (l.ty.bits==16 or tag_of(l.ops[0])==s.tt) or l.op=='call')
                if l.kind=='instr' and l.op=='call' and s.e.P.targets(l)&{'ntohs','htons'}: good=all(z.kind=='instr' and z.op=='load' and z.ty.bits==16 for z in leaves(l.ops[0]))
                if not good: e.report('typeval','the type kept is not the type in the question record but a function of it',i.loc,st.trace)
            s.setv(st,4,1)
        elif a==add(s.h,const(s.off('EDNSEnabled'))):
            s.setv(st,7,v.c if isinstance(v,Lin) and v.isconst() else 'v')
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        if q.ts[2]!='-' and q.ts[6]!='opt':
            if any(q.decide(Bool('eq',add(v,const(-s.OPT)))) is True for v in s.field(q,s.tt)):
                s.setv(q,6,'opt' if any(q.decide(Bool('eq',add(v,const(-s.ADD)))) is True for v in s.field(q,s.pt)) else 'maybe')
        if q.ts[2] in('?','q'):
            P=list(s.field(q,s.pt)); K=list(s.field(q,s.kt))
            isq=any(q.decide(Bool('eq',add(v,const(-s.Q)))) is True for v in P); notq=any(q.decide(Bool('eq',add(v,const(-s.Q)))) is False for v in P)
            isin=any(q.decide(Bool('eq',add(v,const(-s.IN)))) is True for v in K); notin=any(q.decide(Bool('eq',add(v,const(-s.IN)))) is False for v in K)
            if isq and q.ts[2]=='?': s.setv(q,8,min(2,q.ts[8]+1))
            if notq: s.setv(q,2,'other')
            elif isq and isin: s.setv(q,2,'qin')
            elif isq and notin: s.setv(q,2,'qnotin')
            elif isq: s.setv(q,2,'q')
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else None
        if z is False: return
        s.seen.add(('filled',i.loc))
        p,it,cur,nm,ty,ad,opt,ed,nq=st.ts
        if opt=='opt' and ed not in(1,'v'): e.report('edns:lost','a message with an EDNS record is marked as having none',i.loc,st.trace)
        if opt=='-' and ed!=0: e.report('edns:kept','a message without an EDNS record %s'%('is marked as having one' if ed!='-' else 'keeps the mark of an earlier message'),i.loc,st.trace)
        if nq>1: e.report('second','a message with several questions is accepted although only one of them is checked',i.loc,st.trace)
        if p!='ok' or it!='ok': e.report('unparsed','a header is filled in although the message was not parsed',i.loc,st.trace)
        if nm!='hashed': e.report('name:'+nm,{'none':'a header is filled in without a question','badname':'a header is filled in although its name could not be read','named':'the name of a query is not converted to lower case or not hashed','lower':'the hash of a query does not come from its name','case':'the hash of a query is computed before its name is converted to lower case'}[nm],i.loc,st.trace)
        if not ty and nm!='none': e.report('type','the type of the question is not kept',i.loc,st.trace)
        for f,k,w in(('SendBackSocket',5,'the socket for the reply is not the one given'),('ReturnHeader',1,'the kind of reply is not the one given'),('EntityLength',3,'the length kept is not that of the message')):
            v=e.cell(st,add(s.h,const(s.off(f))))
            if v is None or st.decide(Bool('eq',sub(v,s.a[k]))) is not True: e.report('field:'+f,w,i.loc,st.trace)
        fam=e.cell(st,add(s.h,const(s.off('BackAddress')+s.C.off('Address_Type','family'))))
        d=st.decide(Bool('eq',s.a[4]))
        if d is None: d=True if not ad else False
        if fam is None: e.report('family','the transport of the query is not kept',i.loc,st.trace)
        elif d:
            if not(fam.isconst() and fam.c==0): e.report('family','a query that came without a sender address is not kept as a TCP query',i.loc,st.trace)
        else:
            if not ad: e.report('addr','the sender\'s address is not kept',i.loc,st.trace)
            if st.decide(Bool('eq',sub(unwrap(fam),unwrap(s.a[6])))) is not True: e.report('family','the address family kept is not the sender\'s',i.loc,st.trace)

def fill_rule(C,R,only=None):
    f=C.fn('IHeader_Fill'); r=Fill(C); r.h=argsym(f,0); r.a=[argsym(f,k) for k in range(8)]; e=Engine(C.P,r); e.run(f)
    any_=bool(e.violations)
    if only:
        for k in list(e.violations):
            if not any(k==o or k.startswith(o+':') for o in only): del e.violations[k]
    R.take(e,'header:')
    if not any_ and not {'parser','name','type','address','filled'}<={k for k,_ in r.seen}: raise Broken('header filling: steps missing %s'%r.seen)
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))

class Origin(Received):
    """front ends: the header is filled with the socket and address the packet came from"""
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        g=ts&set(s.gather)
        if ts&RECV or g:
            k=e.renamed(args[s.gather[next(iter(g))][2] if g else 0],ctx,i)
            a=e.renamed(args[4],ctx,i) if len(args)>4 and not g else ZERO
            r=Received.on_call(s,e,st,i,ts,args,ctx,fn,stack)
            for q,_ in r: q.env[('ghost','sock')]=k; q.env[('ghost','addr')]=a
            return r
        if s.fill in ts:
            k,a=st.env.get(('ghost','sock')),st.env.get(('ghost','addr'))
            if k is None or st.decide(Bool('eq',sub(k,args[5]))) is not True: e.report('osock','the reply socket is not the one the query was received on',i.loc,st.trace)
            if a is None or st.decide(Bool('eq',sub(a,args[4]))) is not True: e.report('oaddr','the reply address is not the one the query came from',i.loc,st.trace)
            if not(args[1].isconst() and args[1].c==0): e.report('ohdr','a reply to a client would carry the internal header',i.loc,st.trace)
            s.seen.add(('origin',i.loc))
        return Received.on_call(s,e,st,i,ts,args,ctx,fn,stack)

def P05(C,R,tier):
    # replies
    f=C.fn('MsgContext_SendBack'); r=SendBack(C); r.h=argsym(f,0); e=Engine(C.P,r); st=State(); st.ts=r.init(f); st.env[SENT]=ZERO
    x=sym(('el',)); st.ineqs.add(scale(x,-1)); st.mem[(add(r.h,const(r.el)),None)]=(x,(C.tag('IHeader','EntityLength'),4))     # P06: a received length
    e.run(f,init=st); R.take(e,'reply:')
    if not e.violations: R.need(len(r.cases),3,'kinds of replies (TCP, UDP, internal)')
    for c in sorted(r.cases,key=str): R.ok('%s: %s reply: socket, start, length, prefix or address, result'%(f.src,'TCP' if c[0] else 'internal' if c[1] else 'UDP'))
    # stream writers
    raw={n for n in C.P.reaching({'send'}) if 'send' in C.P.callees.get(n,())}
    ws=[C.M.functions[n] for n in sorted(raw) if C.M.functions[n].file.endswith('tcpm.c') and len(C.M.functions[n].args)>=3]
    R.need(len(ws),1,'functions that write to a TCP server')
    for f in ws:
        r=Stream(C); r.args=[argsym(f,k) for k in range(3)]; e=Engine(C.P,r); st=State(); st.ts=r.init(f); st.env[SENT]=ZERO; e.run(f,init=st); R.take(e,f.src+':')
        if not e.violations and not {'send','complete'}<={k for k,_ in r.seen}: raise Broken('%s: no complete send'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    # queries
    wn={f.name for f in ws}; n=0
    cand=[]
    for t in sorted(upstream_senders(C)):
        g=C.M.functions[t]
        cand.append((g,1,(C.cval('iheader.h','sizeof(IHeader)'),0) if g.file.endswith('udpm.c') else (0,C.cval('iheader.h','sizeof(IHeader)')),False))
    for c in sorted({c for w in wn for c in C.P.callers.get(w,())}):
        g=C.M.functions[c]
        k=[j for j,a in enumerate(g.args) if j==1]
        if any(i.op=='call' and wn&C.P.targets(i) for i in g.instrs()) and g.src!='TcpM_ProxyPreparation': cand.append((g,1,(C.cval('iheader.h','sizeof(IHeader)')-2,2),True))
    for g,k,form,pre in cand:
        r=Upstream(C,wn); r.h=argsym(g,k); r.form=form; r.prefix=pre; r.result=not pre; e=Engine(C.P,r); e.run(g); R.take(e,g.src+':')
        if r.seen or e.violations: n+=1
        for kk,l in sorted(r.seen): R.ok('%s: query written at %s'%(g.src,l))
    if not R.viol: R.need(n,3,'functions that write a query')
    # filling the header
    fill_rule(C,R)
    f=C.fn('IHeader_Fill')
    # who else writes the reply coordinates
    own={f.name,C.fn('IHeader_Reset').name}
    own|={n for n,c in C.P.callers.items() if c and c<=own and n in C.M.functions}
    tags={C.tag('IHeader',x):x for x in('SendBackSocket','ReturnHeader')}
    for g in C.P.fns:
        for i in g.instrs():
            if i.op=='store':
                from ..cg import tag_of
                t=tag_of(i.ops[1])
                if t in tags:
                    if g.name in own: R.ok('%s stores %s at %s'%(g.src,tags[t],i.loc))
                    else: R.violation('coord:%s:%s'%(g.src,tags[t]),'%s changes where a reply goes (%s) outside header filling'%(g.src,tags[t]),i.loc)
    for f in frontends(C):
        r=Origin(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        if not e.violations and 'origin' not in {k for k,_ in r.seen}: raise Broken('%s: no header filling'%f.src)
        R.ok('%s: reply socket and address are those of the received packet'%f.src)
    from .replies import local_rule,edns_rule,parallel_rule
    local_rule(C,R); edns_rule(C,R); parallel_rule(C,R)
