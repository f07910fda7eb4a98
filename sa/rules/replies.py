"""Sub-rules about the replies the program makes itself: hosts, cache, aliases, parallel queries."""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, sym, const, add, sub, scale
from ..common import Broken
from ..cg import tag_of
from .policy import PathRule, RECV
from .structures import argsym, args_state, copies, kbits

def deep(v):
    """symbols a value is computed from"""
    out=set(); work=[x for x,_ in v[1]] if isinstance(v,Lin) else []
    while work:
        x=work.pop()
        if isinstance(x,tuple):
            if x not in out:
                out.add(x); work+=[y for y in x if isinstance(y,tuple)]
    return out
def writes_arg(C,f,k,seen=()):
    """does a function write through its k-th parameter?"""
    from ..cg import strip
    if f.decl or f.name in seen or k>=len(f.args): return False
    def root(v,d=0):
        while v.kind=='instr' and v.op in('gep','bitcast') and d<20: v=v.ops[0]; d+=1
        return v
    for i in f.instrs():
        if i.op=='store' and root(i.ops[1]) is f.args[k]: return True
        if i.op=='call':
            for j,o in enumerate(i.ops):
                if root(o) is f.args[k]:
                    for t in C.P.targets(i):
                        if copies(t) or t=='memset' or t.startswith('llvm.memset'):
                            if j==0: return True
                        elif t in C.M.functions and writes_arg(C,C.M.functions[t],j,seen+(f.name,)): return True
    return False

# ---------------------------------------------------------------- hosts entries
class Try(Rule):
    """what the hosts lookup may conclude. ts=(facts about the asked type, lookups, generator used, generated)"""
    def __init__(s,C):
        s.C=C; s.find=set(C.P.ft.get(C.tag('HostsContainer','Find'),()))
        if not s.find: raise Broken('hosts lookup not found')
        s.H={C.enum('HOSTS_TYPE_'+n):n for n in('A','AAAA','CNAME','GOOD_IP_LIST')}
        s.Q={n:C.enum('DNS_TYPE_'+n) for n in('A','AAAA','CNAME')}
        s.tt=C.tag('IHeader','Type')
        s.NONE,s.REC,s.OK=[C.enum('HOSTSUTILS_TRY_'+n) for n in('NONE','RECURSED','OK')]
        g=set()
        for n in ('DnsGenerator_Init',): g|={f.name for f in C.fns(n)}
        s.gen=g; s.back=C.fn('MsgContext_SendBack').name; s.seen=set()
    def init(s,fn): return (frozenset(),frozenset(),0,0)
    def descend(s,name,stack,i): return name not in s.find|s.gen|{s.back} and (s.C.M.functions[name].file==s.C.M.functions[stack[-1]].file or s.small_helper(s.e,name,stack))
    def type_of(s,st):
        for k,(v,(t,_)) in st.mem.items():
            if t==s.tt and isinstance(v,Lin): return st.norm(v)
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        v=s.type_of(q)
        if v is None: return
        f=set(q.ts[0])
        for n,k in s.Q.items():
            d=q.decide(Bool('eq',add(v,const(-k))))
            if d is not None: f.add((n,d))
        q.ts=(frozenset(f),)+q.ts[1:]
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts&s.gen: st.ts=st.ts[:2]+(1,)+st.ts[3:]; return None
        if ts and ts<=s.find:
            t=s.H.get(args[2].c,'?') if args[2].isconst() else 'any'
            s.seen.add(('lookup '+t,i.loc))
            d=sub(args[1],s.name)
            if not(d.isconst() and d.c==0): e.report('name','the hosts are searched for something else than the asked name',i.loc,st.trace)
            T,L,g,o=st.ts
            real=not(args[3].isconst() and args[3].c==0)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v)
            if real:
                # the entries are put into the reply
                if t!='any':
                    for n,ok in(('A',('A','GOOD_IP_LIST')),('AAAA',('AAAA',)),('CNAME',('CNAME',))):
                        if (n,True) in T and t not in ok: e.report('wrongtype:'+n,'a query for %s records is answered with %s entries'%(n,t),i.loc,st.trace)
                a.ts=(T,L,g,1); st.ts=(T,L,1,o)
            else: a.ts=(T,L|{(t,'hit')},g,o); st.ts=(T,L|{(t,'miss')},g,o)
            return [(a,v),(st,ZERO)]
        if s.back in ts:
            s.seen.add(('reply',i.loc))
            if not st.ts[3]: e.report('empty','a reply is sent although no entry was put into it',i.loc,st.trace)
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin) or not rv.isconst(): return
        T,L,g,o=st.ts; hits={t for t,r in L if r=='hit'}; miss={t for t,r in L if r=='miss'}; anyt='any' in hits|miss
        s.seen.add(('result',i.loc))
        if rv.c==s.REC:
            if 'CNAME' not in hits and not anyt: e.report('recursed','a name without an alias entry is handed to the alias worker',i.loc,st.trace)
            if ('CNAME',False) not in T: e.report('recursedcname','a query for the alias itself is handed to the alias worker',i.loc,st.trace)
        elif rv.c==s.NONE and not anyt:
            if hits and not g: e.report('dropped','no entry is reported although the hosts have one (%s)'%', '.join(sorted(hits)),i.loc,st.trace)
            if not hits:
                need=[]
                if ('CNAME',False) in T or not T: need.append('CNAME')
                for n,k in(('A',('A','GOOD_IP_LIST')),('AAAA',('AAAA',)),('CNAME',('CNAME',))):
                    if (n,True) in T: need+=[x for x in k]
                for n in need:
                    if n not in miss: e.report('unasked:'+n,'no entry is reported although the %s entries were not looked at'%n,i.loc,st.trace)
def try_rule(C,R):
    f=C.fn('HostsUtils_Try'); r=Try(C); r.name=add(argsym(f,0),const(C.off('IHeader','Domain'))); e=Engine(C.P,r); e.run(f,init=args_state(f,3,r)); R.take(e,f.src+':')
    k={k.split()[0] for k,_ in r.seen}
    if not e.violations and not {'lookup','reply','result'}<=k: raise Broken('%s: steps not found (%s)'%(f.src,k))
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))

# ---------------------------------------------------------------- what a locally made reply is
class Local(Rule):
    """the bytes sent are those made last, with their length, marked as a response.
       ts=(direction set, copied) ; ghosts: source, length of the last copy into the message"""
    def __init__(s,C):
        s.C=C; s.back=C.fn('MsgContext_SendBack').name; s.hdr=C.cval('iheader.h','sizeof(IHeader)'); s.el=C.off('IHeader','EntityLength')
        s.comp=C.fn('DNSCompress').name; s.init_=C.fn('DnsGenerator_Init').name; s.len_=set(C.P.ft.get(C.tag('DnsGenerator','Length'),())); s.seen=set()
    def init(s,fn): return (0,0)
    def descend(s,name,stack,i): return name not in{s.back,s.comp,s.init_} and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if s.init_ in ts:
            e.opaque(st,i,list(ts),args,ctx); st.env[('ghost','made')]=args[1]; st.env.pop(('ghost','len'),None); return [(st,st.env[(ctx,i.uid)])]
        if s.comp in ts:
            m=st.env.get(('ghost','made'))
            if m is not None and st.decide(Bool('eq',sub(m,args[0]))) is not True: e.report('compress','something else than the reply made is compressed',i.loc,st.trace)
            e.opaque(st,i,list(ts),args,ctx); st.env[('ghost','len')]=st.env[(ctx,i.uid)]; return [(st,st.env[(ctx,i.uid)])]
        if ts and ts<=s.len_:
            e.opaque(st,i,list(ts),args,ctx); st.env[('ghost','len')]=st.env[(ctx,i.uid)]; return [(st,st.env[(ctx,i.uid)])]
        if copies(n) and args[0]==add(s.h,const(s.hdr)):
            s.seen.add(('copy',i.loc)); m=st.env.get(('ghost','made')); l=st.env.get(('ghost','len'))
            if m is None or st.decide(Bool('eq',sub(m,args[1]))) is not True: e.report('source','the bytes sent are not those of the reply made',i.loc,st.trace)
            if l is None or st.decide(Bool('eq',sub(l,args[2]))) is not True: e.report('copylen','the reply made is copied with a length that is not its own',i.loc,st.trace)
            v=e.cell(st,add(s.h,const(s.el)))
            e.opaque(st,i,list(ts),args,ctx); st.env[('ghost','copied')]=args[2]; st.ts=(st.ts[0],1)
            if v is not None: e.store(st,add(s.h,const(s.el)),None,v,4)      # the header lies before the copy
            return [(st,args[0])]
        if s.back in ts and args[0]==s.h:
            s.seen.add(('reply',i.loc))
            if not st.ts[1]: e.report('nocopy','what is sent back is the query, not the reply made',i.loc,st.trace)
            else:
                v=e.cell(st,add(s.h,const(s.el))); l=st.env.get(('ghost','copied'))
                if v is None or l is None or st.decide(Bool('eq',sub(v,l))) is not True: e.report('length','the reply made is sent with a length that is not its own',i.loc,st.trace)
            if not st.ts[0]: e.report('direction','a reply made here is not marked as a response',i.loc,st.trace)
        return None
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if isinstance(v,Lin) and kbits(st.norm(v))[0]&0x80 and i.ops[0].ty.bits in(8,16,32): st.ts=(1,st.ts[1])
def local_rule(C,R):
    back=C.fn('MsgContext_SendBack').name; dg=C.fn('DnsGenerator_Init').name; n=0
    for f in C.P.fns:
        c=C.P.callees.get(f.name,())
        if back in c and dg in c:
            r=Local(C); r.h=argsym(f,0); e=Engine(C.P,r); e.run(f,init=args_state(f,len(f.args),r)); R.take(e,f.src+':')
            for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l)); n+=k=='reply'
    if not R.viol: R.need(n,2,'functions that answer a query themselves')

# ---------------------------------------------------------------- length after adding EDNS
class EdnsLen(Rule):
    """ts: 'none' / 'grown' ; ghost len = length read since"""
    def __init__(s,C):
        s.C=C; s.ed=set(C.P.ft.get(C.tag('DnsGenerator','EDns'),())); s.len_=set(C.P.ft.get(C.tag('DnsGenerator','Length'),())); s.el=C.off('IHeader','EntityLength'); s.seen=set()
    def init(s,fn): return 'none'
    def descend(s,name,stack,i): return name not in s.ed|s.len_ and s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.ed:
            s.seen.add(('EDNS record',i.loc)); e.opaque(st,i,list(ts),args,ctx); st.ts='grown'; st.env.pop(('ghost','len'),None); return [(st,st.env[(ctx,i.uid)])]
        if ts and ts<=s.len_:
            e.opaque(st,i,list(ts),args,ctx); st.env[('ghost','len')]=st.env[(ctx,i.uid)]; return [(st,st.env[(ctx,i.uid)])]
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or st.ts!='grown': return
        v=e.cell(st,add(s.h,const(s.el))); l=st.env.get(('ghost','len'))
        s.seen.add(('length',i.loc))
        if v is None or l is None or st.decide(Bool('eq',sub(v,l))) is not True: e.report('ednslen','an EDNS record is added to a query whose length is not updated',i.loc,st.trace)
def edns_rule(C,R):
    f=C.fn('MsgContext_AddFakeEdns'); r=EdnsLen(C); r.h=argsym(f,0); e=Engine(C.P,r); e.run(f,init=args_state(f,2,r)); R.take(e,f.src+':')
    if not e.violations and not r.seen: raise Broken('%s: no EDNS record added'%f.src)
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))

# ---------------------------------------------------------------- the alias answer
class BackId(PathRule):
    """alias worker: the reply carries the identifier of the query it answers.  ts=(pair looked up, pair copied)"""
    def __init__(s,C,gen):
        s.gen=gen; s.back=C.fn('MsgContext_SendBack').name; s.mm=C.fn('MMgr_Send').name; s.hdr=C.cval('iheader.h','sizeof(IHeader)')
        s.setup(C,gen|{s.back}|RECV); s.seen=set()
    def init(s,fn): return (None,None)
    def descend(s,name,stack,i): return name not in(s.mm,)and PathRule.descend(s,name,stack,i)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if copies(n) and args[2].isconst() and args[2].c>=2: st.ts=(st.ts[0],(tuple(sub(args[0],const(s.hdr))),tuple(sub(args[1],const(s.hdr))))); return None
        ev=ts&s.ev
        if not ev: return None
        if ev&s.recv: st.ts=(None,None); return None
        if ev&s.gen:
            e.opaque(st,i,list(ev),args,ctx); p=(tuple(args[2]),tuple(args[1]))
            if p[0]!=p[1]: s.seen.add(('lookup',i.loc))
            return s.two(e,st,ctx,i,lambda t:('miss',t[1]),lambda t:(p,t[1]))
        if s.back in ev:
            s.seen.add(('reply',i.loc)); p,c=st.ts
            if isinstance(p,tuple) and p[0]!=p[1] and c!=p: e.report('identifier','a reply is sent without the identifier of the query it answers',i.loc,st.trace)
        return None
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if isinstance(v,Lin) and i.ops[0].kind=='instr' and (i.ops[0].ty.bits or 0)>=16:
            o=e.src(v)
            if o[1] is not None and o[0]!='?':
                t,f=sub(a,const(s.hdr)),sub(o[1],const(s.hdr))
                st.ts=(st.ts[0],(tuple(t),tuple(f)))
class Combine(Rule):
    """the combined answer keeps identifier and question of the stored query. ts=(buffer still original, identifier ok)"""
    def __init__(s,C):
        s.C=C; T=lambda n:set(C.P.ft.get(C.tag('DnsGenerator',n),()))
        s.copy,s.seti,s.q,s.cn=T('CopyHeader'),T('SetIdentifier'),T('Question'),T('CName'); s.init_=C.fn('DnsGenerator_Init').name; s.hdr=C.cval('iheader.h','sizeof(IHeader)'); s.clean=set(); s.seen=set()
        s.dom=C.off('IHeader','Domain'); s.tt=C.tag('IHeader','Type')
    def init(s,fn): return (1,0,0,0)
    def descend(s,name,stack,i): return name!=s.init_ and s.small_helper(s.e,name,stack)
    def on_load(s,e,st,i,a,tag,ctx,fn):
        if a==add(s.h,const(s.hdr)) and st.ts[0]: s.clean.add(i.uid)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if not ts: return None
        if s.init_ in ts or ts<=s.copy: st.ts=(0,0)+st.ts[2:]; return None
        if ts<=s.seti:
            s.seen.add(('identifier',i.loc))
            good=any(x[0]=='v' and x[-1] in s.clean for x in deep(st.norm(args[1])) if x and x[0]=='v')
            if not good: e.report('setid','the identifier of an alias answer is not that of the query',i.loc,st.trace)
            st.ts=(0,1)+st.ts[2:]
        if ts<=s.q:
            s.seen.add(('question',i.loc)); st.ts=st.ts[:2]+(1,st.ts[3])
            if args[1]!=add(s.h,const(s.dom)): e.report('qname','the question of an alias answer is not the name asked for',i.loc,st.trace)
            if isinstance(args[2],Lin) and e.src(args[2])[0]!=s.tt: e.report('qtype','the question of an alias answer is not of the type asked for',i.loc,st.trace)
        if ts<=s.cn and len(args)>2 and st.ts[3]==0:
            s.seen.add(('alias',i.loc)); st.ts=st.ts[:3]+(1,)
            if args[1]!=add(s.h,const(s.dom)) or args[2]!=s.target: e.report('alias','the alias record of an alias answer does not lead from the name asked for to the name resolved',i.loc,st.trace)
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else None
        if z is False: return
        for k,n,m in((1,'id','is not given the identifier of the query'),(2,'question','has no question'),(3,'noalias','has no alias record')):
            if not st.ts[k]: e.report(n,'an alias answer '+m,i.loc,st.trace)
class Hops(PathRule):
    """alias worker: a question asked under an alias remembers the stored query, and only a combined answer goes back.  ts=(stored entry, parent set, combined)"""
    def __init__(s,C,gen):
        s.C=C; s.gen=gen; s.back=C.fn('MsgContext_SendBack').name; s.mm=C.fn('MMgr_Send').name; s.comb={f.name for f in C.fns('HostsUtils_CombineRecursedResponse')}
        s.add=set(C.P.ft.get(C.tag('ModuleContext','Add'),())); s.par=C.tag('IHeader','Parent'); s.seen=set(); s.fill={f.name for f in C.fns('IHeader_Fill')}|{f.name for f in C.fns('IHeader_Reset')}
        s.setup(C,gen|{s.back,s.mm}|s.comb|s.add|RECV)
    def init(s,fn): return (0,0,0)
    def descend(s,name,stack,i): return name not in {s.mm}|s.fill|s.comb|s.add and PathRule.descend(s,name,stack,i)
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag==s.par and isinstance(v,Lin) and st.ts[0]:
            w=st.env.get(('ghost','entry'))
            good=w is not None and (st.norm(v)==st.norm(w) or st.decide(Bool('eq',sub(v,w))) is True)
            st.ts=(st.ts[0],1 if good else 2,st.ts[2])
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts&s.fill and len(ts)==1: st.ts=(st.ts[0],0,st.ts[2]); return None
        ev=ts&s.ev
        if not ev: return None
        if ev&s.recv: st.ts=(0,0,0); st.env.pop(('ghost','entry'),None); return None
        if ev&s.add:
            e.opaque(st,i,list(ev),args,ctx); v=st.env[(ctx,i.uid)]; a=st.copy(); a.nes.add(v); a.env[('ghost','entry')]=v; a.ts=(1,0,st.ts[2]); st.ts=(0,st.ts[1],st.ts[2]); return [(st,ZERO),(a,v)]
        if ev&s.comb:
            e.opaque(st,i,list(ev),args,ctx); v=st.env[(ctx,i.uid)]; a=st.copy(); a.nes.add(v); a.ts=st.ts[:2]+(2,); st.ts=st.ts[:2]+(1,); s.seen.add(('combine',i.loc)); return [(st,ZERO),(a,v)]
        if s.mm in ev:
            s.seen.add(('asked',i.loc))
            if st.ts[0]!=1 or st.ts[1]!=1: e.report('parent','a question is asked under an alias without remembering the stored entry of the query it is for: its answer would be matched to something else',i.loc,st.trace)
        if s.back in ev:
            s.seen.add(('reply',i.loc))
            if st.ts[2]!=1: e.report('combine','an alias answer goes back although it could not be put together',i.loc,st.trace)
        return None
def hops_rule(C,R,gen):
    comb={f.name for f in C.fns('HostsUtils_CombineRecursedResponse')}; mm=C.fn('MMgr_Send').name; n=0
    for f in C.threads_reaching(comb):
        if mm not in C.P.reach(f.name): continue
        r=Hops(C,gen); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':'); n+=1
        for k,l in sorted(r.seen): R.ok('%s: %s at %s only with the stored entry / the combined answer'%(f.src,k,l))
    R.need(n,1,'threads that ask under an alias')
def alias_rule(C,R):
    from .response import gen_answer
    gen=gen_answer(C); n=0
    for f in C.threads_reaching(gen):
        r=BackId(C,gen); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        for k,l in sorted(r.seen):
            if 'lookup' in {x for x,_ in r.seen}: R.ok('%s: %s at %s keeps the identifier'%(f.src,k,l)); n+=k=='lookup'
    hops_rule(C,R,gen)
    if not R.viol: R.need(n,1,'lookups that fill another buffer')
    f=C.fn('HostsUtils_CombineRecursedResponse'); r=Combine(C); r.h=argsym(f,0); r.target=argsym(f,4); e=Engine(C.P,r); e.run(f,init=args_state(f,5,r)); R.take(e,f.src+':')
    if not e.violations and not r.seen: raise Broken('%s: steps not found'%f.src)
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))

# ---------------------------------------------------------------- parallel queries
class Parallel(Rule):
    def loaded(s,v): return len(v[1])==1 and v.c==0 and v[1][0][0][0] in('v','j','jm')
    """every address of the list gets the query, and nothing else does: the address sent to is the one just tested"""
    def __init__(s,C): s.C=C; s.al=C.tag('UdpM','Parallels'); s.seen=set(); s.get={f.name for f in C.fns('AddressList_GetOne')}
    nogc=True
    def init(s,fn): return 0
    def descend(s,name,stack,i): return s.small_helper(s.e,name,stack)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts=={'sendto'}:
            s.seen.add(('send',i.loc)); v=args[4]
            if e.src(v)[1] is None and not s.loaded(v): return None
            if not(st.decide(Bool('ne',v)) or st.decide(Bool('eq',v)) is False): e.report('address','a query is sent to an address that was not tested to be there',i.loc,st.trace)
            w=i.ops[4]
            if cyclic(i.block) and w.kind=='instr' and w.op=='load' and not varies(w,i.block): e.report('same','every round of the loop sends the query to the same address',i.loc,st.trace)
            st.ts=1
        return None
def reach(b):
    out=set(); work=list(b.succs)
    while work:
        x=work.pop()
        if x not in out: out.add(x); work+=x.succs
    return out
def cyclic(b): return b in reach(b)
def varies(v,b,seen=None):
    seen=set() if seen is None else seen
    if v.kind!='instr' or v.uid in seen: return False
    seen.add(v.uid)
    if v.op in('phi','call') and v.block in reach(b) and b in reach(v.block): return True
    return any(varies(o,b,seen) for o in v.ops)
def parallel_rule(C,R):
    from .policy import upstream_senders
    n=0
    for t in sorted(upstream_senders(C)):
        f=C.M.functions[t]
        if 'sendto' not in C.P.callees.get(f.name,()): continue
        r=Parallel(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        for k,l in sorted(r.seen): R.ok('%s: %s to a tested address at %s'%(f.src,k,l)); n+=1
    if not R.viol: R.need(n,1,'UDP senders')
