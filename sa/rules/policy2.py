"""P02: order of the answer sources and one outcome per query."""
from ..flow import Rule, Engine, Bool, Lin, ZERO, sym, const, sub
from ..common import Broken
from .policy import PathRule, upstream_senders, RECV

F=('excl','stat','dyn','hand','cache','reply','up','sel')
class Order(PathRule):
    """ts = tuple over F
       excl : set of (which container) asked for the exclusion -> '?', 'no1','no','yes'
       stat/dyn/cache : '?' none hit
       hand : handed to the alias worker (None/ok/fail)
       reply: a reply was sent;  up: 0/1 ; sel: upstream selection evaluated"""
    INIT=('?','?','?','-','?',0,0,0)
    def __init__(s,C):
        s.st=C.fn('StaticHosts_Try').name; s.dy=C.fn('DynamicHosts_Try').name
        s.cache=C.fn('DNSCache_FetchFromCache').name; s.mm=C.fn('MMgr_Send').name
        s.up=upstream_senders(C); s.back=C.fn('MsgContext_SendBack').name
        s.ex1=C.fn('StaticHosts_TypeExisting').name; s.ex2=C.fn('DynamicHosts_TypeExisting').name
        s.EX=C.enum('HOSTS_TYPE_EXCLUEDE'); s.NONE=C.enum('HOSTSUTILS_TRY_NONE')
        s.inner=C.glob('InnerSocket')
        s.seln={f.name for f in C.fns('StringChunk_Domain_Match_WildCardRandom')}
        s.setup(C,s.up|{s.back,s.ex1,s.ex2,'sendto'}|RECV|s.seln)
        s.seen=set()
    def init(s,fn): return Order.INIT
    def st_(s,st,**k):
        d=dict(zip(F,st.ts)); d.update(k); st.ts=tuple(d[f] for f in F)
    def g(s,st): return dict(zip(F,st.ts))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        ev=ts&s.ev
        if not ev: return None
        d=s.g(st)
        if ev&s.recv: st.ts=Order.INIT; return None
        if ev&{s.ex1,s.ex2}:
            a=args[1]
            if not a.isconst():
                return None
            if a.c!=s.EX: return None
            s.seen.add(('exclusion',i.loc))
            w='s' if s.ex1 in ev else 'd'
            def no(t):
                x=t[0]
                if x=='yes': return t
                y=''.join(sorted(set((x if x!='?' else '')+w)))
                return (y,)+t[1:]
            r=s.two(e,st,ctx,i,lambda t:('yes',)+t[1:],no)
            r[0][0].note('%s: the name is excluded from hosts'%i.loc)
            return r
        if 'sendto' in ev:
            if e.src(args[0])[0]!=('G',s.inner.name) and e.cell(st,sym(('G',s.inner.name)))!=args[0]: return None
            s.seen.add(('handover',i.loc))
            if d['reply'] or d['up'] or d['hand']=='ok': e.report('handover-twice','a query already answered or forwarded is also handed to the alias worker',i.loc,st.trace)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.ineqs.add(add1(v)); s.st_(a,hand='fail'); a.note('%s: handover to the alias worker failed'%i.loc)
            b=st; w=e.fresh(b,('v',ctx,i.uid)); b.ineqs.add(Lin(0,((w[1][0][0],-1),))); s.st_(b,hand='ok'); b.note('%s: handed to the alias worker'%i.loc)
            return [(a,v),(b,w)]
        if s.back in ev:
            s.seen.add(('reply',i.loc))
            if d['reply']>=1: e.report('two-replies','a second reply is sent for a query that was already answered',i.loc,st.trace)
            if d['hand']=='ok': e.report('reply-after-handover','a query handed to the alias worker is also answered here',i.loc,st.trace)
            if d['up']: e.report('reply-after-forward','a query forwarded upstream is also answered locally',i.loc,st.trace)
            st.note('%s: reply sent'%i.loc); s.st_(st,reply=1); return None
        if ev&s.seln: s.st_(st,sel=1); return None
        if ev&s.up:
            s.seen.add(('forward',i.loc))
            what=' / '.join(sorted(s.C.name(x) for x in ev&s.up))
            if d['cache']!='none': e.report('fwd-before-cache','the query is forwarded although the cache %s'%('had an answer' if d['cache']=='hit' else 'was not consulted'),i.loc,st.trace)
            s.hosts_settled(e,st,i,'forwarded upstream')
            if d['reply']: e.report('fwd-after-reply','a query that was already answered is also forwarded',i.loc,st.trace)
            if d['up']: e.report('fwd-twice','one query is forwarded to two groups',i.loc,st.trace)
            s.st_(st,up=1); return None
        return None
    def hosts_settled(s,e,st,i,what):
        d=s.g(st)
        if d['hand']=='ok': e.report('after-handover:'+what,'a query handed to the alias worker is also %s'%what,i.loc,st.trace)
        if d['excl']=='yes' or d['hand']=='fail': return
        for k,n in (('stat','static'),('dyn','dynamic')):
            if d[k]=='hit': e.report('after-hit:%s:%s'%(n,what),'the query is %s although the %s hosts answered it'%(what,n),i.loc,st.trace)
            elif d[k]=='?': e.report('hosts-skipped:%s:%s'%(n,what),'the query is %s without consulting the %s hosts'%(what,n),i.loc,st.trace)
    def descend(s,name,stack,i):
        if name in(s.st,s.dy,s.cache,s.mm): return True
        return PathRule.descend(s,name,stack,i)
    def on_enter(s,e,st,i,f,args,ctx):
        d=s.g(st)
        if f.name in(s.st,s.dy):
            k='static' if f.name==s.st else 'dynamic'; s.seen.add((k,i.loc))
            if d['excl']=='yes': e.report('excluded:'+k,'the %s hosts are consulted for a name excluded from hosts'%k,i.loc,st.trace)
            elif d['excl'] not in('ds','sd'): e.report('unexcluded:'+k,'the %s hosts are consulted without checking the exclusions of both containers'%k,i.loc,st.trace)
            if f.name==s.dy and d['stat']!='none': e.report('order:dynamic','the dynamic hosts are consulted %s'%('although the static hosts answered' if d['stat']=='hit' else 'before the static hosts'),i.loc,st.trace)
        elif f.name==s.cache:
            s.seen.add(('cache',i.loc)); s.hosts_settled(e,st,i,'looked up in the cache')
            if d['reply'] : e.report('cache-after-reply','the cache is consulted for a query already answered',i.loc,st.trace)
        elif f.name==s.mm: st.x=None
    def on_leave(s,e,st,i,f,rv,ctx):
        d=s.g(st)
        if f.name in(s.st,s.dy):
            k='stat' if f.name==s.st else 'dyn'
            if isinstance(rv,Lin):
                t=st.decide(Bool('eq',Lin(rv.c-s.NONE,rv[1])))
            else: t=None
            if t is None: raise Broken('result of %s not decidable'%f.src)
            s.st_(st,**{k:'none' if t else 'hit'}); st.note('%s: %s -> %s'%(i.loc,f.src,'no entry' if t else 'hit'))
            if t and d['reply']: e.report('reply-none:'+f.src,'%s reports no entry after a reply was sent'%f.src,i.loc,st.trace)
        elif f.name==s.cache:
            t=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else None
            if t is None: raise Broken('result of %s not decidable'%f.src)
            s.st_(st,cache='hit' if t else 'none'); st.note('%s: cache -> %s'%(i.loc,'hit' if t else 'miss'))
            if t and not d['reply']: e.report('cache-noreply','the cache lookup claims to have answered but sent no reply',i.loc,st.trace)
            if not t and d['reply']: e.report('cache-miss-reply','the cache lookup reports a miss after sending a reply',i.loc,st.trace)
        elif f.name==s.mm:
            if not(d['reply'] or d['up'] or d['sel'] or d['hand']=='ok'):
                e.report('dropped','a valid query ends without a reply, a handover or an upstream selection',i.loc,st.trace)
def add1(v): return Lin(1,v[1])

class Refuse(PathRule):
    """ts=(option, an IPv4 entry exists, a hosts source was asked)"""
    nogc=True
    def __init__(s,C):
        s.C=C; s.opt=C.glob('BlockIpv6WhenIpv4Exists'); s.type=C.tag('IHeader','Type'); s.ex={f.name for n in('StaticHosts_TypeExisting','DynamicHosts_TypeExisting') for f in C.fns(n)}
        s.tries={f.name for n in('StaticHosts_Try','DynamicHosts_Try') for f in C.fns(n)}
        s.kinds={C.enum('HOSTS_TYPE_A'),C.enum('HOSTS_TYPE_GOOD_IP_LIST')}; s.BL=C.enum('HOSTSUTILS_TRY_BLOCKED'); s.AAAA=C.enum('DNS_TYPE_AAAA')
        s.reach=C.P.reaching(s.ex|s.tries); s.seen=set()
    def init(s,fn): return ('?','no',0)
    def key(s,st): return st.ts+(s.is6(st),)
    def is6(s,st):
        v=st.env.get(('ghost','type'))
        return st.decide(Bool('eq',sub(v,const(s.AAAA)))) if v is not None else None
    def split_load(s,e,st,i,a,tag,v):
        if tag==s.type and isinstance(v,Lin):
            if ('ghost','type') not in st.env: st.env[('ghost','type')]=v
            return None
        if tag==('G',s.opt.name) and st.ts[0]=='?':
            z=st.decide(Bool('eq',v))
            if z is not None: st.ts=('off' if z else 'on',)+st.ts[1:]; return None
            q=st.copy(); r=[]
            if q.assume(Bool('eq',v)): q.ts=('off',)+q.ts[1:]; r.append(q)
            if st.assume(Bool('ne',v)): st.ts=('on',)+st.ts[1:]; r.append(st)
            return r
        return None
    def descend(s,name,stack,i): return name in s.reach and name not in s.ex|s.tries
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.ex and args[1].isconst() and args[1].c in s.kinds:
            s.seen.add(('look for an IPv4 entry',i.loc))
            return s.two(e,st,ctx,i,lambda t:(t[0],'yes',t[2]),lambda t:t)
        if ts and ts<=s.tries: st.ts=st.ts[:2]+(1,); return None
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root or not isinstance(rv,Lin) or st.ts[2]: return
        b=st.decide(Bool('eq',sub(rv,const(s.BL)))); six=s.is6(st)
        if b:
            s.seen.add(('refusal',i.loc))
            if six is not True: e.report('refuse:type','the hosts refuse a query that is not for an IPv6 address',i.loc,st.trace)
            elif st.ts[1]!='yes': e.report('refuse:noa','the hosts refuse a query for a name without IPv4 entries',i.loc,st.trace)
            elif st.ts[0]!='on': e.report('refuse:off','the hosts refuse a query although that is not configured',i.loc,st.trace)
        elif b is False and six and st.ts[1]=='yes' and st.ts[0]=='on': e.report('refuse:not','an IPv6 query for a name with IPv4 entries is not refused although that is configured',i.loc,st.trace)
def refuse_rule(C,R):
    f=C.fn('Hosts_Try'); r=Refuse(C); e=Engine(C.P,r); e.run(f); R.take(e,'refuse:')
    for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
def P02(C,R,tier):
    refuse_rule(C,R)
    r0=Order(C)
    roots=C.threads_reaching(r0.up); R.need(len(roots),2,'threads that accept queries')
    for f in roots:
        r=Order(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        kinds={k for k,_ in r.seen}
        if not e.violations:
            for k in('exclusion','handover','reply','forward','static','dynamic','cache'):
                if k not in kinds: raise Broken('%s: no %s event reached'%(f.src,k))
        for k,l in sorted(r.seen): R.ok('%s: %s at %s in order and at most once'%(f.src,k,l))
    from .replies import try_rule
    try_rule(C,R)
    from .loader import append,hosts_rules
    append(C,R); hosts_rules(C,R)
