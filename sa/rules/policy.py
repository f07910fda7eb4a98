"""P01 / P02: what may happen to a query between reception and the upstream module."""
from ..flow import Rule, Engine, Bool, ZERO, sym, const
from ..common import Broken

RECV={'recv','recvfrom'}

class PathRule(Rule):
    """helper base: descends into everything that can reach an interesting call"""
    events=()
    def setup(s,C,events):
        s.C=C; s.ev=set(events); s.reach=C.P.reaching(s.ev)
        s.only=C.P.reaching(s.ev&RECV)-C.P.reaching(s.ev-RECV)   # functions that can only receive
        s.recv=RECV|s.only
        s.ev|=s.only
    def descend(s,name,stack,i):
        if name in s.ev: return False
        if s.small_helper(s.e,name,stack): return True
        return name in s.reach
    def two(s,e,st,ctx,i,yes,no):
        """split a call result into non-zero / zero"""
        a=st.copy(); b=st
        v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); a.ts=yes(a.ts)
        b.ts=no(b.ts)
        return [(a,v),(b,ZERO)]

def upstream_senders(C):
    """functions stored in the module interface's Send slot"""
    t=C.P.ft.get(C.tag('ModuleInterface','Send'))
    if not t: raise Broken('no upstream Send implementation registered')
    return set(t)

class Disabled(PathRule):
    # ts = (type outcome, domain outcome, refused, forwarded)
    def __init__(s,C):
        s.types=C.glob('DisabledTypes'); s.dom=C.glob('DisabledDomain')
        s.hosts=C.fn('Hosts_Get').name; s.cache=C.fn('DNSCache_FetchFromCache').name
        s.send=upstream_senders(C); s.refuse=C.fn('MsgContext_SendBackRefusedMessage').name
        s.bst=set(C.P.ft.get(C.tag('Bst','Search'),()))
        s.match={f.name for n in ('StringChunk_Domain_Match','StringChunk_Domain_Match_WildCardRandom','StringChunk_Domain_Match_NoWildCard','StringChunk_Domain_Match_OnlyWildCard') for f in C.fns(n)}
        s.full=C.fn('StringChunk_Domain_Match').name
        if not s.bst: raise Broken('no tree search implementation')
        s.fwd={s.hosts,s.cache}|s.send
        s.setup(C,s.fwd|{s.refuse,s.full}|s.bst|RECV)
        s.roots=[]; s.nfwd=set(); s.nlook=set()
        s.ttag=C.tag('IHeader','Type'); s.dtag=C.tag('IHeader','Domain')
    def init(s,fn): return ('?','?',False)
    def settled(s,e,st,i,fn):
        t,d,r=st.ts
        if (t=='hit' or d=='hit') and not r:
            e.report('unrefused','a query matching the disabled %s is neither refused nor forwarded (%s)'%('types' if t=='hit' else 'domains',fn.src),i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        ev=ts&s.ev
        if not ev: return None
        if ev&s.recv:
            s.settled(e,st,i,fn)
            st.ts=('?','?',False); return None
        if ev&s.bst:
            if ('G',s.types.name)==e.src(args[0])[0] or e.cell(st,sym(('G',s.types.name)))==args[0]:
                s.nlook.add(('type',i.loc)); st.note('%s: type looked up in the disabled types'%i.loc)
                k=e.cell(st,args[1]) if len(args)>1 else None
                if k is not None and e.src(k)[0] not in(None,s.ttag):
                    e.report('typekey','the disabled-type lookup uses %s, not the query type'%(e.src(k)[0],),i.loc,st.trace)
                r=s.two(e,st,ctx,i,lambda t:('hit',)+t[1:],lambda t:('miss' if t[0]!='hit' else 'hit',)+t[1:])
                return r
            return None
        if s.full in ev:
            if ('G',s.dom.name)==e.src(args[0])[0] or e.cell(st,sym(('G',s.dom.name)))==args[0]:
                s.nlook.add(('domain',i.loc)); st.note('%s: name looked up in the disabled domains'%i.loc)
                return s.two(e,st,ctx,i,lambda t:(t[0],'hit')+t[2:],lambda t:(t[0],'miss' if t[1]!='hit' else 'hit')+t[2:])
            return None
        if s.refuse in ev:
            st.note('%s: refused'%i.loc); st.ts=st.ts[:2]+(True,); return None
        f=ev&s.fwd
        if f:
            what=sorted(C_name(s.C,x) for x in f)[0]
            s.nfwd.add(i.loc)
            t,d,r=st.ts
            for o,n in ((t,'type'),(d,'domain')):
                if o=='hit': e.report('fwd-hit:%s:%s'%(n,what),'%s is reached although the query matched the disabled %ss'%(what,n),i.loc,st.trace)
                elif o=='?': e.report('fwd-unchecked:%s:%s'%(n,what),'%s is reached without the disabled-%s check'%(what,n),i.loc,st.trace)
            return None
        return None
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        for k,g in enumerate((s.types,s.dom)):
            v=e.cell(q,sym(('G',g.name)))
            if v is not None and v.isconst() and v.c==0 and q.ts[k]=='?':
                t=list(q.ts); t[k]='nil'; q.ts=tuple(t)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if root: s.settled(e,st,i,fn)

def C_name(C,n): return C.name(n)

def P01(C,R,tier):
    r0=Disabled(C)
    roots=C.threads_reaching(r0.fwd)
    R.need(len(roots),2,'threads that accept queries')
    for f in roots:
        r=Disabled(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        if not r.nfwd: raise Broken('%s: no forwarding call reached'%f.src)
        if not e.violations: R.need(len(r.nlook),2,'%s: policy lookups'%f.src)
        for l in sorted(r.nfwd): R.ok('%s: %s only after both disabled checks missed'%(f.src,l))
        for k,l in sorted(r.nlook): R.ok('%s: %s hit at %s leads to refusal'%(f.src,k,l))
    # the parts the two lookups rest on
    from .structures import equal_rule,tree_rule,list_rule,scan_rule,refuse_rule
    from .transport import fill_rule
    equal_rule(C,R,'FilterType_Init',[('type',0,4)],False)
    tree_rule(C,R); list_rule(C,R); scan_rule(C,R,['stringchunk.c']); refuse_rule(C,R)
    fill_rule(C,R,('name','type','typeval','class','second','parse','badname'))
    from .loader import domains,types
    domains(C,R); types(C,R)
