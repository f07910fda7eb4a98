"""P03-P06: what happens to data received from the network."""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, sym, const, add, sub, scale, atoms, base_of
from ..common import Broken
from ..cg import tag_of
from .policy import PathRule, upstream_senders, RECV

def gen_answer(C):
    t=C.P.ft.get(C.tag('ModuleContext','GenAnswerHeaderAndRemove'))
    if not t: raise Broken('no pending-query lookup registered')
    return set(t)
def workers(C):
    """threads that receive upstream answers: they match pending queries but never forward"""
    a=C.threads_reaching(gen_answer(C)); b={f.name for f in C.threads_reaching(upstream_senders(C))}
    return [f for f in a if f.name not in b]

class Atoms(Rule):
    """path-sensitive observation of field tests: ts = frozenset of (atom, truth)
       atoms: name -> (tag, k) meaning field == k, truth recorded as soon as a branch decides it"""
    def __init__(s,atoms): s.at=atoms; s.rets=[]
    def init(s,fn): return frozenset()
    def learn(s,e,q):
        new=[]
        have={n for n,_ in q.ts}
        for n,(tag,k) in s.at.items():
            if n in have: continue
            for key,(v,(t,_)) in q.mem.items():
                if t==tag and isinstance(v,Lin):
                    d=q.decide(Bool('eq',add(q.norm(v),const(-k))))
                    if d is not None: new.append((n,d)); break
        if new: q.ts=q.ts|frozenset(new)
    def on_branch(s,e,q,i,c,taken,ctx,fn): s.learn(e,q)
    def descend(s,name,stack,i): return s.small_helper(s.e,name,stack)
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        out=[]
        if isinstance(rv,Bool) or (isinstance(rv,Lin) and not rv.isconst()):
            c=rv if isinstance(rv,Bool) else Bool('ne',rv)
            for b,t in ((c,True),(c.neg(),False)):
                q=st.copy()
                if st.decide(b) is not False and q.assume(b):
                    s.learn(e,q); out.append((t,q))
        elif isinstance(rv,Lin): s.learn(e,st); out.append((rv.c!=0,st))
        for t,q in out: s.rets.append((t,dict(q.ts),i.loc,rv.c if isinstance(rv,Lin) and rv.isconst() else None))

# ---------------------------------------------------------------- P03
class Screen(PathRule):
    """ts=(ip verdict, ap verdict)"""
    def __init__(s,C):
        s.proc=C.fn('IPMiscMapping_Process').name; s.blk=C.fn('MsgContext_IsBlocked').name
        s.gen=gen_answer(C); s.cache=C.fn('DNSCache_AddItemsToCache').name; s.back=C.fn('MsgContext_SendBack').name
        s.sinks=s.gen|{s.cache,s.back}
        N=('IP_MISC_NOTHING','IP_MISC_FILTERED_IP','IP_MISC_NEGATIVE_RESULT'); s.vals=dict(zip(N,C.cval('ipmisc.h',*N)))
        s.setup(C,s.sinks|{s.proc,s.blk}|RECV); s.seen=set()
    def init(s,fn): return ('?','?')
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        ev=ts&s.ev
        if not ev: return None
        if ev&s.recv: st.ts=('?','?'); return None
        if s.proc in ev:
            s.seen.add(('screen',i.loc)); out=[]
            ok=s.vals['IP_MISC_NOTHING']
            for n,v in s.vals.items():
                q=st.copy(); q.ts=('pass' if v==ok else n,q.ts[1]); q.note('%s: screening says %s'%(i.loc,n)); out.append((q,const(v)))
            q=st.copy(); x=e.fresh(q,('v',ctx,i.uid))
            for v in s.vals.values(): q.nes.add(add(x,const(-v)))
            q.ts=('an unknown verdict',q.ts[1]); out.append((q,x))
            return out
        if s.blk in ev:
            s.seen.add(('ap',i.loc))
            return s.two(e,st,ctx,i,lambda t:(t[0],'drop'),lambda t:(t[0],'pass'))
        if ev&s.sinks:
            what=sorted(s.C.name(x) for x in ev&s.sinks)[0]; s.seen.add(('sink:'+what,i.loc))
            a,b=st.ts
            if a!='pass': e.report('ip:%s'%what,'%s is reached for an answer %s'%(what,'that was not screened' if a=='?' else 'the IP screening rejected (%s)'%a),i.loc,st.trace)
            if b!='pass': e.report('ap:%s'%what,'%s is reached for an answer %s'%(what,'without the EDNS check' if b=='?' else 'the EDNS check rejected'),i.loc,st.trace)
        return None

class Verdict(PathRule):
    """inside the screening: ts=(rc, bn, parsed, goto, cur)"""
    def __init__(s,C):
        s.C=C
        s.find=C.fn('IpChunk_Find').name; s.init_=C.fn('DnsSimpleParser_Init').name; s.iinit=C.fn('DnsSimpleParserIterator_Init').name
        ft=C.P.ft
        s.next=set(ft.get(C.tag('DnsSimpleParserIterator','Next'),())); s.goto=set(ft.get(C.tag('DnsSimpleParserIterator','GotoAnswers'),()))
        s.row=set(ft.get(C.tag('DnsSimpleParserIterator','RowData'),()))
        s.rc={f for f in s.rcgetters(C)}
        if not(s.next and s.goto and s.row and s.rc): raise Broken('record iterator interface not found')
        s.root=C.fn('IPMiscMapping_Process'); s.cur=C.glob('CurrIpMiscMapping')
        s.proc=set(ft.get(C.tag('IPMisc','Process'),()))
        s.bn=C.tag('IPMisc','BlockNegative')
        it='DnsSimpleParserIterator'
        s.ftag={'P':C.tag(it,'Purpose'),'K':C.tag(it,'Klass'),'T':C.tag(it,'Type'),'D':C.tag(it,'DataLength')}
        s.ANS=C.enum('DNS_RECORD_PURPOSE_ANSWER'); s.IN=C.enum('DNS_CLASS_IN'); s.A=C.enum('DNS_TYPE_A'); s.AAAA=C.enum('DNS_TYPE_AAAA')
        s.BLOCK=C.enum('IP_MISC_TYPE_BLOCK'); s.SUB=C.enum('IP_MISC_TYPE_SUBSTITUTE')
        s.NOTHING,s.FILT,s.NEG=C.cval('ipmisc.h','IP_MISC_NOTHING','IP_MISC_FILTERED_IP','IP_MISC_NEGATIVE_RESULT')
        s.ev={s.find,s.init_,s.iinit}|s.next|s.goto|s.row|s.rc
        s.seen=set()
    def rcgetters(s,C):
        t=C.P.ft.get(C.tag('DnsSimpleParser','_Flags'))
        r=set()
        for k,v in C.P.ft.items():
            for n in v:
                if C.M.functions.get(n) and C.M.functions[n].src=='DnsSimpleParser_Flags_ResponseCode': r.add(n)
        return r or {f.name for f in C.fns('DnsSimpleParser_Flags_ResponseCode')} or {f.name for f in C.P.fns if 'ResponseCode' in f.src}
    def init(s,fn): return ('?','?','?',0,'none')
    def setv(s,st,k,v): t=list(st.ts); t[k]=v; st.ts=tuple(t)
    def descend(s,name,stack,i):
        if name in s.ev: return False
        return name in s.proc or s.small_helper(s.e,name,stack)
    def settle(s,e,st,i,fn):
        c=st.ts[4]
        if c=='fresh': e.report('unscreened','an address record of an answer is passed over without looking its address up (%s)'%fn.src,i.loc,st.trace)
        elif c=='block': e.report('blocked-passes','an answer holding a blocked address is not rejected (%s)'%fn.src,i.loc,st.trace)
        elif isinstance(c,tuple): e.report('unsubstituted','an address that has a substitute is not replaced (%s)'%fn.src,i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        # substitution
        c=st.ts[4]
        n=next(iter(ts)) if len(ts)==1 else ''
        if isinstance(c,tuple) and (n in('memcpy','memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove')):
            src=e.cell(st,Lin(*c[2])) if c[2] else None
            if args[0]==Lin(*c[1]) and args[2]==Lin(*c[3]) and src is not None and args[1]==src: s.setv(st,4,'looked')
            return None
        ev=ts&s.ev
        if not ev: return None
        if s.init_ in ev or s.iinit in ev:
            return s.two(e,st,ctx,i,lambda t:t[:2]+('bad',)+t[3:],lambda t:t[:2]+('ok' if t[2]!='bad' else 'bad',)+t[3:])
        if ev&s.rc:
            s.seen.add(('rcode',i.loc))
            return s.two(e,st,ctx,i,lambda t:('nz',)+t[1:],lambda t:('zero',)+t[1:])
        if ev&s.goto: s.setv(st,3,1); return None
        if ev&s.next:
            s.seen.add(('record',i.loc)); s.settle(e,st,i,fn)
            e.opaque(st,i,list(ev),args,ctx)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); s.setv(a,4,'fresh')
            s.setv(st,4,'end')
            return [(a,v),(st,ZERO)]
        if s.find in ev:
            s.seen.add(('lookup',i.loc)); out=[]
            st.note('%s: address looked up'%i.loc)
            for n,k in((4,s.A),(16,s.AAAA)):
                if any(st.decide(Bool('eq',add(v,const(-k)))) is True for v in s.fieldval(st,s.ftag['T'])) and st.decide(Bool('eq',add(args[2],const(-n)))) is not True: e.report('width:%d'%n,'an address of %d bytes is not looked up with all its bytes'%n,i.loc,st.trace)
            q=st.copy(); s.setv(q,4,'looked'); out.append((q,ZERO))
            for k in(s.BLOCK,s.SUB,None):
                q=st.copy(); v=e.fresh(q,('v',ctx,i.uid)); q.nes.add(v)
                e.kill_region(q,args[4])
                x=e.fresh(q,('v',ctx,i.uid,'data')); e.store(q,args[4],None,x,8)
                if k is None:
                    y=e.fresh(q,('v',ctx,i.uid,'act')); q.nes.add(add(y,const(-s.BLOCK))); q.nes.add(add(y,const(-s.SUB))); e.store(q,args[3],None,y,4); s.setv(q,4,'looked')
                else:
                    e.store(q,args[3],None,const(k),4)
                    s.setv(q,4,'block' if k==s.BLOCK else ('sub',tuple(args[1]),tuple(args[4]),tuple(args[2])))
                    q.note('%s: the address is %s'%(i.loc,'blocked' if k==s.BLOCK else 'to be substituted'))
                out.append((q,v))
            return out
        return None
    def key(s,st):
        if st.ts[4]!='fresh': return st.ts
        return (st.ts,tuple(st.decide(Bool('eq',add(v,const(-k)))) is True for v in s.fieldval(st,s.ftag['T']) for k in(s.A,s.AAAA)))
    def fieldval(s,st,tag):
        for k,(v,(t,_)) in st.mem.items():
            if t==tag and isinstance(v,Lin): yield st.norm(v)
    def on_branch(s,e,q,i,c,taken,ctx,fn):
        if q.ts[1]=='?':
            for v in s.fieldval(q,s.bn):
                if v.isconst(): s.setv(q,1,'off' if v.c==0 else 'on')
                elif q.decide(Bool('ne',v)): s.setv(q,1,'on')
        if q.ts[4]=='fresh':
            ne=lambda tag,k: any(q.decide(Bool('ne',add(v,const(-k)))) for v in s.fieldval(q,tag))
            if ne(s.ftag['P'],s.ANS): s.setv(q,4,'notanswer')
            elif ne(s.ftag['K'],s.IN) or (ne(s.ftag['T'],s.A) and ne(s.ftag['T'],s.AAAA)): s.setv(q,4,'exempt')
            else:
                for v in s.fieldval(q,s.ftag['D']):      # too short to hold the address at all
                    if q.prove_le(add(v,const(-3))) or (ne(s.ftag['T'],s.A) and q.prove_le(add(v,const(-15)))): s.setv(q,4,'exempt'); break
        if q.ts[2]=='?':
            v=e.cell(q,sym(('G',s.cur.name)))
            if v is not None and v.isconst() and v.c==0: s.setv(q,2,'nomap')
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if fn.name in s.proc or root:
            if not isinstance(rv,Lin) or not rv.isconst(): return
            s.seen.add(('verdict%d'%rv.c,i.loc))
        if not root: return
        rc,bn,pa,go,cur=st.ts
        if rv.c!=s.NOTHING:
            if rv.c==s.FILT and cur!='block': e.report('false-filter','an answer without a blocked address is rejected as filtered',i.loc,st.trace)
            if rv.c==s.NEG and not(bn=='on' and rc=='nz'): e.report('false-negative','a %s answer is rejected as negative'%('successful' if rc=='zero' else 'possibly successful') if bn=='on' else 'an answer is rejected as negative although that is not configured',i.loc,st.trace)
            return
        if pa in('bad','nomap'): return
        if bn!='off' and rc!='zero': e.report('negative-passes','a negative answer passes although negative answers are blocked',i.loc,st.trace)
        s.settle(e,st,i,fn)
        if not(cur=='end' or (cur=='notanswer' and go)):
            if cur in('none','looked','exempt'): e.report('unfinished','the screening ends before every answer record was looked at (%s)'%cur,i.loc,st.trace)
            elif cur=='notanswer': e.report('notanswers','the screening starts before the answer records and ends at the first other record',i.loc,st.trace)

class Prefix(Rule):
    """the length kept for a range is the one written, when it is one the address can have"""
    nogc=True
    NUM={'atoi','atol','strtol','strtoul','atoll'}
    def __init__(s,C,bl): s.C=C; s.tag=C.tag('IpSet','PrefixBits'); s.bl=bl; s.seen=set()
    def init(s,fn): return (None,None)
    def key(s,st):
        n,b=st.ts
        if n is None or b is None: return st.ts
        return st.ts+(st.decide(Bool('lt',n)),st.decide(Bool('lt',sub(const(b),n))))
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if ts and ts<=s.NUM:
            e.opaque(st,i,list(ts),args,ctx); v=st.env.get((ctx,i.uid))
            st.ts=(v if isinstance(v,Lin) else None,st.ts[1]); return [(st,v)]
        return None
    def on_leave(s,e,st,i,f,rv,ctx):
        if f.name in s.bl and isinstance(rv,Lin) and rv.isconst(): st.ts=(st.ts[0],rv.c)
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag!=s.tag or not isinstance(v,Lin): return
        n,b=st.ts
        if n is None or b is None: return
        s.seen.add(('length of a range',i.loc))
        if st.decide(Bool('eq',sub(v,n))): return
        if st.decide(Bool('lt',n)) or st.decide(Bool('lt',sub(const(b),n))): return
        e.report('prefix','a range of %d bit addresses is kept with another length than the one written'%b,i.loc,st.trace)
    def descend(s,name,stack,i): return name in s.bl or s.small_helper(s.e,name,stack)
def prefix_rule(C,R):
    tag=C.tag('IpSet','PrefixBits'); bl={f.name for f in C.fns('IpAddr_BitLength')}; num=C.P.reaching(Prefix.NUM)
    for f in C.P.fns:
        if f.name in num and any(i.op=='store' and tag_of(i.ops[1])==tag for i in f.instrs()):
            r=Prefix(C,bl); e=Engine(C.P,r); e.run(f); R.take(e,'prefix:%s:'%f.src)
            for k,l in sorted(r.seen): R.ok('%s: %s at %s is the one written'%(f.src,k,l))
def P03(C,R,tier):
    prefix_rule(C,R)
    ws=workers(C); R.need(len(ws),2,'threads receiving upstream answers')
    for f in ws:
        r=Screen(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        kinds={k for k,_ in r.seen}
        if not e.violations: R.need(len([k for k in kinds if k.startswith('sink')]),3,'%s: uses of the answer'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    r=Verdict(C); e=Engine(C.P,r); e.run(r.root); R.take(e,'verdict:')
    kinds={k for k,_ in r.seen}
    if not e.violations:
        for k in('rcode','record','lookup'):
            if k not in kinds: raise Broken('screening: no %s step found'%k)
    for k,l in sorted(r.seen): R.ok('screening: %s at %s'%(k,l))
    a=Atoms({'ap':(('G',C.glob('ap').name),0),'edns':(C.tag('IHeader','EDNSEnabled'),0)})
    e=Engine(C.P,a); f=C.fn('MsgContext_IsBlocked'); e.run(f); R.take(e)
    if not a.rets: raise Broken('MsgContext_IsBlocked: no result')
    for t,k,l,_ in a.rets:
        need=(k.get('ap') is False and k.get('edns') is True)   # ap on, edns off
        free=(k.get('ap') is True or k.get('edns') is False)
        if t and not need: R.violation('isblocked:drops','an answer is dropped as forged although the check is off or EDNS is present (known: %s)'%k,l)
        elif not t and not free: R.violation('isblocked:passes','an answer without EDNS passes although the check is on (known: %s)'%k,l)
        else: R.ok('MsgContext_IsBlocked: result %s under %s'%(t,sorted(k.items())))
    from .transport import fill_rule
    fill_rule(C,R,('edns',))
    from .structures import address_rule
    address_rule(C,R)
    from .loader import addresses
    addresses(C,R)

# ---------------------------------------------------------------- P04
class Matched(PathRule):
    """ts: outcome of the last pending lookup since the last reception: '?', 'hit', 'miss', 'used'"""
    def __init__(s,C):
        s.gen=gen_answer(C); s.back=C.fn('MsgContext_SendBack').name; s.mm=C.fn('MMgr_Send').name
        s.cache=C.fn('DNSCache_AddItemsToCache').name
        s.setup(C,s.gen|{s.back,s.mm,s.cache}|RECV); s.seen=set()
    def init(s,fn): return '?'
    def descend(s,name,stack,i):
        if name==s.mm: return False
        return PathRule.descend(s,name,stack,i)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        ev=ts&s.ev
        if not ev: return None
        if ev&s.recv: st.ts='?'; return None
        if ev&s.gen:
            s.seen.add(('lookup',i.loc)); e.opaque(st,i,list(ev),args,ctx)
            r=s.two(e,st,ctx,i,lambda t:'miss',lambda t:'hit')
            r[0][0].note('%s: no pending query'%i.loc); r[1][0].note('%s: pending query found'%i.loc)
            return r
        if s.back in ev:
            s.seen.add(('reply',i.loc))
            if st.ts!='hit':
                e.report('reply:'+st.ts,{'?':'a received message is sent to a client without looking up a pending query','miss':'a received message that matches no pending query is sent to a client','used':'one pending query is answered twice'}[st.ts],i.loc,st.trace)
            st.ts='used'; return None
        if s.cache in ev:
            s.seen.add(('store',i.loc))
            # the second argument says whether the answer belongs to a pending query
            a=args[1]; z=st.decide(Bool('eq',a))
            if st.ts=='miss' and z is not True: e.report('store','an answer that matches no pending query is stored as if it did',i.loc,st.trace)
            if st.ts=='?': e.report('store-early','an answer is offered to the cache before looking up the pending query',i.loc,st.trace)
        return None

class GenAns(Rule):
    """inside the lookup: ts=(found, copied, deleted, length kept, edns kept)"""
    def __init__(s,C):
        s.C=C; s.search=set(C.P.ft.get(C.tag('Bst','Search'),())); s.dele=set(C.P.ft.get(C.tag('Bst','Delete'),()))
        if not s.search or not s.dele: raise Broken('pending table interface not found')
        s.size=C.cval('iheader.h','sizeof(IHeader)'); s.el=C.tag('IHeader','EntityLength'); s.ed=C.tag('IHeader','EDNSEnabled')
        s.seen=set(); s.pre=set(); s.ins=set(C.P.ft.get(C.tag('Bst','Add'),()))
    def init(s,fn): return ('?',0,0,'in','in')
    def descend(s,name,stack,i): return name not in s.search|s.dele|s.ins and s.C.M.functions[name].file==s.C.M.functions[stack[-1]].file
    def on_load(s,e,st,i,a,tag,ctx,fn):
        if tag in(s.el,s.ed) and not st.ts[1]: s.pre.add(i.uid)
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if st.ts[0]=='hit' and not st.ts[1] and st.x is not None and sub(a,st.x).isconst(): e.report('changed','the pending query found is changed before its header is copied',i.loc,st.trace)
        k={s.el:3,s.ed:4}.get(tag)
        if k and a==add(s.out,const(tag[1])):
            o=e.src(v) if isinstance(v,Lin) else (None,None)
            x=v[1][0][0] if isinstance(v,Lin) and len(v[1])==1 else None
            while isinstance(x,tuple) and x and x[0]=='o': x=x[1]
            good=o[0]==tag and isinstance(x,tuple) and x[0]=='v' and x[2] in s.pre and o[1]==add(s.inp,const(tag[1]))
            t=list(st.ts); t[k]='in' if good else 'bad'; st.ts=tuple(t)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=next(iter(ts)) if len(ts)==1 else ''
        if ts&s.search:
            s.seen.add(('search',i.loc))
            if args[1]!=s.inp: e.report('key','the pending table is searched for something else than the received message',i.loc,st.trace)
            a=st.copy(); v=e.fresh(a,('v',ctx,i.uid)); a.nes.add(v); a.ts=('hit',)+a.ts[1:]; a.x=v
            st.ts=('miss',)+st.ts[1:]
            return [(a,v),(st,ZERO)]
        if n in('memcpy','memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if args[0]==s.out:
                s.seen.add(('copy',i.loc))
                if st.ts[0]!='hit' or args[1]!=st.x: e.report('copysrc','the reply header is not taken from the pending query that was found',i.loc,st.trace)
                if not(args[2].isconst() and args[2].c==s.size): e.report('copylen','the reply header is copied with length %s, not the size of the header'%(args[2],),i.loc,st.trace)
                if st.ts[2]: e.report('copylate','the pending query is removed before its header is copied',i.loc,st.trace)
                st.ts=(st.ts[0],1,st.ts[2],'stored','stored')
            return None
        if ts&s.ins and st.ts[0]!='?': e.report('readd','an answered query is entered again as pending',i.loc,st.trace)
        if st.ts[0]=='hit' and not st.ts[1] and not ts&s.dele:
            from .replies import writes_arg
            for k,x in enumerate(args):
                if isinstance(x,Lin) and sub(x,st.x).isconst() and any(t in s.C.M.functions and writes_arg(s.C,s.C.M.functions[t],k) for t in ts): e.report('changed','the pending query found is changed before its header is copied',i.loc,st.trace)
        if ts&s.dele:
            s.seen.add(('delete',i.loc))
            if st.ts[0]!='hit' or args[1]!=st.x:
                e.report('delother','something else than the pending query that was found is removed',i.loc,st.trace)
            st.ts=st.ts[:2]+(min(2,st.ts[2]+1),)+st.ts[3:]
        return None
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else None
        f,c,d,l,ed=st.ts
        if z is not False:
            if f!='hit': e.report('false-hit','the lookup succeeds without having found a pending query',i.loc,st.trace)
            else:
                if not c: e.report('nocopy','the lookup succeeds without copying the client\'s header',i.loc,st.trace)
                if d!=1: e.report('nodelete','a pending query that was answered %s'%('stays pending and can be answered again' if d==0 else 'is removed twice'),i.loc,st.trace)
                if l!='in': e.report('length','the reply length is that of the stored query, not of the received answer',i.loc,st.trace)
        if z is not True and f!='miss': e.report('false-miss','the lookup fails although a pending query was found',i.loc,st.trace)

def argsym(fn,k): return sym(('u',(fn.name,),('arg',k)))

def P04(C,R,tier):
    from .transport import fill_rule
    fill_rule(C,R,('name:case','name:named','name:lower'))
    roots=C.threads_reaching(gen_answer(C)); R.need(len(roots),3,'threads that answer pending queries')
    for f in roots:
        r=Matched(C); e=Engine(C.P,r); e.run(f); R.take(e,f.src+':')
        kinds={k for k,_ in r.seen}
        if not e.violations and not {'lookup','reply'}<=kinds: raise Broken('%s: no lookup/reply'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
    for n in sorted(gen_answer(C)):
        f=C.M.functions[n]; r=GenAns(C)
        for alias in (False,True):     # callers pass one buffer as both input and output, or two
            r=GenAns(C); e=Engine(C.P,r); st=State(); st.ts=r.init(f)
            r.inp=argsym(f,1); r.out=argsym(f,1) if alias else argsym(f,2)
            st.env[((f.name,),('arg',1))]=r.inp; st.env[((f.name,),('arg',2))]=r.out
            e.run(f,init=st); R.take(e,'%s:'%f.src)
            kinds={k for k,_ in r.seen}
            if not e.violations and not {'search','copy','delete'}<=kinds: raise Broken('%s: steps missing'%f.src)
            for k,l in sorted(r.seen): R.ok('%s (%s): %s at %s'%(f.src,'in place' if alias else 'two buffers',k,l))
    # the table that holds pending queries
    from .structures import equal_rule,tree_rule
    equal_rule(C,R,'ModuleContext_Init',[('id',C.cval('iheader.h','sizeof(IHeader)'),2),('name hash',C.off('IHeader','HashValue'),4)])
    tree_rule(C,R)
    from .replies import alias_rule
    alias_rule(C,R)
