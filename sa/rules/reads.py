"""P09: reading a DNS message never leaves the message."""
from ..flow import Rule, Engine, State, Bool, Lin, ZERO, const, add, sub, scale, sym, base_of, atoms, flat, rename
from ..common import Broken
from ..cg import strip, tag_of
from .bounds import Bounds, argsym, S
import re
RDARG={'memcpy':(1,2),'memmove':(1,2),'memcmp':(0,2),'send':(1,2),'sendto':(1,2),'write':(1,2)}
def rdarg(n):
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'): return (1,2)
    return RDARG.get(n)
FIXED={'IPv4AddressToAsc':4,'IPv6AddressToAsc':16}
STRINGS={'strlen','strcpy','strcat','strcmp','strncpy','strchr','strstr','strcasecmp'}
PARSER='struct _DnsSimpleParser*'; ITER='struct _DnsSimpleParserIterator*'
QUESTION=('DNS_RECORD_PURPOSE_QUESTION',)

def pairs(C):
    """(text, length) parameter pairs a function only reads through"""
    K={}
    for f in C.P.fns:
        if len(f.params)!=len(f.args): continue
        for k in range(len(f.args)-1):
            n,t=f.params[k]; m,u=f.params[k+1]
            if t in('char*','unsigned char*','void*') and u in('int','unsigned long','unsigned int','long') and re.search('len|size|bytes',m,re.I) and k not in C.P.amod.get(f.name,()): K.setdefault(f.name,[]).append((k,k+1))
    return K

class Reads(Bounds):
    step_limit=60000; fm=True
    def __init__(s,C,K):
        super().__init__(C,{}); s.RK=K
        s.po={n:C.off('DnsSimpleParser',n) for n in('RawDns','RawDnsLength')}; s.pt=C.tag('DnsSimpleParser','RawDns')[0]
        s.io={n:C.off('DnsSimpleParserIterator',n) for n in('Parser','CurrentPosition','RecordPosition','Purpose','DataLength')}; s.it=C.tag('DnsSimpleParserIterator','Parser')[0]
        s.isz={'Parser':8,'CurrentPosition':8,'RecordPosition':4,'Purpose':4,'DataLength':4}
        s.pinit={f.name for f in C.fns('DnsSimpleParser_Init')}; s.iinit={f.name for f in C.fns('DnsSimpleParserIterator_Init')}
        s.slot={}
        for n in('Next','GotoAnswers','GetName','RowData','TextifyData','ToCacheData','GetTTL'):
            for f in C.P.ft.get(C.tag('DnsSimpleParserIterator',n),()): s.slot[f]=n
        s.host={f.name for f in C.fns('DNSGetHostName')}; s.copyl={f.name for f in C.fns('DNSCopyLable')}; s.jump={f.name for f in C.fns('DNSJumpOverName')}
        s.q=C.enum('DNS_RECORD_PURPOSE_QUESTION')
        s.heads={f.name:(3,4) for f in C.fns('DnsGenerator_Init')}     # a message to start from is at least a header
        s.flags=None; s.used=set()
    # ---- facts
    def region(s,st,p,l,own=False): st.env[S('rd',p,'own') if own else S('rd',p)]=l; st.ineqs.add(scale(l,-1))
    def nl(s,st,a):
        """the length of the name that starts at a"""
        v=sym(('d','namelen',tuple(st.norm(a)),())); return v
    def named(s,st,a): return st.env.get(S('named',st.norm(a)))
    def name(s,st,a):
        v=s.nl(st,a); st.env[S('named',st.norm(a))]=v; st.ineqs.add(add(const(1),v,-1)); return v
    def parser(s,st,P,M,ML,own=False):
        st.mem[(add(P,const(s.po['RawDns'])),None)]=(M,((s.pt,s.po['RawDns']),8))
        st.mem[(add(P,const(s.po['RawDnsLength'])),None)]=(ML,((s.pt,s.po['RawDnsLength']),4))
        if not own or S('rd',M) not in st.env: s.region(st,M,ML,own)
    def put(s,st,g,n,v): st.mem[(add(g,const(s.io[n])),None)]=(v,((s.it,s.io[n]),s.isz[n]))
    def get(s,st,g,n): return s.e.cell(st,add(g,const(s.io[n])))
    def msg(s,st,g):
        P=s.get(st,g,'Parser'); g=st.norm(g)
        if P is None:                          # nothing but the initialisation changes which message is walked
            M,ML=st.env.get(S('itM',g)),st.env.get(S('itL',g))
            return (st.norm(M),st.norm(ML)) if M is not None and ML is not None else None
        M=s.e.cell(st,add(P,const(s.po['RawDns']))); ML=s.e.cell(st,add(P,const(s.po['RawDnsLength'])))
        if M is None or ML is None: return None
        st.env[S('itM',g)]=M; st.env[S('itL',g)]=ML
        return (M,ML)
    def record(s,st,g,pos,D,question,M,ML,tag):
        """the current record of g lies inside the message"""
        pos=st.norm(pos)
        nl=s.name(st,pos); s.put(st,g,'CurrentPosition',pos); s.put(st,g,'DataLength',D)
        f=[add(sub(M,pos),const(12)),add(const(0),nl,-1)]
        end=sub(add(pos,nl),add(M,ML))
        if question: s.put(st,g,'Purpose',const(s.q)); f.append(add(end,const(4)))
        else:
            u=sym(('pu',tag)); st.forget(('pu',tag)); s.put(st,g,'Purpose',u); st.nes.add(add(u,const(-s.q)))
            f+=[add(add(end,const(10)),D),scale(D,-1),add(D,const(-65535))]
        f.append(add(sub(pos,add(M,ML)),const(5)))
        # the record the walk started with
        n0=s.name(st,add(M,const(12))); f.append(add(sub(n0,ML),const(16)))
        for x in f:
            x=st.norm(x)
            if not x.isconst(): st.ineqs.add(x)
        st.env[S('rec',g)]=const(1)
    def iterator(s,st,g,question,P):
        M,ML=sym(('M',)),sym(('ML',))
        s.parser(st,P,M,ML); st.ineqs.add(add(const(12),ML,-1)); st.nes.add(M)
        s.put(st,g,'Parser',P)
        if question is None: s.put(st,g,'CurrentPosition',ZERO); s.put(st,g,'RecordPosition',ZERO)
        else:
            st.nes.add(sym(('pos',))); s.record(st,g,sym(('pos',)),sym(('D',)),question,M,ML,'arg')
    # ---- starting states
    def starts(s,e,fn):
        C=s.C; s.e=e; s.root=fn; base=State(); base.ts=('',)
        for k in range(len(fn.args)): base.env[((fn.name,),('arg',k))]=argsym(fn,k)
        for p,l in s.RK.get(fn.name,()): s.region(base,argsym(fn,p),argsym(fn,l)); base.nes.add(argsym(fn,p))
        ip=[k for k,(n,t) in enumerate(fn.params) if t==ITER]; pp=[k for k,(n,t) in enumerate(fn.params) if t==PARSER]
        if fn.name in s.host:
            out=[]
            for buf in(False,True):
                st=base.copy(); a=[argsym(fn,k) for k in range(5)]
                st.nes.add(a[0]); st.nes.add(a[2]); st.ineqs.add(sub(a[0],a[2])); st.ineqs.add(add(const(1),a[0],-1)); st.ineqs.add(add(const(1),a[2],-1))
                if buf: st.nes.add(a[3])
                else: st.assume(Bool('eq',a[3]))
                st.ts=(buf,); out.append(st)
            return out
        if fn.name in s.copyl:
            a=[argsym(fn,k) for k in range(4)]; base.nes.add(a[0]); base.nes.add(a[3]); base.ineqs.add(sub(a[0],a[3])); return [base]
        if fn.name in s.jump: s.name(base,argsym(fn,0)); base.nes.add(argsym(fn,0)); return [base]
        if fn.name in s.heads: base.ineqs.add(add(const(12),argsym(fn,s.heads[fn.name][1]),-1))
        if fn.name in s.pinit: base.assume(Bool('eq',argsym(fn,3))); return [base]
        if ip and fn.name not in s.iinit:
            g=argsym(fn,ip[0]); P=sym(('P',)); out=[]; base.nes.add(P); base.nes.add(g)
            cases=[None,True,False] if s.slot.get(fn.name) in('Next','GotoAnswers') else ([True,False] if s.anyrec(fn) else [False])
            for q in cases:
                st=base.copy(); s.iterator(st,g,q,P); st.ts=('q' if q else 'r' if q is False else 'n',)
                k=ip[0]+1
                if k<len(fn.params) and fn.params[k][1]=='char*' and fn.name not in s.slot and fn.name in s.dataparam(): s.data(st,fn,k,g)
                out.append(st)
            return out
        if pp:
            s.parser(base,argsym(fn,pp[0]),sym(('M',)),sym(('ML',))); base.ineqs.add(add(const(12),sym(('ML',)),-1)); base.nes.add(sym(('M',)))
        return [base]
    def anyrec(s,fn): return s.slot.get(fn.name) in('GetName','RowData')
    def dataparam(s):
        """parsers of record data: functions of (iterator, data, ...) used through a table or chosen by type"""
        r=s.C.__dict__.get('_dataparam')
        if r is None:
            r=s.C._dataparam={f.name for f in s.C.P.fns if len(f.params)>3 and f.params[0][1]==ITER and f.params[1][1]=='char*' and f.internal and f.name not in s.slot and 1 not in s.C.P.amod.get(f.name,())}
        return r
    def data(s,st,fn,k,g):
        d=argsym(fn,k); st.nes.add(d)
        M,ML=s.msg(st,g)
        st.ineqs.add(sub(M,d))
        if k+1<len(fn.params) and fn.params[k+1][1]=='int*':
            L=sym(('DL',)); p=argsym(fn,k+1); st.mem[(p,None)]=(L,(('DL',0),4)); st.nes.add(p)
        else: L=s.get(st,g,'DataLength')
        s.region(st,d,L); st.ineqs.add(sub(add(d,L),add(M,ML)))
    def gc_(s): pass
    def key(s,st):
        if s.flags is None:
            s.flags=[]
            for f in (s.root,):
                ph={i.uid:i for i in f.instrs() if i.op=='phi'}; ok=set(ph)
                ch=True
                while ch:
                    ch=False
                    for u in list(ok):
                        for v,_ in ph[u].incoming:
                            v=strip(v)
                            if v.kind=='const' and v.v in(0,1): continue
                            if v.kind=='instr' and v.uid in ok: continue
                            ok.discard(u); ch=True; break
                s.flags=[((f.name,),u) for u in sorted(ok)][:6]
        r=[]
        for k in s.flags:
            v=st.env.get(k)
            r.append(v.c if isinstance(v,Lin) and v.isconst() else None)
        if s.slot.get(s.root.name)=='Next':
            p=s.get(st,argsym(s.root,0),'Purpose')
            r.append(st.decide(Bool('eq',add(p,const(-s.q)))) if p is not None else None)
        return (st.ts,tuple(r))
    def joinoff(s,st,v):
        return any(k[0]=='ghost' and k[1][0]=='rd' and len(k[1][1][1])==1 and k[1][1][1][0] in v[1] for k in st.env)
    def joincand(s,e,a,b,x,v,w):
        r=set()
        for st,l in((a,v),(b,w)):
            for k,c in st.env.items():
                if k[0]=='ghost' and k[1][0]=='rd':
                    p=k[1][1]
                    if len(p[1])==1 and dict(l[1]).get(p[1][0][0])==p[1][0][1]:
                        r|={sub(sub(x,p),c),add(sub(sub(x,p),c),const(1)),add(p,x,-1)}
                    if s.root.name in s.host|s.copyl: r|={sub(sub(x,p),c),add(sub(sub(x,p),c),const(1)),add(p,x,-1)}
                    if s.root.name in s.host: r.add(add(sub(sub(add(x,argsym(s.root,2)),p),c),const(-1)))
                    if not l[1] or not any(t in l[1] for t in p[1]): r.add(sub(x,c))
        return r
    def descend(s,name,stack,i):
        if name in s.jump: return True
        if name in s.slot or name in s.pinit|s.iinit|s.host|s.copyl or name in s.dataparam(): return False
        f=s.C.M.functions[name]
        if any(t in(ITER,) for _,t in f.params) and f.name not in s.iinit and not (f.internal and len(s.C.P.sites.get(f.name,()))): return False
        return s.small_helper(s.e,name,stack)
    # ---- judging
    def rds(s,st,a):
        out=[]
        for k,c in st.env.items():
            if k[0]=='ghost' and k[1][0]=='rd':
                p=st.norm(k[1][1])
                if p[1] and all(t in a[1] for t in p[1]): out.append((p,c,k[1][-1]=='own'))
        return out
    def inside(s,st,a,n,p,c): return st.prove_le(sub(p,a)) and st.prove_le(sub(add(sub(a,p),n),c))
    def rcheck(s,e,st,i,ctx,a,v,n,what):
        key=(i.fn.src,i.loc,what)
        a=st.norm(a); n=st.norm(n)
        if n.isconst() and n.c==0: return
        rs=s.rds(st,a)
        if not rs:                      # an address only related to the message through what was proven about it
            if any(k[0]=='ghost' and k[1][0]=='rd' and s.inside(st,a,n,st.norm(k[1][1]),c) for k,c in list(st.env.items())): s.good(i,what)
            elif v is not None and s.walks(i.fn,v): s.fail(i,what,'%s through a pointer into the message that may have left it'%what.split(':')[0],st)
            else: s.done.setdefault(key,'?')
            return
        if any(s.inside(st,a,n,p,c) for p,c,_ in rs): s.good(i,what); return
        rs=[(p,c) for p,c,own in rs if not(own and (st.prove_le(add(sub(a,p),const(1))) or st.prove_le(sub(add(p,c),a))))]    # what lies around a message in its own buffer
        if not rs: s.done.setdefault(key,'?'); return
        if s.done.get(key)!='BAD':
            s.done[key]='BAD'; p,c=rs[0]; s.bad.append((key,i,st.norm(add(sub(a,p),n)),c,list(st.trace)))
    def walks(s,f,v):
        """does the pointer come from walking the message this function was given"""
        if f is not s.root: return False
        m=set()
        if f.name in s.host: m={0,2}
        elif f.name in s.copyl: m={0,3}
        elif f.name in s.dataparam(): m={1}
        else: m={p for p,_ in s.RK.get(f.name,())}
        if not m: return False
        seen=set(); w=[v]; roots=set()
        while w:
            x=strip(w.pop())
            if id(x) in seen: continue
            seen.add(id(x))
            if x.kind=='arg': roots.add(x.i)
            elif x.kind=='instr' and x.op=='phi': w+=[y for y,_ in x.incoming]
            elif x.kind=='instr' and x.op=='gep': w.append(x.ops[0])
            elif x.kind=='instr' and x.op=='select': w+=x.ops[1:]
            elif x.kind=='const': pass
            else: roots.add(None)
        return bool(roots) and roots<=m
    def fail(s,i,what,msg,st):
        key=(i.fn.src,i.loc,what)
        if s.done.get(key)!='BAD': s.done[key]='BAD'; s.bad.append((key,i,msg,None,list(st.trace)))
    def good(s,i,what):
        key=(i.fn.src,i.loc,what)
        if s.done.get(key) in(None,'?'): s.done[key]='ok'
    def on_load(s,e,st,i,a,tag,ctx,fn):
        if s.rds(st,a) or any(isinstance(x,tuple) and x[0]=='d' and x[1]=='namelen' for x,_ in a[1]) or s.walks(i.fn,i.ops[0]): s.rcheck(e,st,i,ctx,a,i.ops[0],const(i.ty.size or 1),'load')
    def on_store(s,e,st,i,a,tag,v,ctx,fn): pass
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        C=s.C; n=next(iter(ts)) if len(ts)==1 else ''
        rd=rdarg(n)
        if rd:
            for k in((rd[0],1) if n=='memcmp' else (rd[0],)):
                if s.rds(st,st.norm(args[k])) or s.walks(i.fn,i.ops[k]): s.rcheck(e,st,i,ctx,args[k],i.ops[k],args[rd[1]],n)
            return None
        if n in STRINGS:
            for k,a in enumerate(args):
                if a[1] and i.ops[k] is not None and s.msgptr(st,st.norm(a)): s.fail(i,n,'the message is read as text up to a terminator it need not have',st)
            return None
        for t in ts:
            if C.name(t) in FIXED and s.rds(st,st.norm(args[0])): s.rcheck(e,st,i,ctx,args[0],i.ops[0],const(FIXED[C.name(t)]),C.name(t))
            for p,l in s.RK.get(t,()):
                if t in s.host and args[0].isconst(): continue
                if p<len(args) and l<len(args) and s.msgptr(st,st.norm(args[p])): s.used.add(t); s.rcheck(e,st,i,ctx,args[p],i.ops[p],args[l],'call:%s:%d'%(C.name(t),p))
            if t in s.heads:
                p,l=s.heads[t]; a=st.norm(args[p])
                if not a.isconst():
                    if st.prove_le(add(const(12),args[l],-1)): s.good(i,'header')
                    elif s.rds(st,a) and st.prove_le(add(args[l],const(-11))): s.fail(i,'header','a message shorter than a header is copied',st)
                    else: s.done.setdefault((i.fn.src,i.loc,'header'),'?')
        if ts&s.pinit: return s.do_pinit(e,st,i,ts,args,ctx)
        if ts&s.iinit:
            g,P=args[0],args[1]
            bad=st.copy(); v=e.fresh(bad,('v',ctx,i.uid)); bad.nes.add(v); e.kill_region(bad,g); bad.ts=('bad',)
            e.kill_region(st,g); st.env.pop(S('rec',g),None); s.put(st,g,'Parser',P); s.put(st,g,'CurrentPosition',ZERO); s.put(st,g,'RecordPosition',ZERO); s.msg(st,g); st.ts=('n',)
            return [(bad,v),(st,ZERO)]
        if ts&s.host: return s.do_host(e,st,i,ts,args,ctx)
        if ts&s.copyl:
            s.starts_in(st,i,args[0],args[3],C.name(n))
            v=sym(('d','copylable',(tuple(args[0]),tuple(args[1])),tuple(args[3])))
            st.ineqs.add(add(v,const(-255))); st.ineqs.add(add(const(-1),v,-1))
            return [(st,v)]
        sl={s.slot[t] for t in ts if t in s.slot}
        if len(sl)==1 and len(ts)>=1: return s.do_slot(e,st,i,ts,args,ctx,next(iter(sl)))
        for t in ts:
            f=C.M.functions.get(t)
            if f is None or f.decl: continue
            for k,(pn,pt) in enumerate(f.params):
                if pt==ITER and k<len(args) and t not in s.slot and t not in s.iinit and not s.descend(t,stack,i):
                    s.need_record(e,st,i,args[k],C.name(t),t not in s.dataparam())
                    if t in s.dataparam(): s.do_data(e,st,i,t,args,ctx)
        if ts and ts<=s.dataparam() and all(s.lefty(t) for t in ts):
            L=e.cell(st,args[2]); ks=[e.renamed(a,ctx,i) for a in args]; rec=[(k,v) for k,v in st.env.items() if k[0]=='ghost']
            e.opaque(st,i,list(ts),args,ctx)
            bad=st.copy(); v=e.fresh(bad,('v',ctx,i.uid)); bad.ineqs.add(v); bad.ts=tuple(st.ts)+('e',) if len(st.ts)<4 else st.ts
            if L is not None:
                x=('v',ctx,i.uid,'left'); st.forget(x); n=sym(x); L=L if x not in atoms(L) else rename(L,x,('o',x))
                st.ineqs.add(st.norm(sub(n,L))); e.store(st,ks[2],None,n,4)
            v=e.fresh(st,('v',ctx,i.uid)); st.ineqs.add(sub(const(1),v))
            return [(bad,v),(st,v)]
        return None
    def lefty(s,t):
        f=s.C.M.functions[t]; return len(f.params)>2 and f.params[2][1]=='int*'
    def msgptr(s,st,a): return any(not own or s.inside(st,a,const(1),p,c) for p,c,own in s.rds(st,a))
    def starts_in(s,st,i,body,name,what):
        if st.prove_le(sub(body,name)): s.good(i,'start:'+what)
        elif s.rds(st,st.norm(name)) or s.rds(st,st.norm(body)): s.fail(i,'start:'+what,'a name is looked for in front of the message it is in',st)
        else: s.done.setdefault((i.fn.src,i.loc,'start:'+what),'?')
    def do_pinit(s,e,st,i,ts,args,ctx):
        p,M,ML,tcp=args[:4]
        if not(tcp.isconst() and tcp.c==0): s.done.setdefault((i.fn.src,i.loc,'tcp'),'?'); return None
        M=e.renamed(M,ctx,i); ML=e.renamed(ML,ctx,i)
        bad=st.copy(); v=e.fresh(bad,('v',ctx,i.uid)); bad.nes.add(v); e.kill_region(bad,p); bad.ts=('bad',)
        e.kill_region(st,p); s.parser(st,p,M,ML,True); st.nes.add(M); st.ineqs.add(st.norm(add(const(12),ML,-1))); st.ts=('p',)
        return [(bad,v),(st,ZERO)]
    def do_host(s,e,st,i,ts,args,ctx):
        body,ln,name,buf=args[:4]
        if body.isconst() and body.c==0:
            if s.named(st,name) is not None: s.good(i,'skip')
            else: s.fail(i,'skip','a name is skipped that was not checked to end inside the message',st)
            if not args[3].isconst(): e.kill_region(st,args[3])
            return [(st,s.name(st,name))]
        s.starts_in(st,i,body,name,'DNSGetHostName')
        r=[]
        bad=st.copy(); v=e.fresh(bad,('v',ctx,i.uid)); bad.ineqs.add(add(v,const(1)))
        for q in(bad,st):
            if not(buf.isconst() and buf.c==0): e.kill_region(q,buf)
        bad.ts=tuple(st.ts)+('nn',) if len(st.ts)<4 else st.ts; st.ts=tuple(x for x in st.ts if x!='nn')
        nl=s.name(st,name); st.ineqs.add(st.norm(add(sub(add(name,nl),add(body,ln)),const(-1 if not(buf.isconst() is False and buf.c==0 and buf[1] and st.decide(Bool('ne',buf))) else 0))))
        return [(bad,v),(st,nl)]
    def need_record(s,e,st,i,g,what,data=False):
        if S('rec',st.norm(g)) not in st.env:
            if s.msg(st,g) is not None: s.fail(i,'record:'+what,'%s is used although there is no current record'%what,st)
            else: s.done.setdefault((i.fn.src,i.loc,'record:'+what),'?')
            return False
        if data:
            p=s.get(st,g,'Purpose')
            if p is not None and st.decide(Bool('eq',add(p,const(-s.q)))) is True:
                s.fail(i,'record:'+what,'%s is used on a question, which has no time to live and no data'%what,st); return False
            if p is None: s.done.setdefault((i.fn.src,i.loc,'record:'+what),'?'); return False
        s.good(i,'record:'+what); return True
    def do_slot(s,e,st,i,ts,args,ctx,n):
        g=st.norm(args[0]); m=s.msg(st,g)
        if n=='Next':
            if m is None: return None
            M,ML=m; cur=s.get(st,g,'CurrentPosition'); out=[]
            P=s.get(st,g,'Parser'); first=cur is not None and cur.isconst() and cur.c==0
            tag=('v',ctx,i.uid)
            for kind in('q','r','n'):
                q=st.copy()
                for o in('CurrentPosition','RecordPosition','Purpose','DataLength'): q.mem.pop((add(g,const(s.io[o])),None),None)
                q.mem={k:v for k,v in q.mem.items() if not(v[1][0] and v[1][0][0]==s.it and v[1][0][1]>=s.io['CurrentPosition'] and k[0][1]!=g[1])}
                q.env.pop(S('rec',g),None)
                if kind=='n':
                    s.put(q,g,'CurrentPosition',ZERO); q.ts=('n',); out.append((q,ZERO)); continue
                if first: pos=add(M,const(12))
                else:
                    x=tag+('pos',); q.forget(x); pos=sym(x); q.nes.add(pos)
                D=tag+('D',kind); q.forget(D)
                s.record(q,g,pos,sym(D),kind=='q',M,ML,(ctx,i.uid,kind)); q.ts=(kind,); out.append((q,pos))
            return out
        if n=='GotoAnswers':
            if m is None: return None
            for o in('CurrentPosition','RecordPosition','Purpose','DataLength'): st.mem.pop((add(g,const(s.io[o])),None),None)
            st.env.pop(S('rec',g),None)
            x=('v',ctx,i.uid,'pos'); st.forget(x); s.put(st,g,'CurrentPosition',sym(x))
            return [(st,None)]
        if m is None: return None
        if n=='GetName':
            s.need_record(e,st,i,g,n)
            pos=s.get(st,g,'CurrentPosition')
            if pos is None: return None
            return s.do_host(e,st,i,ts,[m[0],m[1],pos,args[1],args[2]],ctx)
        if n=='RowData':
            s.need_record(e,st,i,g,n)
            p=s.get(st,g,'Purpose'); pos=s.get(st,g,'CurrentPosition'); D=s.get(st,g,'DataLength')
            if p is None or pos is None: return None
            if st.decide(Bool('eq',add(p,const(-s.q)))) is True: return [(st,ZERO)]
            R=st.norm(add(add(pos,s.nl(st,pos)),const(10)))
            if D is not None: s.region(st,R,D)
            return [(st,R)]
        s.need_record(e,st,i,g,n,True)
        return None
    def do_data(s,e,st,i,t,args,ctx):
        f=s.C.M.functions[t]; g=st.norm(args[0]); D=None
        if len(f.params)>2 and f.params[2][1]=='int*':
            D=e.cell(st,args[2])
            left=True
        else: D=s.get(st,g,'DataLength'); left=False
        if D is None: s.done.setdefault((i.fn.src,i.loc,'data'),'?'); return
        s.rcheck(e,st,i,ctx,args[1],i.ops[1],D,'data:'+s.C.name(t))
        s.left=left
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        if fn.name in s.dataparam() and s.lefty(fn.name):
            n=e.cell(st,argsym(fn,2))
            if isinstance(rv,Lin) and st.prove_le(rv): return
            if n is None: s.done.setdefault((i.fn.src,i.loc,'left'),'?')
            elif st.prove_le(sub(n,sym(('DL',)))): s.good(i,'left')
            else: s.fail(i,'left','more data is reported as left than there was',st)
            return
        if fn.name in s.host:
            b,l,nm=[argsym(fn,k) for k in range(3)]
            if isinstance(rv,Lin) and st.prove_le(add(rv,const(1))): s.good(i,'result'); return
            if isinstance(rv,Lin) and st.prove_le(add(sub(add(rv,nm),add(b,l)),const(-1))) and st.prove_le(add(const(1),rv,-1)): s.good(i,'result'); return
            s.fail(i,'result','a length is reported for a name that may extend beyond the message',st)
        elif fn.name in s.copyl:
            if isinstance(rv,Lin) and (st.prove_le(add(rv,const(1))) or (st.prove_le(add(rv,const(-255))) and st.prove_le(add(const(1),rv,-1)))): s.good(i,'result')
            else: s.fail(i,'result','a copied name may be longer than 255 bytes',st)
        elif s.slot.get(fn.name)=='Next':
            g=argsym(fn,0)
            if isinstance(rv,Lin) and st.norm(rv).isconst(): s.good(i,'result'); return
            pos=s.get(st,g,'CurrentPosition'); pu=s.get(st,g,'Purpose'); D=s.get(st,g,'DataLength'); m=s.msg(st,g)
            if pos is None or m is None or pu is None: s.fail(i,'result','a record is returned whose place is unknown',st); return
            if st.norm(rv)!=st.norm(pos): s.fail(i,'result','the record returned is not the current one',st); return
            M,ML=m
            if s.named(st,pos) is None: s.fail(i,'result','a record is returned whose name was not checked',st); return
            end=sub(add(pos,s.nl(st,pos)),add(M,ML)); isq=st.decide(Bool('eq',add(pu,const(-s.q))))
            ok=st.prove_le(add(sub(M,pos),const(12)))
            for q in((True,) if isq else (False,) if isq is False else (True,False)):
                if q: ok=ok and st.prove_le(add(end,const(4)))
                else: ok=ok and D is not None and st.prove_le(add(add(end,const(10)),D)) and st.prove_le(scale(D,-1))
            if ok: s.good(i,'result')
            else: s.fail(i,'result','a record is returned that may extend beyond the message',st)
        elif fn.name in s.pinit:
            if isinstance(rv,Lin) and not(rv.isconst() and rv.c==0): return
            M=e.cell(st,add(argsym(fn,0),const(s.po['RawDns']))); ML=e.cell(st,add(argsym(fn,0),const(s.po['RawDnsLength'])))
            a,l=argsym(fn,1),argsym(fn,2)
            if M is None or ML is None: s.fail(i,'result','a parser without message',st); return
            if st.decide(Bool('eq',argsym(fn,3))) is False:
                return
            if st.prove_le(add(const(12),ML,-1)) and M==a and st.prove_le(sub(ML,l)): s.good(i,'result')
            else: s.fail(i,'result','a message shorter than its header is accepted, or a part that is not the message',st)

def analyse(C):
    r=getattr(C,'_reads',None)
    if r is not None: return r
    K=pairs(C); out={}; bad=[]; engs=[]; used=set()
    probe=Reads(C,K)
    roots=[]
    anchors=probe.host|probe.copyl|probe.pinit|set(probe.slot)|probe.dataparam()
    def closure():
        """functions that hand a (text, length) pair on to the parser"""
        done=dict((n,[(1,2)]) for n in probe.pinit); done.update((n,[(0,1)]) for n in probe.host|probe.copyl)
        ch=True
        while ch:
            ch=False
            for f in C.P.fns:
                if f.name in done: continue
                for i in f.instrs():
                    if i.op!='call': continue
                    for t in C.P.targets(i):
                        for p,l in done.get(t,()):
                            if p<len(i.ops) and l<len(i.ops):
                                a,n=strip(i.ops[p]),strip(i.ops[l])
                                if a.kind=='arg' and n.kind=='arg' and f.name not in done: done[f.name]=[(a.i,n.i)]; ch=True
        return done
    K.update(closure()); work=[]; seen=set()
    first=set(closure())
    for f in C.P.fns:
        if f.name in anchors or f.name in first or any(i.op=='call' and C.P.targets(i)&anchors for i in f.instrs()) or any(t in(ITER,PARSER) for _,t in f.params): work.append(f)
    while work:
        f=work.pop(0)
        if f.name in seen: continue
        seen.add(f.name); roots.append(f)
        p=Reads(C,K); e=Engine(C.P,p); sts=p.starts(e,f)
        for st in sts:
            r=Reads(C,K); e=Engine(C.P,r); r.e=e; r.root=f
            try: e.run(f,init=st.copy())
            except RuntimeError as x: out[(f.src,'','budget')]='?'
            engs.append(e)
            for k,v in r.done.items():
                if v!='ok' and (v=='BAD' or out.get(k)!='BAD') or k not in out: out[k]=v
            bad+=r.bad
            work+=[C.M.functions[t] for t in r.used if t in C.M.functions]
    C._reads=(out,bad,engs,[f.src for f in roots]); return C._reads

def P09(C,R,tier):
    out,bad,engs,roots=analyse(C)
    b={}
    for x in bad: b.setdefault(x[0],x)
    n=u=0
    for k,v in sorted(out.items()):
        if v=='ok': R.ok('%s: %s at %s stays inside the message'%(k[0],k[2],k[1])); n+=1
        elif v=='?': u+=1
        else:
            x=b[k]
            if isinstance(x[2],str): R.violation('outside:%s:%s'%(k[0],k[2]),x[2],k[1],x[4])
            else: R.violation('outside:%s:%s'%(k[0],k[2]),'%s reaches byte %s of %s'%(k[2],x[2],x[3]),k[1],x[4])
    R.need(n,60,'reads of messages')
    for e in engs:
        c=R.cov; c['blocks_explored']=c.get('blocks_explored',0)+e.blocks; c['instructions_interpreted']=c.get('instructions_interpreted',0)+e.steps
        c['functions_entered']=sorted(set(c.get('functions_entered',()))|e.visited_fns)
    R.cov['reads_without_known_extent']=u
    R.cov['functions_analysed']=roots
