"""P24: every configuration option is registered, read as what it is, used, and behaves as documented."""
import os, re
from ..flow import Rule, Engine, Lin, Bool, ZERO, const, sym, base_of, sub
from ..common import Broken
from ..cg import strip, tag_of

API=('ConfigAddOption','ConfigAddAlias','ConfigSetStringDelimiters','ConfigSetDefaultValue','ConfigInitInfo','ConfigOpenFile','ConfigRead','ConfigCloseFile')
GET={'ConfigGetBoolean':('BOOLEAN',),'ConfigGetInt32':('INT32',),'ConfigGetRawString':('STRING','PATH'),'ConfigGetStringList':('STRING','PATH'),'ConfigGetNumberOfStrings':('STRING','PATH')}

def text(C,l):
    """the literal a pointer value is"""
    if isinstance(l,Lin) and l.c==0 and len(l[1])==1 and l[1][0][1]==1 and l[1][0][0][0]=='G':
        g=C.M.globals.get(l[1][0][0][1])
        if g is not None and g.constant and g.string is not None: return g.string.decode('latin-1')
def strings(C,v,seen=None):
    """literals an operand can be, or None if something else too"""
    seen=seen if seen is not None else set(); v=strip(v)
    if id(v) in seen: return set()
    seen.add(id(v))
    if v.kind=='global':
        return {v.string.decode('latin-1')} if v.constant and v.string is not None else None
    if v.kind=='cexpr' and v.op=='gep': return strings(C,v.ops[0],seen)
    if v.kind=='instr' and v.op in('phi','select'):
        r=set()
        for o in (v.ops if v.op=='phi' else v.ops[1:]):
            x=strings(C,o,seen)
            if x is None: return None
            r|=x
        return r
    if v.kind=='arg':
        f=C.P.argfn(v) if hasattr(C.P,'argfn') else None
        f=f or next((f for f in C.P.fns if any(a is v for a in f.args)),None)
        if f is None: return None
        r=set()
        for c in C.P.sites.get(f.name,()):
            x=strings(C,c.ops[v.i],seen)
            if x is None: return None
            r|=x
        return r or None
    return None

class Reg(Rule):
    """records what is registered, on every path"""
    def __init__(s,C,reach): s.C=C; s.reach=reach; s.opts={}; s.alias={}; s.unknown=[]; s.late=[]; s.order=set()
    def init(s,fn): return 'before'
    def descend(s,name,stack,i): return name in s.reach and s.C.name(name) not in API
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=s.C.name(next(iter(ts))) if len(ts)==1 else ''
        if n not in API: return None
        if n in('ConfigAddOption','ConfigAddAlias'):
            k=text(s.C,args[2 if n=='ConfigAddAlias' else 1])
            if k is None: s.unknown.append(i.loc); return [(st,ZERO if i.ty.kind!='void' else None)]
            if st.ts=='read': e.report('late:'+k,'the option %s is registered after the configuration file was read'%k,i.loc,st.trace)
            if n=='ConfigAddAlias': s.alias.setdefault(k,set()).add((text(s.C,args[1]),i.loc))
            else:
                d=args[4]; t=text(s.C,d)
                b=base_of(d) if isinstance(d,Lin) else None
                dv=t if t is not None else d.c if isinstance(d,Lin) and d.isconst() else '?'
                s.opts.setdefault(k,set()).add((args[2].c if args[2].isconst() else None,args[3].c if args[3].isconst() else None,dv,i.loc))
        elif n=='ConfigSetDefaultValue':
            k=text(s.C,args[2])
            if st.ts=='read' and k: e.report('late:'+k,'the default of %s is set after the configuration file was read and replaces what it says'%k,i.loc,st.trace)
            if k: s.order.add(('default',k))
        elif n=='ConfigRead': st.ts='read'; s.order.add(('read',i.loc))
        if n=='ConfigOpenFile':
            q=st.copy(); v=e.fresh(q,('v',ctx,i.uid)); q.nes.add(v)
            return [(st,ZERO),(q,v)]
        return [(st,None if i.ty.kind=='void' else ZERO)]

def docs(path):
    """option -> (documented default or None) and the options set in the sample"""
    out={}; cur=None; body={}; sample={}
    for n,l in enumerate(open(path,'rb').read().decode('utf-8','replace').splitlines(),1):
        m=re.match(r'#\s?([A-Z]\w*)\s+[<\[]',l)
        if m: cur=m.group(1); body.setdefault(cur,[]).append(l); out.setdefault(cur,[n,None]); continue
        if l.startswith('#'):
            if cur: body[cur].append(l)
            continue
        m=re.match(r'([A-Z]\w*)\s*(.*)',l)
        if m: sample.setdefault(m.group(1),n)
        if not l.strip(): cur=None
    for k,b in body.items():
        t=' '.join(b)
        for p in (r"`(true|false)' \(default\)",r"[Dd]efault: (true|false|-?\d+)",r"The default is (-?\d+)"):
            m=re.search(p,t)
            if m: out[k][1]=m.group(1)
    return out,sample

class Read(Rule):
    """one option of a given type and strategy being given values by the file"""
    step_limit=1500000
    def __init__(s,C,T,strat,status):
        s.C=C; s.T=T; s.s0=strat; s.st0=status; s.seen=set()
        s.E={k:C.enum(k) for k in ('STRATEGY_DEFAULT','STRATEGY_REPLACE','STRATEGY_APPEND','STRATEGY_APPEND_DISCARD_DEFAULT','STATUS_DEFAULT_VALUE','STATUS_SPECIAL_VALUE','TYPE_INT32','TYPE_BOOLEAN','TYPE_STRING','TYPE_PATH','TYPE_ALIAS')}
        s.tags={C.tag('Option','Type'):'type',C.tag('Option','Strategy'):'strat',C.tag('Option','Status'):'status'}
        s.holder=C.tag('Option','Holder'); s.delim=C.tag('Option','Delimiters')
        s.files={f.name for f in C.P.fns if (f.file or '').endswith('readconfig.c')}
        s.split=C.fn('SplitNameAndValue').name
    # ts: (strategy, status, cleared, given, last literal found)
    def init(s,fn): return (s.s0,s.st0,False,False,None,False,False)
    def key(s,st): return st.ts
    def descend(s,name,stack,i):
        f=s.C.M.functions.get(name)
        return name in s.files and len(stack)<5 and name not in stack and s.C.name(name) not in('GetOptionOfAInfo','TrimPath')
    def set(s,st,**k):
        n=('strat','status','cleared','given','lit','ever','found'); d=dict(zip(n,st.ts)); d.update(k); st.ts=tuple(d[x] for x in n)
    def on_load(s,e,st,i,a,tag,ctx,fn):
        k=s.tags.get(tag)
        if k and (a,None) not in st.mem:
            v={'type':s.T,'strat':st.ts[0],'status':st.ts[1]}[k]
            st.mem[(a,None)]=(const(v),(tag,4))
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        k=s.tags.get(tag)
        if k and isinstance(v,Lin) and v.isconst(): s.set(st,**{k:v.c})
        if tag and tag[0]==s.holder[0] and tag[1]==s.holder[1] or (isinstance(tag,tuple) and 'VType' in str(tag[0])):
            if s.T==s.E['TYPE_BOOLEAN']:
                s.seen.add('boolean')
                if isinstance(v,Lin) and v.isconst() and st.ts[4] is not None:
                    want=0 if st.ts[4] in('false','no') else 1
                    if bool(v.c)!=bool(want): e.report('bool:'+st.ts[4],'a value containing "%s" is read as %s'%(st.ts[4],'false' if want else 'true'),i.loc,st.trace)
                    else: s.seen.add('bool:'+st.ts[4])
            s.set(st,given=True)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        n=s.C.name(next(iter(ts))) if len(ts)==1 else ''
        E=s.E
        if n=='ReadLine' : s.set(st,lit=None); return None
        if n=='SplitNameAndValue' and fn.src=='ConfigRead':
            if st.ts[6] and not st.ts[3] and s.T!=E['TYPE_PATH']: e.report('dropped:%d'%s.T,'the value the file gives an option is not taken over',i.loc,st.trace)
            s.set(st,cleared=False,given=False,lit=None,found=False); return None
        if n=='GetOptionOfAInfo' and fn.src=='ConfigRead':
            out=[]
            if s.s0==E['STRATEGY_APPEND_DISCARD_DEFAULT']:
                q=st.copy(); e.opaque(q,i,sorted(ts),args,ctx); v=s.nn(e,q,ctx,i); s.set(q,found=True); q.note('%s: an alias'%i.loc); out.append((q,v))
            q=st.copy(); s.set(st,found=True); st.note('%s: an option'%i.loc)
            return out+[(st,s.nn(e,st,ctx,i)),(q,ZERO)]
        if n=='StringList_Clear' and args and s.isholder(e,st,i):
            s.seen.add('clear')
            if s.s0==E['STRATEGY_APPEND'] or s.s0==E['STRATEGY_APPEND_DISCARD_DEFAULT'] and st.ts[5]: e.report('discard:%d'%s.T,'a further value of an option that collects values discards the earlier ones',i.loc,st.trace)
            s.set(st,cleared=True); return [(st,None if i.ty.kind=='void' else ZERO)]
        if n=='StringList_Add' and s.isholder(e,st,i):
            s.seen.add('add')
            if not st.ts[2] and not(s.s0==E['STRATEGY_APPEND'] or s.s0==E['STRATEGY_APPEND_DISCARD_DEFAULT'] and st.ts[5]):
                e.report('keep:%d'%s.T,'a value is added although the default or earlier value it replaces is still there',i.loc,st.trace)
            if s.T==E['TYPE_PATH']:
                t=text(s.C,args[2])
                if t!='' : e.report('path','a path is split into pieces',i.loc,st.trace)
            elif args[2].isconst() and args[2].c==0: e.report('delim','the value of an option is added without its delimiters',i.loc,st.trace)
            s.set(st,given=True,ever=True)
            return [(st,s.nn(e,st,ctx,i))]
        if n=='StringList_AppendLast': return [(st,None if i.ty.kind=='void' else ZERO)]
        if n in('sscanf','__isoc99_sscanf'):
            t=text(s.C,args[1]); s.seen.add('int:%s'%t)
            if s.T==E['TYPE_INT32'] and t and not re.match(r'%l?[di]$',t): e.report('int','a number is not read as a decimal number',i.loc,st.trace)
            s.set(st,given=True); return None
        if n=='strstr':
            t=text(s.C,args[1])
            q=st.copy(); v=s.nn(e,st,ctx,i); s.set(st,lit=t); st.note('%s: the value contains "%s"'%(i.loc,t))
            return [(st,v),(q,ZERO)]
        if n=='ExpandPath': return None
        return None
    def nn(s,e,st,ctx,i):
        v=e.fresh(st,('v',ctx,i.uid)); st.nes.add(v); return v
    def isholder(s,e,st,i):
        t=tag_of(i.ops[0]); return True
    def on_ret(s,e,st,i,fn,ctx,rv,root): pass

def P24(C,R,tier):
    # registration
    reach=C.P.reaching({C.fn('ConfigAddOption').name})
    cand=[]
    regs=C.P.sites.get(C.fn('ConfigAddOption').name,[])
    owner={}
    for g in C.P.fns:
        for i in g.instrs():
            if i.op=='call': owner[i.uid]=g
    own={owner[c.uid].name for c in regs}
    def below(n):
        seen={n}; w=[n]
        while w:
            x=w.pop()
            for i in C.M.functions[x].instrs():
                if i.op=='call':
                    for t in C.P.targets(i):
                        if t in reach and t not in seen: seen.add(t); w.append(t)
        return seen
    for f in C.P.fns:
        if f.name in reach and C.name(f.name)!='ConfigAddOption':
            b=below(f.name)
            if own<=b: cand.append((len(b),f.name,f))
    if not cand: raise Broken('no function registers all options')
    f=min(cand,key=lambda x:x[:2])[2]
    r=Reg(C,reach); e=Engine(C.P,r); e.run(f); R.take(e)
    types={C.enum('TYPE_'+t):t for t in('INT32','BOOLEAN','STRING','PATH')}; strat={C.enum('STRATEGY_'+t):t for t in('DEFAULT','REPLACE','APPEND','APPEND_DISCARD_DEFAULT')}
    low={k.lower():k for k in list(r.opts)+list(r.alias)}
    whole=not r.unknown
    if r.unknown: R.notes.append('registration with names that are not literals at %s: completeness not judged'%', '.join(r.unknown[:3]))
    for k,v in r.alias.items():
        for t,l in v:
            if t is not None and t.lower() not in low and whole: R.violation('alias:'+k,'%s is an alias of %s, which is not registered'%(k,t),l)
            else: R.ok('%s: alias of %s'%(k,t))
    # readers
    used={}
    for g,want in GET.items():
        for fn in C.fns(g):
            for c in C.P.sites.get(fn.name,[]):
                ns=strings(C,c.ops[1])
                if ns is None: R.notes.append('%s: name not a literal'%c.loc); whole=False; continue
                for n in ns:
                    used.setdefault(n.lower(),[]).append((g,c))
                    k=low.get(n.lower())
                    if k is None or k not in r.opts:
                        if not r.unknown: R.violation('unknown:'+n,'the option %s is read but never registered: it always has its zero value'%n,c.loc)
                        continue
                    for sg,t,d,l in r.opts[k]:
                        if t is None: continue
                        if types.get(t) not in want: R.violation('type:'+n,'the option %s is registered as %s but read with %s'%(n,types.get(t),g),c.loc)
                        elif g=='ConfigGetRawString' and strat.get(sg) not in('DEFAULT','REPLACE'): R.violation('single:'+n,'the option %s collects values but only its first one is read'%n,c.loc)
                        elif g in('ConfigGetStringList',) and strat.get(sg) in('DEFAULT','REPLACE') and types.get(t)=='PATH': R.violation('many:'+n,'the option %s is read as a list but keeps one value only'%n,c.loc)
                        else: R.ok('%s: registered as %s (%s), read with %s at %s'%(n,types.get(t),strat.get(sg),g,c.loc))
                    if not live(C,owner[c.uid],c): R.violation('unused:'+n,'the option %s is read but its value has no effect'%n,c.loc)
    wiring(C,R)
    if whole:
        for k in sorted(r.opts):
            if k.lower() not in used: R.violation('dead:'+k,'the option %s is registered but nothing reads it'%k,sorted(r.opts[k])[0][3] if False else next(iter(r.opts[k]))[3])
    # documentation
    repo=os.environ.get('SA_REPO') or '/repo'
    p=os.path.join(repo,'default.en.config')
    if os.path.exists(p):
        d,sample=docs(p); nd=0
        for k,(ln,df) in sorted(d.items()):
            if k.isupper(): continue
            if k.lower() not in low:
                if not r.unknown: R.violation('doc:'+k,'the documented option %s (default.en.config:%d) is not registered: setting it has no effect'%(k,ln),'default.en.config:%d'%ln)
                continue
            nd+=1; R.ok('%s: documented at default.en.config:%d'%(k,ln))
            if df is not None:
                for sg,t,dv,l in r.opts.get(low[k.lower()],()):
                    w={'true':1,'false':0}.get(df,None) if df in('true','false') else int(df)
                    if isinstance(dv,int) and dv!=w: R.violation('default:'+k,'the default of %s is %s but documented as %s'%(k,dv,df),l)
                    else: R.ok('%s: default %s as documented'%(k,df))
        R.cov['documented_options']=nd
        for k,ln in sorted(sample.items()):
            if k.lower() not in low and not r.unknown: R.violation('sample:'+k,'the option %s of the sample configuration (line %d) is not registered'%(k,ln),'default.en.config:%d'%ln)
    else: R.notes.append('default.en.config not present: documentation not compared')
    R.cov['options']=len(r.opts); R.cov['aliases']=len(r.alias)
    # reading the file
    f=C.fn('ConfigRead'); E=C.enum
    seen=set()
    for T in('STRING','PATH','INT32','BOOLEAN'):
        for sg,stt in (('DEFAULT','DEFAULT'),('REPLACE','DEFAULT'),('REPLACE','SPECIAL'),('APPEND','DEFAULT'),('APPEND','SPECIAL'),('APPEND_DISCARD_DEFAULT','DEFAULT')):
            if T in('INT32','BOOLEAN') and sg!='DEFAULT': continue
            q=Read(C,E('TYPE_'+T),E('STRATEGY_'+sg),E('STATUS_%s_VALUE'%stt)); e=Engine(C.P,q); e.run(f); R.take(e,'read:')
            need={'STRING':{'add'},'PATH':{'add'},'BOOLEAN':{'boolean'},'INT32':{'int:%d'}}[T]
            if not need<=q.seen and not e.violations: R.violation('notread:%s:%s'%(T,sg),'no value of an option of type %s is taken over from the configuration file'%T,f.loc if hasattr(f,'loc') else 'readconfig.c')
            R.ok('%s options with strategy %s: values taken over as the strategy says'%(T,sg)); seen|=q.seen
    R.cov['value_forms']=sorted(seen)

def live(C,f,c):
    """does the value a call returns reach a branch, a call, a return or a variable that is read"""
    seen=set(); w=[c]
    use={}
    for i in f.instrs():
        for o in i.ops:
            if getattr(o,'kind','')=='instr': use.setdefault(o.uid,[]).append(i)
    while w:
        x=w.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        for u in use.get(x.uid,()):
            if u.op in('br','switch','ret','call'): return True
            if u.op=='store':
                if strip(u.ops[0]) is not x and u.ops[0] is not x: return True
                a=strip(u.ops[1])
                if a.kind=='global':
                    if any(j.op in('load',) and strip(j.ops[0]) is a for g in C.P.fns for j in g.instrs()): return True
                    if any(j.op!='store' and any(strip(o) is a for o in j.ops) for g in C.P.fns for j in g.instrs()): return True
                elif a.kind=='instr' and a.op=='alloca': 
                    w.extend(j for j in f.instrs() if j.op=='load' and strip(j.ops[0]) is a)
                    if any(j.op=='call' and any(strip(o) is a for o in j.ops) for j in f.instrs()): return True
                else:
                    t=tag_of(u.ops[1])
                    if t is None or any(j.op=='load' and tag_of(j.ops[0])==t for g in C.P.fns for j in g.instrs()): return True
            else: w.append(u)
    return False
RULES={'P24':P24}

# ---- which switch each option governs
WIRES=(('EnableUDPtoTCP','EnableUDPtoTCP'),('EnableTCPtoUDP','EnableTCPtoUDP'),('TCPM_Keep_Alive','TCPKeepAlive'),('CacheParallel','CacheParallel'),('IgnoreTTL','IgnoreTTL'),('OverrideTTL','OverrideTTL'),('TTLMultiple','MultipleTTL'),('BlockIpv6WhenIpv4Exists','BlockIpv6WhenIpv4Exists'),('OutputInterval','StatisticUpdateInterval'),('ThresholdLength','LogFileThresholdLength'),('HostsRetryInterval','HostsRetryInterval'),('UpdateInterval','ModulesUpdateInterval'))
def wiring(C,R):
    """a value read from the configuration lands, not negated, in the variable it is meant for"""
    def src(v,neg=0,d=0):
        v=strip(v)
        if v.kind!='instr' or d>10: return None
        if v.op=='call':
            if any(t.startswith('ConfigGet') for t in C.P.targets(v)) and len(v.ops)>1: return next(iter(strings(C,v.ops[1]) or [None]),None),neg
            return None
        if v.op in('zext','sext','trunc','freeze'): return src(v.ops[0],neg,d+1)
        if v.op=='xor' and strip(v.ops[1]).kind=='const' and v.ops[1].v in(1,-1): return src(v.ops[0],neg^1,d+1)
        if v.op=='icmp' and strip(v.ops[1]).kind=='const':
            k=v.ops[1].v
            if v.pred in('eq','ne') and k in(0,1): return src(v.ops[0],neg^((v.pred=='eq')==(k==0)),d+1)
            return None
        if v.op=='select' and all(strip(o).kind=='const' for o in v.ops[1:]):
            a,b=(strip(o).v for o in v.ops[1:])
            if a and not b: return src(v.ops[0],neg,d+1)
            if b and not a: return src(v.ops[0],neg^1,d+1)
        return None
    var=dict(WIRES); n=0
    for f in C.P.fns:
        for i in f.instrs():
            if i.op!='store': continue
            g=strip(i.ops[1])
            if g.kind!='global': continue
            w=src(i.ops[0])
            if not w or w[0] is None: continue
            name=g.name.split('.')[-1] if g.name.split('.')[-1] in var else g.name.split('.')[0]
            o,neg=w
            if name in var and var[name]!=o: R.violation('wire:'+name,'%s is set from the option %s instead of %s'%(name,o,var[name]),i.loc,[])
            elif name not in var and o in var.values() and any(x.name.split('.')[0]==k for k,v in WIRES if v==o for x in C.M.globals.values()): R.violation('wire:'+name,'the option %s sets %s'%(o,name),i.loc,[])
            elif neg: R.violation('negated:'+name,'the option %s is stored negated: turning it on turns off what it stands for'%o,i.loc,[])
            else: n+=1; R.ok('%s: stored as it is in %s at %s'%(o,name,i.loc))
    R.cov['switches']=n
