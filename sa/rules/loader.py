"""What is configured is what is used: loading of lists, files, groups.

One typestate rule follows a load from the reading of the configuration to the moment its result is
published; it is run from the smallest functions that both read a source and publish the data."""
from ..flow import Rule, Engine, Bool, Lin, ZERO, sym, const, add, sub
from ..common import Broken
from ..cg import strip
from .config import text
from .structures import copies

SCAN={'sscanf','__isoc99_sscanf','__isoc23_sscanf'}
def inuse(v,g):
    """may the object be the one published in g"""
    w=[v]; seen=set()
    while w:
        x=strip(w.pop())
        if x.kind!='instr' or id(x) in seen: continue
        seen.add(id(x))
        if x.op in('phi','select'): w+=x.ops if x.op=='phi' else x.ops[1:]
        elif x.op=='load' and strip(x.ops[0]) is g: return True
    return False
class Load(Rule):
    """ts=(sources, iterators, file, scan, flags); see the fields below"""
    nogc=True
    def __init__(s,C,lists,flags,glob,files=(),strictlines=True,lower=False,pair=(),loose=(),publish=True,scanused=False,obj=True,gate=None):
        s.C=C; s.lists=set(lists); s.flags=set(flags); s.glob=glob; s.files=set(files); s.strict=strictlines; s.lower=lower; s.pair=set(pair); s.loose=set(loose); s.seen=set(); s.pub=publish; s.scanused=scanused; s.obj=obj; s.gate=gate
        ft=lambda a,b:set(C.P.ft.get(C.tag(a,b),()))
        s.next=ft('StringListIterator','Next'); s.itinit={f.name for f in C.fns('StringListIterator_Init')}
        if not s.next or not s.itinit: raise Broken('list iterator not found')
        s.getl={f.name for f in C.fns('ConfigGetStringList')}; s.getb={f.name for f in C.fns('ConfigGetBoolean')}
        s.rl={f.name for f in C.fns('ReadLine')}; s.skip={f.name for f in C.fns('ReadLine_GoToNextLine')}
        s.low={f.name for f in C.fns('StrToLower')}; s.lowall=ft('StringList','LowercaseAll')
        s.lsinks={f.name for n in('StringChunk_Add','StringChunk_Add_Domain') for f in C.fns(n)}
        s.sinks=s.lsinks|ft('Bst','Add')|ft('HostsContainer','Load')|ft('IPMisc','AddBlockFromString')|ft('IPMisc','AddSubstituteFromString')|ft('StringList','Add')
        s.addl=ft('StringList','Add'); s.sub=ft('IPMisc','AddSubstituteFromString')
        s.setneg=ft('IPMisc','SetBlockNegative'); s.negtag=C.tag('IPMisc','BlockNegative')
        s.minit={f.name for n in('UdpM_Init','TcpM_Init') for f in C.fns(n)}
        s.expand={f.name for f in C.fns('ExpandPathTo')}; s.chunk={f.name for f in C.fns('InitChunk')}
        s.ev=s.next|s.itinit|s.getl|s.getb|s.rl|s.skip|s.low|s.lowall|s.sinks|s.setneg|s.minit|SCAN|s.expand
        s.reach=C.P.reaching(s.ev|{'fopen','fclose'})
        s.logs={f.name for f in C.P.fns if f.file.endswith('logs.c')}
        if glob is not None:
            for f in C.P.fns:
                for i in f.instrs():
                    if i.op=='store' and i.ops[1] is glob: s.reach|=C.P.reaching({f.name})|{f.name}
        s.notag={f.name for n in('StringList_Init','StringChunk_Init','StableBuffer_Init','StringListIterator_Init','TcpM_Init','UdpM_Init') for f in C.fns(n)}
    # ts fields: src (tuple of (name,state)), its (tuple of (addr,source,pending)), fl (file state), scan, pub, lost, bad, one
    F=('src','its','fl','pub','lost','bad','one','last')
    def init(s,fn): return (tuple((x,'?') for x in sorted(s.lists|s.flags)),(),'-',0,0,0,0,None)
    def key(s,st): return st.ts
    def g(s,st,k): return st.ts[s.F.index(k)]
    def set(s,st,**kw):
        t=list(st.ts)
        for k,v in kw.items(): t[s.F.index(k)]=v
        st.ts=tuple(t)
    def src(s,st,x,v): s.set(st,src=tuple((n,v if n==x else o) for n,o in s.g(st,'src')))
    def state(s,st,x): return dict(s.g(st,'src')).get(x)
    def it(s,st,a): return next((t for t in s.g(st,'its') if t[0]==a),None)
    def setit(s,st,a,src,p): s.set(st,its=tuple(sorted([t for t in s.g(st,'its') if t[0]!=a]+([(a,src,p)] if src is not None else []),key=repr)))
    def descend(s,name,stack,i):
        if s.C.M.functions[name].file.endswith(('stringlist.c','readconfig.c','stablebuffer.c')): return False
        if name in s.ev-s.sinks or name in s.logs or name in s.notag: return False
        if name in s.sinks: return False
        return name in s.reach or name in s.chunk or s.small_helper(s.e,name,stack)
    def pending(s,st,e,i,it,why='before the next one is taken'):
        a,src,p=it
        if p and src not in s.loose: e.report('skipped:%s'%src,'an entry of %s is not put to use %s'%(src or 'a list of names',why),i.loc,st.trace)
    def line(s,st,e,i,n):
        if s.strict and s.g(st,'fl')=='line': e.report('line','a line of a list file is not put to use before the next one is read',i.loc,st.trace)
    def on_call(s,e,st,i,ts,args,ctx,fn,stack):
        if not ts: return None
        n=next(iter(ts)) if len(ts)==1 else ''
        if ts<=s.getl:
            x=text(s.C,args[1])
            if x not in s.lists: return None
            s.seen.add(('source '+x,i.loc)); e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
            a=st.copy(); s.src(a,x,'nil'); a.note('%s: %s is not configured'%(i.loc,x))
            st.nes.add(v); s.src(st,x,'list'); st.env[('ghost','L:'+x)]=v; st.note('%s: %s is configured'%(i.loc,x))
            return [(a,ZERO),(st,v)]
        if ts<=s.getb:
            x=text(s.C,args[1])
            if x==s.gate:
                e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]; a=st.copy(); s.set(a,one=3); st.nes.add(v); return [(a,ZERO),(st,v)]
            if x not in s.flags: return None
            s.seen.add(('source '+x,i.loc)); e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
            a=st.copy(); s.src(a,x,'nil'); st.nes.add(v); s.src(st,x,'list'); st.env[('ghost','V:'+x)]=v
            return [(a,ZERO),(st,v)]
        if ts<=s.setneg:
            for x in s.flags:
                if s.state(st,x)=='list' and st.env.get(('ghost','V:'+x))==args[1]: s.src(st,x,'done')
                elif s.state(st,x)=='nil' and not(args[1].isconst() and args[1].c==0): e.report('setting:'+x,'the data is given something else than the configured %s'%x,i.loc,st.trace)
                elif s.state(st,x)=='list': e.report('setting:'+x,'the data is given something else than the configured %s'%x,i.loc,st.trace)
            return None
        if ts<=s.itinit:
            z=st.decide(Bool('eq',args[1]))
            if z: return [(st,const(-1))]
            x=next((y for y in s.lists if st.env.get(('ghost','L:'+y))==args[1]),'')
            e.opaque(st,i,list(ts),args,ctx)
            low=st.env.get(('ghost','lowlist'))==args[1]
            st.env[('ghost','IL')]=args[1]
            o=s.it(st,args[0])
            if o and o[1]!='': pass
            s.setit(st,args[0],x,0); st.env[('ghost','lowit')]=args[0] if low else ZERO
            st.env[('ghost','listof')]=args[1]
            s.seen.add(('iteration over '+(x or 'names'),i.loc))
            if z is None and not x:
                a=st.copy(); s.setit(a,args[0],None,0); return [(st,ZERO),(a,const(-1))]
            return [(st,ZERO)]
        if ts<=s.next:
            t=s.it(st,args[0])
            if t is None: return None
            a,x,p=t
            if p>=(2 if x in s.pair else 1): s.pending(st,e,i,t)
            e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
            q=st.copy()
            if x: s.src(q,x,'done')
            else: s.setit(q,a,None,0)
            if x in s.pair and p: s.set(q,one=1)
            s.setit(q,a,x,0) if x else None
            st.nes.add(v); s.setit(st,a,x,min(p+1,2)); s.set(st,last=a)
            st.env[('ghost','item%d'%min(p,1))]=v
            if x in s.loose: s.setit(st,a,x,0)
            return [(q,ZERO),(st,v)]
        if ts<=s.rl:
            s.line(st,e,i,0)
            if s.g(st,'fl')=='trunc': e.report('rest','the rest of a too long line is read as a line of its own',i.loc,st.trace)
            s.seen.add(('reading of lines',i.loc))
            e.opaque(st,i,list(ts),args,ctx)
            if st.env.get(('ghost','low'))==args[1]: st.env.pop(('ghost','low'))
            out=[]
            for name,r in(('READ_DONE','line'),('READ_TRUNCATED','trunc'),('READ_FAILED_OR_END','end')):
                a=st.copy(); s.set(a,fl=r); a.env[('ghost','lb')]=args[1]
                if r=='line': s.set(a,last='line')
                out.append((a,const(s.C.enum(name))))
            return out
        if ts<=s.skip:
            if s.g(st,'fl')=='trunc': s.set(st,fl='open')
            else: e.report('skipline','a line that was not too long is skipped',i.loc,st.trace)
            return None
        if n=='fopen':
            e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
            a=st.copy(); st.nes.add(v); s.set(st,fl='-'); s.used(st,args,True); s.used(a,args,True)
            if any(x in s.files for _,x,_ in s.g(a,'its')): s.set(a,one=2)
            return [(st,v),(a,ZERO)]
        if n=='fclose':
            if s.g(st,'fl') in('open','line','trunc'): e.report('unread','a list file is closed before all of it was read',i.loc,st.trace)
            s.set(st,fl='-'); return None
        if ts<=s.expand:
            s.used(st,args,True); return None
        if ts<=SCAN:
            # what does not parse cannot be used
            e.opaque(st,i,list(ts),args,ctx); v=st.env[(ctx,i.uid)]
            if st.env.get(('ghost','low'))in args[2:]: st.env.pop(('ghost','low'))
            if s.scanused: s.used(st,args,True)
            if s.g(st,'last') is None or s.it(st,s.g(st,'last')) is None: return [(st,v)]
            a=st.copy(); a.ineqs.add(v); s.used(a,args,True); st.ineqs.add(sub(const(1),v))
            return [(st,v),(a,v)]
        if ts<=s.low: st.env[('ghost','low')]=args[0]; return None
        if ts<=s.lowall:
            st.env[('ghost','lowlist')]=args[0]
            if st.env.get(('ghost','listof'))==args[0]: st.env[('ghost','lowit')]=st.env.get(('ghost','lastit'),ZERO); s.set(st,bad=s.g(st,'bad'))
            if st.env.get(('ghost','IL'))==args[0]:
                st.env[('ghost','lowall')]=const(1)
            return None
        if ts<=s.minit:
            e.opaque(st,i,list(ts),args,ctx); s.seen.add(('upstream group',i.loc))
            v=st.env[(ctx,i.uid)]; a=st.copy(); a.nes.add(v); s.set(a,bad=1); a.note('%s: a server group cannot be set up'%i.loc)
            return [(st,ZERO),(a,v)]
        if ts&s.sinks:
            if s.glob is not None and args and (e.src(args[0])[0]==('G',s.glob.name) or inuse(i.ops[0],s.glob)): e.report('inplace','an entry is added to the data in use, which the new data is to replace as a whole',i.loc,st.trace)
            if s.g(st,'pub'): e.report('late','an entry is added after the new data took the place of the old',i.loc,st.trace)
            s.seen.add(('entry added',i.loc))
            if ts<=s.sub and s.g(st,'last') not in(None,'line'):
                a,b=st.env.get(('ghost','item0')),st.env.get(('ghost','item1'))
                t=s.it(st,s.g(st,'last'))
                if t and t[1] in s.pair and (t[2]!=2 or args[1]!=a or args[2]!=b): e.report('pair','an address and its substitute are not taken from the configured pair in its order',i.loc,st.trace)
            if s.lower and ts<=s.lsinks: s.lowered(e,st,i,args)
            s.used(st,args,False)
            if s.obj and s.glob is not None:
                o=st.env.get(('ghost','obj'))
                st.env[('ghost','obj')]=args[0] if o is None or o==args[0] or st.decide(Bool('eq',sub(o,args[0]))) is not False else sym(('two',))
            return None
        return None
    def lowered(s,e,st,i,args):
        w=st.env.get(('ghost','low')); l=st.env.get(('ghost','lowlist')); cur=st.env.get(('ghost','IL'))
        s.seen.add(('name added',i.loc))
        if w is not None and w==args[1]: return
        t=text(s.C,args[1])
        if t is not None and t==t.lower(): return
        if l is not None and cur is not None and l==cur and args[1] in(st.env.get(('ghost','item0')),st.env.get(('ghost','item1'))): return
        e.report('lower','a configured name is stored as it was written, but names are looked up in lower case',i.loc,st.trace)
    def used(s,st,args,tried):
        l=s.g(st,'last')
        if l=='line': 
            if s.g(st,'fl')=='line': s.set(st,fl='open')
        elif l is not None:
            t=s.it(st,l)
            if t: s.setit(st,l,t[1],0)
    def on_store(s,e,st,i,a,tag,v,ctx,fn):
        if tag==s.negtag and not s.g(st,'pub'):
            for x in s.flags:
                if s.state(st,x)=='list' and st.env.get(('ghost','V:'+x))==v: s.src(st,x,'done')
        if s.glob is not None and a==sym(('G',s.glob.name)) and isinstance(v,Lin):
            z=st.decide(Bool('eq',v))
            if z and not all(o=='nil' for _,o in s.g(st,'src')): s.set(st,lost=1); return
            s.seen.add(('publication',i.loc))
            for x,o in s.g(st,'src'):
                if o=='?': e.report('unread:'+x,'new data takes the place of the old although %s was not read'%x,i.loc,st.trace)
                if o=='list': e.report('partial:'+x,'new data takes the place of the old before all of %s was used'%x,i.loc,st.trace)
            for a_,x,p in s.g(st,'its'):
                if not x: e.report('names','new data takes the place of the old before all names of a group were used',i.loc,st.trace)
            if s.g(st,'bad'): e.report('failed','new data takes the place of the old although a server group could not be set up',i.loc,st.trace)
            if s.g(st,'fl')in('line','trunc','open'): e.report('fileunread','new data takes the place of the old before the list file was read to its end',i.loc,st.trace)
            o=st.env.get(('ghost','obj'))
            if o is not None and not v.isconst() and not s.inside(st,o,v): e.report('object','the data put in place is not the data the entries were added to',i.loc,st.trace)
            s.set(st,pub=1,lost=0)
    def inside(s,st,o,v):
        return o==v or st.decide(Bool('eq',sub(o,v))) is True
    def on_ret(s,e,st,i,fn,ctx,rv,root):
        if not root: return
        if s.g(st,'fl')in('line','trunc','open') : e.report('unclosed','a list file is not read to its end',i.loc,st.trace)
        if s.g(st,'lost'): e.report('lost','the old data is gone but nothing has taken its place',i.loc,st.trace)
        if s.g(st,'pub'): s.seen.add(('loaded',i.loc)); return
        z=st.decide(Bool('eq',rv)) if isinstance(rv,Lin) else True
        if s.glob is not None and s.g(st,'one')==2: e.report('onefile','a list file that cannot be opened keeps everything else from being loaded',i.loc,st.trace)
        if z is False or s.g(st,'one')==3: return
        for x,o in s.g(st,'src'):
            if o=='list' or (o=='done' and s.glob is not None and s.pub): e.report('dropped:'+x,'loading ends without failure although %s was not put to use'%x,i.loc,st.trace)
        if s.g(st,'bad'): e.report('failed','loading ends without failure although a server group could not be set up',i.loc,st.trace)

def anchors(C,lits,glob):
    """smallest functions that read the sources and publish (or, without a global, that use them)"""
    ev={f.name for n in('ConfigGetStringList','ConfigGetBoolean') for f in C.fns(n)}
    readers={}
    from .config import strings
    for f in C.P.fns:
        for i in f.instrs():
            if i.op=='call' and C.P.targets(i)&ev:
                for x in strings(C,i.ops[1]) or ():
                    if x in lits: readers.setdefault(x,set()).add(f.name)
    for x in lits:
        if x not in readers: return None,x
    need=[C.P.reaching(v)|v for v in readers.values()]
    if glob is not None:
        pubs={f.name for f in C.P.fns for i in f.instrs() if i.op=='store' and i.ops[1] is glob and i.ops[0].kind not in('const','null')}
        pubs|={f.name for f in C.P.fns for i in f.instrs() if i.op=='store' and i.ops[1] is glob and i.ops[0].kind=='const' and i.ops[0].v!=0}
        if not pubs: return None,glob.name
        need.append(C.P.reaching(pubs)|pubs)
    c=set.intersection(*need) if need else set()
    roots=[n for n in c if not(c&set(C.P.callees.get(n,()))-{n})]
    return [C.M.functions[n] for n in sorted(roots) if n in C.M.functions],None
def hosts_rules(C,R,lines=True):
    """entries of hosts lists and files"""
    n=0
    for t in sorted(C.P.ft.get(C.tag('HostsContainer','Load'),())):
        f=C.M.functions[t]; r=Load(C,(),(),None,lower=True); e=Engine(C.P,r); e.run(f); R.take(e,'hosts:%s:'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l)); n+=k=='name added'
    if not R.viol: R.need(n,1,'names put into a hosts container')
    g=C.glob('MainDynamicContainer')
    rd=C.P.reaching({f.name for f in C.fns('ReadLine')})
    pubs={f.name for f in C.P.fns for i in f.instrs() if i.op=='store' and i.ops[1] is g and i.ops[0].kind not in('const','null')}
    c=rd&(C.P.reaching(pubs)|pubs); roots=[x for x in sorted(c) if not(c&set(C.P.callees.get(x,()))-{x})]
    if not roots: raise Broken('loading of the hosts file not found')
    for x in roots:
        f=C.M.functions[x]; r=Load(C,(),(),g); e=Engine(C.P,r); e.run(f); R.take(e,'hosts:%s:'%f.src)
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
        if not e.violations and not any(k=='publication' for k,_ in r.seen): raise Broken('%s: publication not found'%f.src)
def lines_rule(C,R):
    """skipping the rest of a line reads up to the first line end, and nothing after it"""
    rl={f.name for f in C.fns('ReadLine')}
    for f in C.fns('ReadLine_GoToNextLine'):
        if C.P.reaching(rl)&({f.name}|set(C.P.callees.get(f.name,()))): R.violation('skip:%s'%f.src,'skipping the rest of a long line goes on to read the line after it',f.loc if hasattr(f,'loc') else f.src,[])
        else: R.ok('%s reads nothing beyond the line'%f.src)
def domains(C,R): run(C,R,'domains',['DisabledDomain','DisabledList'],(),'DisabledDomain',files=['DisabledList'],lower=True); lines_rule(C,R)
def types(C,R): run(C,R,'types',['DisabledType'])
def addresses(C,R): run(C,R,'addresses',['BlockIP','IPSubstituting','IPSubstitutingFile'],['BlockNegativeResponse'],'CurrIpMiscMapping',files=['IPSubstitutingFile'],strictlines=False,pair=['IPSubstituting']); lines_rule(C,R)
def append(C,R): run(C,R,'append',['AppendHosts'])
def control(C,R): run(C,R,'control',['CacheControl'],lower=True,scanused=True,gate='UseCache')
def groups(C,R): run(C,R,'groups',['ServerGroup'],(),'CurModuleMap',loose=['ServerGroup'],lower=True,obj=False); lines_rule(C,R)
def run(C,R,pfx,lists,flags=(),glob=None,**kw):
    g=None
    if glob:
        try: g=C.glob(glob)
        except Broken: R.violation('%s:global'%pfx,'nothing holds the data loaded from %s'%', '.join(lists),'',[]); return
    fs,miss=anchors(C,set(lists)|set(flags),g)
    if fs is None: R.violation('%s:%s'%(pfx,miss),'nothing loads or publishes %s'%miss,'',[]); return
    if not fs: raise Broken('no function loads %s'%', '.join(lists))
    n=0
    for f in fs:
        r=Load(C,lists,flags,g,**kw); e=Engine(C.P,r); e.run(f); R.take(e,'%s:%s:'%(pfx,f.src)); n+=1
        for k,l in sorted(r.seen): R.ok('%s: %s at %s'%(f.src,k,l))
        if not e.violations and not any(k.startswith('iteration') for k,_ in r.seen) and lists: raise Broken('%s: the iteration over %s is not found'%(f.src,', '.join(lists)))
