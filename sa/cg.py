"""Whole-program facts shared by all rules: indirect-call targets (field based),
call graph, thread roots, and a field-based MOD (may-store) summary."""
from . import ir

# external functions that write nothing the analyses track (or only through listed args)
PURE = set('''strlen strcmp strncmp strcasecmp strncasecmp memcmp strchr strrchr strstr strpbrk ntohs htons ntohl htonl isspace isdigit isalpha
time printf fprintf vprintf vfprintf putchar puts fputs fputc fflush perror strerror __errno_location usleep sleep exit pthread_exit
pthread_self pthread_detach pthread_create pthread_join atexit rand srand toupper tolower __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
close fclose remove rename socket bind connect listen setsockopt send sendto shutdown getpwuid getuid fork setsid umask mkdir
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_rwlock_init pthread_rwlock_destroy
pthread_spin_lock pthread_spin_unlock pthread_spin_trylock pthread_spin_init pthread_spin_destroy
pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_mutex_init pthread_mutex_destroy
free malloc calloc fopen feof fgetc fseek ftell rewind open lseek write fwrite munmap mmap fnmatch inet_addr sqrt pow system setenv getenv
curl_global_init curl_global_cleanup curl_easy_init curl_easy_cleanup curl_easy_setopt curl_easy_perform localtime abort __assert_fail
syscall fcntl signal strdup wordfree clock_gettime gettimeofday strtol atoi stat log bsearch inet_ntoa'''.split())
# external functions writing through given argument indexes
WRITES = {'memcpy':[0],'memmove':[0],'memset':[0],'strcpy':[0],'strcat':[0],'strncpy':[0],'strncat':[0],'sprintf':[0],'snprintf':[0],'vsnprintf':[0],
 'recv':[1],'recvfrom':[1,4,5],'fgets':[0],'fread':[0],'read':[1],'select':[1,2,3],'getsockopt':[3,4],'sscanf':'rest2','__isoc99_sscanf':'rest2','__isoc99_fscanf':'rest2','fscanf':'rest2','strftime':[0],
 'getsockname':[1,2],'getpeername':[1,2],'pipe':[0],'realloc':[],'wordexp':[1],'time':[0],'clock_gettime':[1],'accept':[1,2],'qsort':[0],'poll':[0],'ioctl':[2],
 'gettimeofday':[0],'inet_pton':[2],'strtok':[0],'getaddrinfo':[3],'gethostname':[0], 'pthread_create':[0],'stat':[1]}

def strip(v):
    while v is not None and v.kind in('instr','cexpr') and v.op in('bitcast','inttoptr','ptrtoint','addrspacecast','freeze'):
        v=v.ops[0]
    return v

def gep_walk(g):
    """(innermost struct name, byte offset inside it) of a gep, or None; const idx only for struct steps"""
    t=g.srcty; tag=None; idx=g.ops[1:]
    cur=t; first=True
    for i in idx:
        if first: first=False; continue
        if cur is None: return tag
        if cur.kind=='struct':
            if i.kind!='const': return None
            tag=(cur.name,cur.offsets[i.v]); cur=cur.fields[i.v]
        elif cur.kind=='array': cur=cur.elem
        else: return tag
    return tag

def tag_of(v, depth=0):
    """syntactic tag of an address value: (struct, off) | ('G',name) | ('A',alloca) | None"""
    v=strip(v)
    if v is None or depth>8: return None
    if v.kind=='global': return ('G',v.name)
    if v.kind in('instr','cexpr') and v.op=='gep':
        t=gep_walk(v)
        if t: return t
        b=strip(v.ops[0])
        # plain pointer arithmetic / array decay
        if v.srcty is not None and (v.srcty.kind=='array' or v.srcty.kind=='int'):
            return tag_of(v.ops[0],depth+1)
        return None
    if v.kind=='instr' and v.op=='alloca': return ('A',v.uid)
    return None

class Prog:
    def __init__(s,M):
        s.M=M
        s.fns=[f for f in M.functions.values() if not f.decl]
        s._fieldtargets()
        s._callees()
        s._mod()

    # ---- indirect call resolution (field based) ----
    def _fieldtargets(s):
        ft={}; gt={}; argt={}
        def note(tag,fr): ft.setdefault(tag,set()).add(fr.name)
        def fnvals(v,seen=None):
            seen=seen if seen is not None else set()
            v=strip(v)
            if v is None or id(v) in seen: return set()
            seen.add(id(v))
            if v.kind=='func': return {v.name}
            if v.kind=='instr' and v.op=='phi': return set().union(*[fnvals(o,seen) for o in v.ops]) if v.ops else set()
            if v.kind=='instr' and v.op=='select': return fnvals(v.ops[1],seen)|fnvals(v.ops[2],seen)
            return set()
        s.fnvals=fnvals
        copies=[]
        for f in s.fns:
            for i in f.instrs():
                if i.op=='store':
                    fv=fnvals(i.ops[0]); t=tag_of(i.ops[1])
                    if fv and t:
                        ft.setdefault(t,set()).update(fv)
                    sv=strip(i.ops[0])
                    if t and sv.kind=='arg' and sv.ty.kind=='ptr': copies.append((t,sv))
                    if t and sv.kind=='instr' and sv.op=='load':
                        t2=tag_of(sv.ops[0])
                        if t2: copies.append((t,('T',t2)))
                elif i.op=='call':
                    for k,a in enumerate(i.ops):
                        fv=fnvals(a)
                        if fv: 
                            argt.setdefault(('argsite',i.uid,k),set()).update(fv)
        # function passed as argument -> param
        param={}
        s.escaped=set()
        for f in s.fns:
            for i in f.instrs():
                if i.op=='call' :
                    for k,a in enumerate(i.ops):
                        fv=fnvals(a)
                        if fv:
                            s.escaped|=fv
                            if i.callee.kind=='func' and not i.callee.fn.decl and k<len(i.callee.fn.args):
                                param.setdefault((i.callee.name,k),set()).update(fv)
        for g in s.M.globals.values():
            def scan(e,off,t):
                if isinstance(e,list):
                    for n,x in enumerate(e):
                        if t is not None and t.kind=='struct': scan(x,(t.name,t.offsets[n]),t.fields[n])
                        elif t is not None and t.kind=='array': scan(x,off,t.elem)
                        else: scan(x,off,None)
                elif getattr(e,'kind','')=='func':
                    ft.setdefault(('G',g.name),set()).add(e.name)
                    if off: ft.setdefault(off,set()).add(e.name)
            if g.elems is not None: scan(g.elems,None,g.ty)
        s.ft=ft; s.param=param
        # propagate through param copies / field copies / param passing
        passes=[]
        for f in s.fns:
            for i in f.instrs():
                if i.op=='call':
                    cs=[i.callee.name] if i.callee.kind=='func' else []
                    for k,a in enumerate(i.ops):
                        a=strip(a)
                        if a.kind=='arg' and a.ty.kind=='ptr':
                            for c in cs: passes.append(((c,k),(f.name,a.i)))
        ch=True
        while ch:
            ch=False
            for t,src in copies:
                new=set()
                if isinstance(src,tuple): new=ft.get(src[1],set())
                else: new=param.get((src.fn.name,src.i),set())
                if new-ft.get(t,set()): ft.setdefault(t,set()).update(new); ch=True
            for dst,src in passes:
                new=param.get(src,set())
                if new-param.get(dst,set()): param.setdefault(dst,set()).update(new); ch=True
            # indirect calls passing fn args into resolved targets
            for f in s.fns:
                for i in f.instrs():
                    if i.op=='call' and i.callee.kind!='func':
                        for c in s.targets(i):
                            for k,a in enumerate(i.ops):
                                fv=fnvals(a); a2=strip(a)
                                if a2.kind=='arg' and a2.ty.kind=='ptr': fv=fv|param.get((a2.fn.name,a2.i),set())
                                if fv-param.get((c,k),set()): param.setdefault((c,k),set()).update(fv); ch=True

    def targets(s,call):
        """set of callee names (defined or external); empty set if unresolved"""
        c=strip(call.callee)
        if c.kind=='func': return {c.name}
        return s._tv(c,set())
    def _tv(s,c,seen):
        c=strip(c)
        if c is None or id(c) in seen: return set()
        seen.add(id(c))
        if c.kind=='func': return {c.name}
        if c.kind=='arg': return set(s.param.get((c.fn.name,c.i),()))
        if c.kind=='instr':
            if c.op=='load':
                t=tag_of(c.ops[0])
                if t and t[0]!='A': return set(s.ft.get(t,()))
                if t and t[0]=='A': return set(s.ft.get(t,()))
                # callback field loaded through plain pointer
                return set()
            if c.op in('phi',): return set().union(*[s._tv(o,seen) for o in c.ops])
            if c.op=='select': return s._tv(c.ops[1],seen)|s._tv(c.ops[2],seen)
        return set()

    def _callees(s):
        s.callees={}; s.callers={}; s.unresolved=[]
        s.sites={}   # callee -> list of call instrs
        for f in s.fns:
            cs=set()
            for i in f.instrs():
                if i.op!='call': continue
                t=s.targets(i)
                if not t and not s.never(i): s.unresolved.append(i)
                for n in t:
                    cs.add(n); s.callers.setdefault(n,set()).add(f.name); s.sites.setdefault(n,[]).append(i)
            s.callees[f.name]=cs
        # thread entry points
        s.threads=set()
        for f in s.fns:
            for i in f.instrs():
                if i.op=='call' and i.callee.kind=='func' and i.callee.name=='pthread_create':
                    s.threads|=s.fnvals(i.ops[2]) or s._tv(i.ops[2],set())

    def reach(s,name,via_threads=False):
        seen=set(); st=[name]
        while st:
            n=st.pop()
            if n in seen: continue
            seen.add(n); st+=list(s.callees.get(n,()))
        return seen

    def reaching(s,names):
        """functions from which any of names is reachable through calls"""
        seen=set(); st=list(names)
        while st:
            n=st.pop()
            if n in seen: continue
            seen.add(n); st+=list(s.callers.get(n,()))
        return seen

    # ---- MOD summaries ----
    def never(s,call):
        """an indirect call through a parameter that is null at every call site: it is never made"""
        c=strip(call.callee)
        if c is None or c.kind!='arg': return False
        if not hasattr(s,'_null'):
            n={}; esc=set()
            for f in s.fns:
                for i in f.instrs():
                    for o in (i.ops or ()):
                        o=strip(o)
                        if o is not None and o.kind=='func': esc.add(o.name)
                    if i.op=='call' and i.callee.kind=='func': n.setdefault(i.callee.name,[]).append(i)
            for g in s.M.globals.values():
                def walk(e):
                    if isinstance(e,list):
                        for x in e: walk(x)
                    elif getattr(e,'kind','')=='func': esc.add(e.name)
                if g.elems is not None: walk(g.elems)
            nul={(f.name,a.i) for f in s.fns for a in f.args if a.ty.kind=='ptr' and n.get(f.name) and f.name not in esc}
            ch=True
            while ch:
                ch=False
                for (f,k) in list(nul):
                    for i in n[f]:
                        o=strip(i.ops[k]) if k<len(i.ops) else None
                        if not(o is not None and (o.kind=='null' or o.kind=='arg' and (o.fn.name,o.i) in nul)): nul.discard((f,k)); ch=True; break
            s._null=nul
        return (c.fn.name,c.i) in s._null
    def _mod(s):
        mod={f.name:set() for f in s.fns}     # tags
        amod={f.name:set() for f in s.fns}    # arg indexes possibly written through (untagged)
        def base_arg(v,d=0):
            v=strip(v)
            if d>12 or v is None: return None
            if v.kind=='arg': return v.i
            if v.kind=='instr' and v.op=='gep': return base_arg(v.ops[0],d+1)
            if v.kind=='instr' and v.op=='phi':
                for o in v.ops:
                    if o is not v:
                        r=base_arg(o,d+4)
                        if r is not None: return r
            return None
        s.base_arg=base_arg
        calls=[]
        for f in s.fns:
            for i in f.instrs():
                if i.op=='store':
                    t=tag_of(i.ops[1])
                    if t is None or t[0]!='A':
                        mod[f.name].add(t if t else 'raw')
                    a=base_arg(i.ops[1])
                    if a is not None: amod[f.name].add(a)
                elif i.op=='call':
                    calls.append((f,i,s.targets(i)))
        ch=True
        while ch:
            ch=False
            for f,i,ts in calls:
                m=mod[f.name]; am=amod[f.name]; n0=len(m)+len(am)
                if not ts and not s.never(i): m.add('all')
                for t in ts:
                    if t in mod:
                        m|=mod[t]
                        wr=amod[t]
                    else:
                        wr=s.extwrites(t,i)
                        if wr is None: m.add('raw'); wr=range(len(i.ops))
                    for k in wr:
                        if k<len(i.ops):
                            tg=tag_of(i.ops[k])
                            if tg is None: m.add('raw')
                            elif tg[0]!='A': m.add(tg)
                            a=base_arg(i.ops[k])
                            if a is not None: am.add(a)
                if len(m)+len(am)!=n0: ch=True
        s.mod=mod; s.amod=amod

    def extwrites(s,name,i):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memset') or name.startswith('llvm.memmove'): return [0]
        if name.startswith('llvm.'): return [0] if 'va_' in name else []
        if name in WRITES:
            w=WRITES[name]
            return list(range(2,len(i.ops))) if w=='rest2' else w
        if name in PURE: return []
        return None

def _allocfn(s):
    r=getattr(s,'_af',None)
    if r is None:
        r=s._af={}
        for f in s.fns:
            for i in f.instrs():
                if i.op=='alloca': r[i.uid]=f
    return r
def _users(s,f):
    r=getattr(f,'_users',None)
    if r is None:
        r=f._users={}
        for i in f.instrs():
            for o in i.ops:
                if getattr(o,'kind','')=='instr': r.setdefault(o.uid,[]).append(i)
    return r
Prog.allocfn=_allocfn
Prog.users=_users
