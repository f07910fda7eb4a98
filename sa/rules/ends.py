"""P08: every round of every loop changes something the loop's end depends on; compression pointers only lead backwards."""
from ..cg import strip, tag_of
from ..common import Broken
RETRY={'send','recv','sendto','recvfrom','accept','connect','socket'}
SEARCH={'strchr','strstr','strpbrk','strrchr'}
WAITS={'select','sleep','usleep','nanosleep','poll','pthread_cond_wait','pthread_join','pthread_mutex_lock','pthread_rwlock_rdlock','pthread_rwlock_wrlock','read','fgets','fread','fgetc','getc','system','pause',}
PURE={'strlen','strcmp','strncmp','strchr','strrchr','strstr','strpbrk','memcmp','strcasecmp','strncasecmp','toupper','tolower','isspace','isdigit','htons','ntohs','htonl','ntohl','__ctype_b_loc','abs','atoi'}

def loops(f):
    """[(head, body blocks)] of the natural loops"""
    n=len(f.blocks); idx={b:k for k,b in enumerate(f.blocks)}
    dom={b:None for b in f.blocks}; dom[f.blocks[0]]={f.blocks[0]}
    ch=True
    while ch:
        ch=False
        for b in f.blocks[1:]:
            ps=[dom[p] for p in b.preds if dom[p] is not None]
            if not ps: continue
            d=set.intersection(*ps)|{b}
            if d!=dom[b]: dom[b]=d; ch=True
    r={}
    for b in f.blocks:
        for h in b.succs:
            if dom[b] and h in dom[b]:
                body=r.setdefault(h,{h}); w=[b]
                while w:
                    x=w.pop()
                    if x in body: continue
                    body.add(x); w.extend(x.preds)
    return sorted(r.items(),key=lambda x:idx[x[0]]),dom

class Ends:
    def __init__(s,C):
        s.C=C
        try: s.readline={f.name for f in C.fns('ReadLine')}; s.end=C.enum('READ_FAILED_OR_END')
        except Broken: s.readline=set(); s.end=0
        s.reopen=C.P.reaching({'fopen','rewind','fseek'})|{'fopen','rewind','fseek'}
        s.waits={n for w in WAITS for n in C.P.reaching([w])} if hasattr(C.P,'reaching') else set()
        s.plain={f.name for f in C.P.fns if not C.P.mod[f.name] and all(i.op not in('load','store') and (i.op!='call' or all(t.startswith('llvm.dbg') for t in C.P.targets(i)) and C.P.targets(i)) for i in f.instrs())}
        s.reader={f.name for f in C.P.fns if not C.P.mod[f.name]}
        while True:
            n={f.name for f in C.P.fns if f.name in s.reader and all(i.op!='call' or C.P.targets(i) and all(t in s.reader or t in PURE or t.startswith('llvm.dbg') or t.startswith('llvm.lifetime') for t in C.P.targets(i)) for i in f.instrs())}
            if n==s.reader: break
            s.reader=n
        s.moves=set(RETRY)|{'read','fread','fwrite'}|{f.name for f in C.P.fns if any(i.op=='call' and any(t in RETRY for t in C.P.targets(i)) for i in f.instrs()) and s.passes(f)}
    def passes(s,f):
        """returns what a transfer returned"""
        def of(v,d=0):
            v=strip(v)
            while v.kind=='instr' and v.op in('trunc','sext','zext'): v=strip(v.ops[0])
            if v.kind!='instr' or d>8: return False
            if v.op=='call': return any(t in('recv','recvfrom','read') for t in s.C.P.targets(v))
            return v.op in('phi','select') and any(of(o,d+1) for o in v.ops)
        return any(i.op=='ret' and i.ops and of(i.ops[0]) for i in f.instrs())
    def leaves(s,v,body,seen):
        """what a condition depends on: ('phi',p) of a loop head, ('mem',load) or ('call',c) evaluated inside the loop"""
        if v is None or id(v) in seen: return set()
        seen.add(id(v))
        if v.kind!='instr' or v.block not in body: return set()
        if v.op=='phi': return {('phi',v)}
        if v.op=='call':
            ts=s.C.P.targets(v)
            if ts and all(t in PURE for t in ts):
                r={('mem',v)} if any(getattr(getattr(o,'ty',None),'kind','ptr' if o.kind in('global','func','cexpr') else '')=='ptr' for o in v.ops) else set()
            elif ts and all(t in RETRY for t in ts): return {('again',v)}
            elif ts and all(t in s.plain or t=='__errno_location' for t in ts): r=set()
            elif ts and all(t in s.reader for t in ts): r={('mem',v)}
            else: return {('call',v)}
            for o in v.ops: r|=s.leaves(o,body,seen)
            return r
        r={('mem',v)} if v.op=='load' else set()
        for o in v.ops: r|=s.leaves(o,body,seen)
        return r
    def onpath(s,v,path,pos):
        """the value of a phi chain when the path was taken"""
        n=0
        while v.kind=='instr' and v.op=='phi' and n<40:
            n+=1
            if v.block not in pos or pos[v.block]==0: return v
            prev=path[pos[v.block]-1]; w=[x for x,b in v.incoming if b is prev]
            if not w: return v
            v=w[0]
        return v
    def num(s,v,p,pos,d=0):
        v=s.onpath(cast(v),p,pos)
        if v.kind=='null': return 0
        if v.kind=='const': return v.v
        if v.kind!='instr' or d>6: return None
        if v.op in('sext','zext','trunc','freeze'): return s.num(v.ops[0],p,pos,d+1)
        if v.op=='icmp':
            a,b=s.num(v.ops[0],p,pos,d+1),s.num(v.ops[1],p,pos,d+1)
            if a is None or b is None: return None
            return {'eq':a==b,'ne':a!=b,'slt':a<b,'sgt':a>b,'sle':a<=b,'sge':a>=b,'ult':0<=a<b,'ugt':a>b>=0,'ule':0<=a<=b,'uge':a>=b>=0}.get(v.pred)
        return None
    def possible(s,p,pos,h):
        """not: a branch taken against a value already settled on the way"""
        for k,b in enumerate(p):
            t=b.instrs[-1]
            if len(t.succs or ())!=2 or not t.ops: continue
            n=s.num(t.ops[0],p,pos); to=p[k+1] if k+1<len(p) else h
            if n is not None and t.succs[0] is not t.succs[1] and t.succs[0 if n else 1] is not to: return False
        return True
    def outcomes(s,b,n,h,body):
        """where a round may go from the edge b -> n: the ways out, and None for another round"""
        out=set(); seen=set(); w=[(b,n,())]
        while w:
            a,x,kn=w.pop()
            if x is h: out.add(None); continue
            if x not in body: out.add(x); continue
            k=dict(kn); now={}
            for i in x.instrs:
                if i.op!='phi': break
                for v,c in i.incoming:
                    if c is not a: continue
                    if v.kind=='const': now[id(i)]=v.v
                    elif id(v) in k: now[id(i)]=k[id(v)]
            st=(x,tuple(sorted(now.items())))
            if st in seen: continue
            seen.add(st); t=x.instrs[-1]; ss=t.succs or []
            if len(ss)==2 and t.ops and id(t.ops[0]) in now: ss=[ss[0 if now[id(t.ops[0])] else 1]]
            w+=[(x,y,st[1]) for y in ss]
        return out
    def differs(s,w,v,p,pos,h,body):
        """may the value handed to the next round be another than this round's"""
        x=s.onpath(w,p,pos)
        if x is v: return False
        y=strip(x)
        if y is v: return False
        if y.kind=='instr' and y.op=='call' and s.C.P.targets(y) and all(t in SEARCH for t in s.C.P.targets(y)):
            # searching again from where the same search stopped finds the same place
            k=strip(s.onpath(y.ops[0],p,pos))
            if k is v or k.kind=='instr' and k.op=='phi' and k is v:
                stores=[i for b in p for i in b.instrs if i.op=='store']; calls=[i for b in p for i in b.instrs if i.op=='call' and i is not y]
                if not any(s.writes(i,y) for i in stores) and not any(s.callinto(i,y) for i in calls) and all(s.samesearch(o,y) for o,b in v.incoming if b not in body): return False
        if y.kind=='instr' and y.op in('add','sub','gep') and s.zero(y,v,p,pos): return False
        if y.kind=='instr' and y.op in('add','sub'):
            a=s.along(y,p,pos)
            if {k:x for k,x in a.items() if x}=={key(v):1}: return False
        return True
    def along(s,v,p,pos,d=0):
        """affine, with what is merged on the way settled by the way taken"""
        v=s.onpath(cast(v),p,pos); r={}
        if v.kind=='instr' and v.op in('add','sub') and d<8:
            for o,f in((v.ops[0],1),(v.ops[1],1 if v.op=='add' else -1)):
                for a,b in s.along(o,p,pos,d+1).items(): r[a]=r.get(a,0)+f*b
            return r
        return affine(v)
    def spent(s,p,pos):
        """a reading of the file that found its end is on the way round, which goes on to read on"""
        rl=s.readline; end=s.end
        cs=[i for b in p for i in b.instrs if i.op=='call' and s.C.P.targets(i) and s.C.P.targets(i)<=rl]
        for c in cs:
            if any(i.op=='call' and s.C.P.targets(i)&s.reopen for b in p for i in b.instrs): continue
            facts=set()
            for k,b in enumerate(p):
                t=b.instrs[-1]
                if len(t.succs or ())!=2: continue
                q=strip(s.onpath(t.ops[0],p,pos))
                if q.kind!='instr' or q.op!='icmp' or q.pred not in('eq','ne'): continue
                l,r=(strip(s.onpath(cast(o),p,pos)) for o in q.ops)
                if r is c: l,r=r,l
                if l is not c or r.kind!='const': continue
                to=p[k+1] if k+1<len(p) else p[0]
                facts.add((('eq' if t.succs[0] is to else 'ne') if q.pred=='eq' else ('ne' if t.succs[0] is to else 'eq'),r.v))
            eqs={v for o,v in facts if o=='eq'}
            if eqs=={end} and ('ne',end) not in facts: return True
        return False
    def samesearch(s,o,y):
        o=strip(o)
        return o.kind=='instr' and o.op=='call' and s.C.P.targets(o)==s.C.P.targets(y) and all(key(a)==key(b) for a,b in zip(o.ops[1:],y.ops[1:]))
    def zero(s,y,v,p,pos):
        """the step is the amount a transfer moved, and this round is taken although it is nothing"""
        a=affine(y,cast=True); me=key(v)
        if a.get(me)!=1: return False
        rest={k:x for k,x in a.items() if k is not None and k!=me and x}
        if a.get(None) or len(rest)!=1: return False
        steps=[i for b in p for i in b.instrs if i.op=='call' and key(i) in rest]
        for c in steps:
            ts=s.C.P.targets(c)
            if not ts or not all(t in s.moves for t in ts): return False
            # a test on the way that nothing does not pass
            for k,b in enumerate(p):
                t=b.instrs[-1]
                if len(t.succs or ())!=2: continue
                q=strip(s.onpath(t.ops[0],p,pos))
                if q.kind!='instr' or q.op!='icmp': continue
                l,r=strip(q.ops[0]),strip(q.ops[1]); pr=q.pred
                if r is c or key(r)==key(c): l,r=r,l; pr={'slt':'sgt','sgt':'slt','sle':'sge','sge':'sle'}.get(pr,pr)
                if key(l)!=key(c) or r.kind!='const': continue
                n=r.v; holds={'slt':0<n,'sgt':0>n,'sle':0<=n,'sge':0>=n,'eq':n==0,'ne':n!=0}.get(pr)
                to=p[k+1] if k+1<len(p) else p[0]
                if holds is None or t.succs[0 if holds else 1] is not to: return False
            return True
        return False
    def shared(s,v):
        if v.op!='load': return True
        t=tag_of(v.ops[0])
        return t is not None and t[0]!='A'
    def still(s,st,v,p,pos):
        """the store adds nothing: an amount a transfer moved, which may be nothing"""
        if v.op!='load' or key(v.ops[0])!=key(st.ops[1]): return False
        y=cast(st.ops[0])
        return y.kind=='instr' and y.op in('add','sub') and s.zero(y,v,p,pos)
    def root(s,v,d=0):
        v=strip(v)
        if v.kind in('instr','cexpr') and v.op=='gep' and d<12: return s.root(v.ops[0],d+1)
        return v
    def addr(s,v):
        return v.ops[0] if v.op=='load' else None
    def writes(s,st,v):
        """may the store change what v (a load, or a call reading its arguments) sees"""
        if v.op!='load': return True
        a=v.ops[0]; b=st.ops[1]; ta,tb=tag_of(a),tag_of(b)
        if ta is not None and tb is not None: return ta==tb or ta[0]=='A' and tb[0]=='A' and s.root(a) is s.root(b)
        o=strip(st.ops[0]); ok=getattr(getattr(o,'ty',None),'kind',None) if o.kind!='null' else 'ptr'
        if ok is not None and ok!=v.ty.kind: return False
        return not(tb is not None and tb[0]=='A' and s.root(b) is not s.root(a) and ta is None and s.root(a).kind!='instr')
    def callinto(s,c,y):
        """may the call change the text searched"""
        ts=s.C.P.targets(c); r=s.root(y.ops[0])
        if not ts: return True
        for t in ts:
            if t in PURE or t.startswith('llvm.dbg') or t.startswith('llvm.lifetime'): continue
            w=s.C.P.amod[t] if t in s.C.P.mod else s.C.P.extwrites(t,c)
            for k in (range(len(c.ops)) if w is None else w):
                if k<len(c.ops) and c.ops[k].kind not in('const','null') and s.root(c.ops[k]) is r: return True
        return False
    def callwrites(s,c,v):
        ts=s.C.P.targets(c)
        if not ts: return True
        if all(t in PURE or t in s.reader or t=='__errno_location' or t.startswith('llvm.dbg') or t.startswith('llvm.lifetime') for t in ts): return False
        if v.op!='load': return True
        a=v.ops[0]; ta=tag_of(a)
        r=s.root(a)
        if r.kind=='instr' and r.op=='call' and any(t=='__errno_location' for t in s.C.P.targets(r)): return False
        for t in ts:
            if t in s.C.P.mod:
                m=s.C.P.mod[t]
                if 'all' in m or ta is not None and ta in m: return True
                if ta is None and 'raw' in m and v.ty.kind!='ptr': return True
                w=s.C.P.amod[t]
            else: w=s.C.P.extwrites(t,c); w=range(len(c.ops)) if w is None else w
            for k in w:
                if k<len(c.ops) and c.ops[k].kind not in('const','null'):
                    o=s.root(c.ops[k])
                    if o is r or o.kind=='arg' and r.kind=='arg' and o.i==r.i: return True
                    if t in s.C.P.mod and r.kind=='instr' and r.op=='phi': return True
        return False
    def paths(s,h,body,cap):
        out=[]; w=[[h]]
        while w:
            p=w.pop()
            for x in p[-1].succs:
                if x is h: out.append(p)
                elif x in body and x not in p: w.append(p+[x])
            if len(out)+len(w)>cap: return None
        return out
    def loop(s,f,h,body,cap=4000):
        """None: every round changes something; else the round that does not"""
        ps=s.paths(h,body,cap); s.over=ps is None
        for p in ps or ():
            pos={b:k for k,b in enumerate(p)}
            if not s.possible(p,pos,h): continue
            if s.readline and s.spent(p,pos): return p
            moved=False; wait=False; exits=0; inner=False
            stores=[i for b in p for i in b.instrs if i.op=='store']; calls=[i for b in p for i in b.instrs if i.op=='call']
            for i in calls:
                ts=s.C.P.targets(i)
                if not ts or any(t in s.waits for t in ts): wait=True
            eff=lambda v: wait and s.shared(v) or any(s.writes(i,v) and not s.still(i,v,p,pos) for i in stores) or any(s.callwrites(i,v) for i in calls)
            # blocks of loops inside that the path runs through may change memory too
            for b in p:
                t=b.instrs[-1]
                if len(t.succs or ())<2: continue
                o=[s.outcomes(b,x,h,body) for x in t.succs]
                if all(x==o[0] for x in o): continue
                exits+=1
                for k,v in s.leaves(t.ops[0],body,set()):
                    if k=='call': moved=True
                    elif k=='again': moved|=wait
                    elif k=='mem': moved|=eff(v) or s.addrmoves(v,p,pos,h,body)
                    elif v.block is h:
                        prev=p[-1]; w=[x for x,b2 in v.incoming if b2 is prev]
                        if not w or s.differs(w[0],v,p,pos,h,body): moved=True
                    else:
                        # merged inside the round: depends on the way taken
                        x=s.onpath(v,p,pos)
                        if x is not v:
                            for k2,y in s.leaves(x,body,set()) if x.kind=='instr' and x.op!='phi' else [('phi',x)] if x.kind=='instr' else []:
                                if k2=='call' or k2=='mem' and (eff(y) or s.addrmoves(y,p,pos,h,body)): moved=True
                                elif k2=='phi' and y.block is h:
                                    w=[z for z,b2 in y.incoming if b2 is p[-1]]
                                    if not w or s.differs(w[0],y,p,pos,h,body): moved=True
                        else: moved=True
                if moved: break
            if not moved and not(exits==0 and wait): return p
        return None
    def addrmoves(s,v,p,pos,h,body):
        for k,x in s.leaves(v,body,set())-{('mem',v)}:
            if k=='phi' and x.block is h:
                w=[z for z,b2 in x.incoming if b2 is p[-1]]
                if not w or s.differs(w[0],x,p,pos,h,body): return True
            elif k=='phi' or k=='call': return True
        return False

# ---- compression pointers
def key(v,d=0):
    v=strip(v)
    if v.kind=='const': return('c',v.v)
    if v.kind=='instr' and d<14:
        if v.op in('sext','zext','trunc','freeze','ptrtoint','inttoptr'): return key(v.ops[0],d)
        if v.op in('load','gep','add','sub','mul','shl','and','or','lshr','xor'): return(v.op,)+tuple(key(o,d+1) for o in v.ops)
        if v.op=='icmp': return('icmp',v.pred)+tuple(key(o,d+1) for o in v.ops)
        if v.op=='select': return('ite',)+tuple(key(o,d+1) for o in v.ops)
        if v.op=='phi':
            m=merge(v)
            if m: return('ite',)+tuple(key(o,d+1) for o in m)
    return('v',id(v))
def merge(v):
    """(condition, value if true, value if false) of a two-way merge"""
    if len(v.incoming)!=2: return None
    (x,a),(y,b)=v.incoming
    for c,t in((a,b),(b,a)):
        k=c.instrs[-1]
        if len(k.succs or ())==2 and v.block in k.succs and t in k.succs and t.preds==[c]:         # one-armed
            val={c:None,t:None}; val[a]=x; val[b]=y
            return (k.ops[0],val[t],val[c]) if k.succs[0] is t else (k.ops[0],val[c],val[t])
    if len(a.preds)==1 and a.preds==b.preds:
        k=a.preds[0].instrs[-1]
        if len(k.succs or ())==2 and set(k.succs)=={a,b}: return (k.ops[0],x,y) if k.succs[0] is a else (k.ops[0],y,x)
    return None
def cast(v):
    v=strip(v)
    while v.kind=='instr' and v.op in('sext','zext','trunc','freeze'): v=strip(v.ops[0])
    return v
def affine(v,d=0,cast=False):
    """{leaf: factor}, constant under None"""
    v=strip(v); r={}
    def put(x,k):
        for a,b in x.items(): r[a]=r.get(a,0)+k*b
    if v.kind=='const': return {None:v.v}
    if v.kind=='null': return {None:0}
    if v.kind=='instr' and d<14:
        if v.op in('sext','zext','ptrtoint','inttoptr','freeze') or cast and v.op=='trunc': return affine(v.ops[0],d,cast)
        if v.op in('add','sub'): put(affine(v.ops[0],d+1,cast),1); put(affine(v.ops[1],d+1,cast),1 if v.op=='add' else -1); return {k:x for k,x in r.items() if x or k is None}
        if v.op=='gep' and len(v.ops)==2 and v.srcty is not None and v.srcty.size==1: put(affine(v.ops[0],d+1,cast),1); put(affine(v.ops[1],d+1,cast),1); return {k:x for k,x in r.items() if x or k is None}
    return {key(v):1}
def jumps(f,h,body):
    """[(phi, position set anew)]: places inside a loop where a position is set from a number read through it"""
    out=[]
    for p in h.instrs:
        if p.op!='phi' or p.ty.kind!='ptr': continue
        seen=set(); w=[x for x,b in p.incoming if b in body]
        while w:
            x=strip(w.pop())
            if id(x) in seen or x.kind!='instr' or x.block not in body: continue
            seen.add(id(x))
            if x.op in('phi','select'): w+= x.ops if x.op=='phi' else x.ops[1:]
            elif x.op=='gep':
                a=affine(x); me=key(p)
                if me in a: continue
                def reads(v,d=0):
                    v=strip(v)
                    if v is p: return True
                    return v.kind=='instr' and d<16 and v.op!='call' and (v.op!='phi' or v.block in body and merge(v) is not None) and any(reads(o,d+1) for o in v.ops)
                def loads(v,d=0):
                    v=strip(v)
                    if v.kind!='instr' or d>16: return False
                    if v.op=='load' and reads(v.ops[0]): return True
                    return (v.op!='phi' or merge(v) is not None) and any(loads(o,d+1) for o in v.ops)
                if any(loads(o) for o in x.ops[1:]): out.append((p,x))
    return out
def backwards(f,h,body,p,x):
    """is the new position strictly before the old one whenever it is taken"""
    want=dict(affine(x)); me=key(p); want[me]=want.get(me,0)-1      # new - old
    want={k:v for k,v in want.items() if v}
    for b in body:
        t=b.instrs[-1]
        if len(t.succs or ())!=2: continue
        c=strip(t.ops[0])
        if c.kind!='instr' or c.op!='icmp': continue
        l=dict(affine(c.ops[0]))
        for k,v in affine(c.ops[1]).items(): l[k]=l.get(k,0)-v
        l={k:v for k,v in l.items() if v}
        for sgn in(1,-1):
            d={k:sgn*v for k,v in l.items()}; k0=d.pop(None,0); w=dict(want); k1=w.pop(None,0)
            if d!=w: continue
            # compare: d+k0 PRED 0 ; want d+k1 <= -1
            pred=c.pred if sgn==1 else {'slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(c.pred,c.pred)
            for side,s in enumerate(t.succs):
                pr=pred if side==0 else {'slt':'sge','sge':'slt','sgt':'sle','sle':'sgt','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt','eq':'ne','ne':'eq'}.get(pred)
                top=None
                if pr in('slt','ult'): top=-1-k0
                elif pr in('sle','ule'): top=-k0
                if top is None or top+k1>-1: continue
                # the new position is taken only on this side
                seen={h}; st=[h]; hit=x.block is h
                while st:
                    y=st.pop()
                    for n in y.succs:
                        if y is b and n is s and not(t.succs[0] is t.succs[1]): continue
                        if n in body and n not in seen and n is not h: seen.add(n); st.append(n)
                if x.block not in seen or b is x.block and False: return True
    return False

def counted(f,h,body):
    """a way out of the loop taken when a number stepped every round passes a constant"""
    for b in body:
        t=b.instrs[-1]
        if len(t.succs or ())!=2 or all(x in body for x in t.succs): continue
        c=strip(t.ops[0])
        if c.kind!='instr' or c.op!='icmp': continue
        a=affine(c.ops[0]); q=affine(c.ops[1])
        for p in h.instrs:
            if p.op!='phi': break
            me=key(p)
            if (me in a)==(me in q) or any(k not in(None,me) for k in list(a)+list(q)): continue
            if all(affine(x).get(me)==1 and affine(x).get(None,0)>0 and len([k for k in affine(x) if k not in(None,me)])==0 for x,y in p.incoming if y in body) and not any(y in body and False for x,y in p.incoming): return True
    return False
def aliases(C,R,E):
    """names that lead to names: followed only a limited number of times"""
    P=C.P; n=0
    find=set(P.reaching(['DNSCache_FindFromCache'])); alias=set(P.reaching(['HostsUtils_GetCName']))
    for f in sorted(P.fns,key=lambda f:(f.file,f.src)):
        ls,dom=loops(f)
        # in the cache: the name searched for is replaced by the name found
        for h,body in ls:
            for b in sorted(body,key=lambda b:b.i):
                for i in b.instrs:
                    if i.op!='call' or not any(t in find for t in P.targets(i)): continue
                    rs=[E.root(o) for o in i.ops]
                    swap=[j for c in body for j in c.instrs if j.op=='call' and any(t=='strcpy' or t.startswith('llvm.mem') or t in('strncpy','memcpy') for t in P.targets(j)) and any(E.root(j.ops[0]) is r for r in rs) and any(E.root(j.ops[1]) is r for r in rs)]
                    if not swap: continue
                    n+=1; bad=None
                    if not counted(f,h,body):
                        for p in E.paths(h,body,4000) or ():
                            pos={x:k for k,x in enumerate(p)}
                            if not E.possible(p,pos,h): continue
                            lim=False
                            for x in p:
                                t=x.instrs[-1]
                                if len(t.succs or ())<2: continue
                                o=[E.outcomes(x,y,h,body) for y in t.succs]
                                if all(y==o[0] for y in o): continue
                                for k,v in E.leaves(t.ops[0],body,set()):
                                    if k=='call' and v is not i and P.targets(v) and strip(v.callee).kind!='func' and generator(P,v): lim=True
                            if not lim: bad=p; break
                    if bad: R.violation('alias:%s'%f.src,'aliases in the cache are followed from one to the next without a limit: two that lead to each other are followed for ever, with the cache locked',i.loc,[j.loc for x in bad for j in x.instrs if j.line][:12])
                    else: R.ok('%s: following aliases ends when the answer is full or a limit is reached'%f.src)
        # in the hosts: the alias is asked as a new question, which comes back here
        for b in f.blocks:
            for i in b.instrs:
                if i.op!='call' or 'sendto' not in P.targets(i): continue
                a=strip(i.ops[0])
                if not(a.kind=='instr' and a.op=='load' and tag_of(a.ops[0])==('G','InnerSocket')): continue
                n+=1; ok=False
                for d in dom[b]:
                    t=d.instrs[-1]
                    if len(t.succs or ())!=2 or d is b: continue
                    if not(t.succs[0] in dom[b])^(t.succs[1] in dom[b]): continue
                    def limits(v,k=0):
                        v=strip(v)
                        if v.kind!='instr' or k>8: return False
                        if v.op=='call':
                            for g in P.targets(v):
                                g=next((x for x in P.fns if x.name==g),None)
                                if g is None: continue
                                if any(counted(g,h,body) and any(j.op=='call' and any(t in alias for t in P.targets(j)) for x in body for j in x.instrs) for h,body in loops(g)[0]): return True
                            return False
                        if v.op=='icmp' and any(strip(o).kind=='const' and strip(o).v>1 for o in v.ops) and any(strip(o).kind=='instr' and strip(o).op=='load' and (tag_of(strip(o).ops[0]) or 'A')[0] not in('A','G') for o in v.ops): 
                            return v.pred not in('eq','ne')
                        return any(limits(o,k+1) for o in v.ops)
                    if limits(t.ops[0]): ok=True
                if ok: R.ok('%s: a question is asked again under its alias only after the chain of aliases was found to end'%f.src)
                else: R.violation('alias:%s'%f.src,'a question is asked again under its alias without knowing that the chain of aliases ends: two hosts entries that lead to each other keep it going for ever',i.loc)
    R.need(n,2,'places where aliases are followed')
def generator(P,v):
    c=strip(v.callee)
    return c.kind=='instr' and c.op=='load' and any(t in GEN(P) for t in P.targets(v))
def GEN(P):
    r=getattr(P,'_gen',None)
    if r is None: r=P._gen={f.name for f in P.fns if f.src.startswith('DnsGenerator_')}
    return r

def P08(C,R,tier):
    E=Ends(C); n=0; j=0; big=0
    for f in sorted(C.P.fns,key=lambda f:(f.file,f.src)):
        ls,dom=loops(f)
        for h,body in ls:
            w=E.loop(f,h,body,20000 if tier=='thorough' else 3000)
            loc=next((i.loc for b in [h]+sorted(body,key=lambda b:b.i) for i in b.instrs if i.line),f.file)
            if w is not None:
                at=[i.loc for b in w for i in b.instrs if i.line]
                R.violation('round:%s'%f.src,'a round of this loop changes nothing its end depends on, so it never ends',loc,['%s: %s'%(x,'on the way round') for x in dict.fromkeys(at)][:20])
            elif E.over: big+=1
            else: n+=1; R.ok('%s: every round of the loop at %s changes something its end depends on'%(f.src,loc))
            for p,x in jumps(f,h,body):
                if backwards(f,h,body,p,x): j+=1; R.ok('%s: the position taken from the message at %s lies before the current one'%(f.src,x.loc))
                else: R.violation('jump:%s'%f.src,'a position read from the message is followed without being before the current one: a name can lead back to itself for ever',x.loc)
    aliases(C,R,E)
    R.cov['loops']=n; R.cov['loops_with_too_many_ways']=big
    if big: R.notes.append('%d loops have more ways through one round than are enumerated; they are not judged'%big)
    R.need(n,100,'loops'); R.need(j,1,'compression pointers followed')
RULES={'P08':P08}
