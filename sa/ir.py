"""In-memory view of an LLVM module, read through the LLVM C API (ctypes)."""
import ctypes as C, re, os

_lib = None
def lib():
    global _lib
    if _lib is None:
        for n in ("libLLVM-18.so", "libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so"):
            try:
                _lib = C.CDLL(n); break
            except OSError:
                continue
        if _lib is None:
            raise RuntimeError("libLLVM-18 not found")
        P, U, S = C.c_void_p, C.c_uint, C.c_char_p
        def f(n, res, *a):
            fn = getattr(_lib, n); fn.restype = res; fn.argtypes = list(a)
        for n in "LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction LLVMTypeOf LLVMGetFirstGlobal LLVMGetNextGlobal LLVMGetInitializer LLVMGetCalledValue LLVMGlobalGetValueType LLVMGetAllocatedType LLVMGetGEPSourceElementType LLVMGetElementType LLVMGetSubprogram LLVMGetModuleDataLayout LLVMGetSwitchDefaultDest LLVMGetCondition LLVMValueAsBasicBlock LLVMGetCalledFunctionType LLVMGetReturnType".split():
            f(n, P, P)
        f("LLVMContextCreate", P)
        f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, C.POINTER(P), C.POINTER(S))
        f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(S))
        f("LLVMGetInstructionOpcode", C.c_int, P)
        f("LLVMGetConstOpcode", C.c_int, P)
        f("LLVMGetICmpPredicate", C.c_int, P)
        f("LLVMGetNumOperands", C.c_int, P)
        f("LLVMGetOperand", P, P, U)
        f("LLVMGetValueKind", C.c_int, P)
        f("LLVMGetTypeKind", C.c_int, P)
        f("LLVMGetIntTypeWidth", U, P)
        f("LLVMConstIntGetSExtValue", C.c_longlong, P)
        f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
        f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
        f("LLVMGetStructName", S, P)
        f("LLVMCountStructElementTypes", U, P)
        f("LLVMStructGetTypeAtIndex", P, P, U)
        f("LLVMGetArrayLength", U, P)
        f("LLVMABISizeOfType", C.c_ulonglong, P, P)
        f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
        f("LLVMGetDebugLocLine", U, P)
        f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
        f("LLVMIsDeclaration", C.c_int, P)
        f("LLVMIsGlobalConstant", C.c_int, P)
        f("LLVMCountParams", U, P)
        f("LLVMGetParam", P, P, U)
        f("LLVMCountIncoming", U, P)
        f("LLVMGetIncomingValue", P, P, U)
        f("LLVMGetIncomingBlock", P, P, U)
        f("LLVMGetNumSuccessors", U, P)
        f("LLVMGetSuccessor", P, P, U)
        f("LLVMIsConstantString", C.c_int, P)
        f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
        f("LLVMGetLinkage", C.c_int, P)
        f("LLVMPrintTypeToString", P, P)
        f("LLVMGetNumArgOperands", U, P)
        f("LLVMGetAggregateElement", P, P, U)
        f("LLVMDisposeMessage", None, P)
        f("LLVMSetInstDebugLocation", None, P, P)
    return _lib

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',
 55:'fence',56:'cmpxchg',57:'atomicrmw'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}

class Ty:
    __slots__ = ('kind','bits','name','size','elem','count','fields','offsets','text')
    def __repr__(self): return self.text
class Const:
    __slots__=('v','bits'); kind='const'
    def __init__(s,v,bits): s.v=v; s.bits=bits
    def __repr__(s): return str(s.v)
class Null:
    kind='null'
    def __repr__(s): return 'null'
class Undef:
    kind='undef'
    def __repr__(s): return 'undef'
class OtherConst:
    kind='otherconst'
    def __init__(s,n=''): s.n=n
    def __repr__(s): return 'const?'
class Global:
    kind='global'
    def __init__(s,name): s.name=name; s.ty=None; s.init=None; s.string=None; s.constant=False; s.src=name; s.elems=None; s.internal=False
    def __repr__(s): return '@'+s.name
class FuncRef:
    kind='func'
    def __init__(s,fn): s.fn=fn; s.name=fn.name
    def __repr__(s): return '@'+s.name
class Arg:
    kind='arg'
    def __init__(s,fn,i,name,ty): s.fn=fn; s.i=i; s.name=name; s.ty=ty
    def __repr__(s): return '%'+(s.name or 'arg%d'%s.i)
class CExpr:
    kind='cexpr'
    def __init__(s,op,ops,src=None): s.op=op; s.ops=ops; s.srcty=src
    def __repr__(s): return '%s(%s)'%(s.op,','.join(map(repr,s.ops)))
class Instr:
    kind='instr'
    __slots__=('op','ops','ty','name','block','line','file','pred','incoming','succs','callee','srcty','allocty','cases','idx','fn','uid')
    def __repr__(s):
        return '%%%s=%s'%(s.name or s.uid, s.op)
    @property
    def loc(s): return '%s:%d'%(os.path.basename(s.file or s.fn.file or '?'), s.line)
class Block:
    def __init__(s,fn,name,i): s.fn=fn; s.name=name; s.instrs=[]; s.i=i; s.preds=[]; s.succs=[]
    def __repr__(s): return '%s:%s'%(s.fn.name,s.name)
class Function:
    def __init__(s,name): s.name=name; s.src=name; s.args=[]; s.blocks=[]; s.decl=True; s.file=None; s.line=0; s.retty=None; s.internal=False; s.params=[]
    def __repr__(s): return '<fn %s>'%s.name
    def instrs(s):
        for b in s.blocks:
            for i in b.instrs: yield i

class Module:
    def __init__(s): s.functions={}; s.globals={}; s.structs={}; s.fieldnames={}; s.nsrc=0
    def fn(s,name): return s.functions.get(name)

def load(bc, ll=None):
    L=lib(); ctx=L.LLVMContextCreate()
    buf=C.c_void_p(); msg=C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(bc.encode(),C.byref(buf),C.byref(msg)): raise RuntimeError(msg.value)
    m=C.c_void_p()
    if L.LLVMParseIRInContext(ctx,buf,C.byref(m),C.byref(msg)): raise RuntimeError(msg.value)
    DL=L.LLVMGetModuleDataLayout(m)
    M=Module(); M._keep=(ctx,m)
    tycache={}
    def ty(t):
        if not t: return None
        r=tycache.get(t)
        if r: return r
        r=Ty(); tycache[t]=r
        k=L.LLVMGetTypeKind(t)
        r.kind={0:'void',1:'half',2:'float',3:'double',4:'x86fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata'}.get(k,'k%d'%k)
        r.bits=None;r.name=None;r.size=None;r.elem=None;r.count=None;r.fields=None;r.offsets=None
        p=L.LLVMPrintTypeToString(t); r.text=C.cast(p,C.c_char_p).value.decode(); L.LLVMDisposeMessage(p)
        if r.kind=='int': r.bits=L.LLVMGetIntTypeWidth(t)
        elif r.kind=='struct':
            n=L.LLVMGetStructName(t); r.name=n.decode() if n else None
            if r.text.endswith('opaque'): return r
            c=L.LLVMCountStructElementTypes(t)
            r.fields=[ty(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(c)]
            try: r.offsets=[L.LLVMOffsetOfElement(DL,t,i) for i in range(c)]
            except Exception: pass
            if r.name: M.structs[r.name]=r
        elif r.kind=='array':
            r.elem=ty(L.LLVMGetElementType(t)); r.count=L.LLVMGetArrayLength(t)
        if r.kind in('int','ptr','struct','array','float','double','half','vector','x86fp80'):
            r.size=L.LLVMABISizeOfType(DL,t)
        return r
    def nm(v):
        n=C.c_size_t(); s=L.LLVMGetValueName2(v,C.byref(n)); return s.decode(errors='replace') if s else ''
    vals={}
    NULL=Null(); UND=Undef()
    def val(v):
        r=vals.get(v)
        if r is not None: return r
        k=L.LLVMGetValueKind(v)
        # kinds: 0 arg,1 bb,5 func,8 globalvar,10 constexpr, 11 array,12 struct,14 undef,15 aggzero,16 dataarray,18 int,19 fp,20 nullptr,23 poison?,24 instr
        if k==17+1 or k==18:
            b=L.LLVMGetIntTypeWidth(L.LLVMTypeOf(v)); r=Const(L.LLVMConstIntGetSExtValue(v) if b>1 else L.LLVMConstIntGetZExtValue(v),b)
        elif k==20: r=NULL
        elif k in(14,): r=UND
        elif k==10:
            op=OPC.get(L.LLVMGetConstOpcode(v),'?')
            ops=[val(L.LLVMGetOperand(v,i)) for i in range(L.LLVMGetNumOperands(v))]
            r=CExpr(op,ops,ty(L.LLVMGetGEPSourceElementType(v)) if op=='gep' else None)
        else: r=OtherConst(str(k))
        vals[v]=r
        return r
    # globals
    g=L.LLVMGetFirstGlobal(m); gl=[]
    while g:
        G=Global(nm(g)); G.ty=ty(L.LLVMGlobalGetValueType(g)); G.constant=bool(L.LLVMIsGlobalConstant(g)); G.internal=L.LLVMGetLinkage(g) in(8,9)
        vals[g]=G; M.globals[G.name]=G; gl.append((g,G)); g=L.LLVMGetNextGlobal(g)
    f=L.LLVMGetFirstFunction(m); fl=[]
    while f:
        F=Function(nm(f)); vals[f]=FuncRef(F); F.decl=bool(L.LLVMIsDeclaration(f)); M.functions[F.name]=F; fl.append((f,F))
        F.internal=L.LLVMGetLinkage(f) in(8,9)
        F.retty=ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
        F.args=[]
        for i in range(L.LLVMCountParams(f)):
            p=L.LLVMGetParam(f,i); a=Arg(F,i,nm(p),ty(L.LLVMTypeOf(p))); vals[p]=a; F.args.append(a)
        f=L.LLVMGetNextFunction(f)
    def cinit(v):
        k=L.LLVMGetValueKind(v)
        if L.LLVMIsConstantString(v) if k==16 else False:
            n=C.c_size_t(); p=L.LLVMGetAsString(v,C.byref(n)); return C.string_at(p,n.value)
        t=ty(L.LLVMTypeOf(v))
        if t.kind in('array','struct'):
            n=t.count if t.kind=='array' else len(t.fields or [])
            if n>4096: return OtherConst('big')
            return [cinit(L.LLVMGetAggregateElement(v,i)) for i in range(n)]
        return val(v)
    for g,G in gl:
        i=L.LLVMGetInitializer(g) 
        if i:
            G.elems=cinit(i)
            if isinstance(G.elems,bytes): G.string=G.elems.rstrip(b'\0') if G.elems.endswith(b'\0') else G.elems
            elif G.ty.kind=='array' and G.ty.elem.kind=='int' and G.ty.elem.bits==8 and isinstance(G.elems,list) and all(isinstance(e,Const) for e in G.elems):
                G.string=bytes((e.v&255) for e in G.elems).rstrip(b'\0')
    uid=0
    for f,F in fl:
        if F.decl: continue
        bbs={}; order=[]
        b=L.LLVMGetFirstBasicBlock(f)
        while b:
            B=Block(F,'',len(order)); bbs[b]=B; order.append(b); B.name='b%d'%B.i; b=L.LLVMGetNextBasicBlock(b)
        F.blocks=[bbs[b] for b in order]
        ins=[]
        for b in order:
            i=L.LLVMGetFirstInstruction(b); B=bbs[b]
            while i:
                I=Instr(); I.uid=uid; uid+=1
                I.op=OPC.get(L.LLVMGetInstructionOpcode(i),'?'); I.block=B; I.fn=F; I.name=nm(i); I.idx=len(B.instrs)
                I.ty=ty(L.LLVMTypeOf(i)); I.pred=None; I.incoming=None; I.succs=None; I.callee=None; I.srcty=None; I.allocty=None; I.cases=None; I.ops=[]
                I.line=L.LLVMGetDebugLocLine(i)
                n=C.c_uint(); p=L.LLVMGetDebugLocFilename(i,C.byref(n)); I.file=C.string_at(p,n.value).decode() if p and n.value else None
                if F.file is None and I.file: F.file=I.file
                vals[i]=I; ins.append((i,I)); B.instrs.append(I); i=L.LLVMGetNextInstruction(i)
        for i,I in ins:
            op=I.op
            if op=='phi':
                I.incoming=[(val(L.LLVMGetIncomingValue(i,k)),bbs[L.LLVMGetIncomingBlock(i,k)]) for k in range(L.LLVMCountIncoming(i))]
                I.ops=[v for v,_ in I.incoming]
            elif op=='br':
                I.succs=[bbs[L.LLVMGetSuccessor(i,k)] for k in range(L.LLVMGetNumSuccessors(i))]
                if len(I.succs)==2: I.ops=[val(L.LLVMGetCondition(i))]
            elif op=='switch':
                n=L.LLVMGetNumOperands(i); I.ops=[val(L.LLVMGetOperand(i,0))]
                dflt=bbs[L.LLVMGetSwitchDefaultDest(i)]; I.cases=[]
                for k in range(2,n,2):
                    I.cases.append((val(L.LLVMGetOperand(i,k)).v,bbs[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i,k+1))]))
                I.succs=[dflt]+[b for _,b in I.cases]
            elif op=='call':
                n=L.LLVMGetNumArgOperands(i); I.ops=[val(L.LLVMGetOperand(i,k)) if L.LLVMGetValueKind(L.LLVMGetOperand(i,k))!=22 else OtherConst('md') for k in range(n)]
                I.callee=val(L.LLVMGetCalledValue(i))
            else:
                I.ops=[val(L.LLVMGetOperand(i,k)) for k in range(L.LLVMGetNumOperands(i))]
                if op=='icmp': I.pred=PRED[L.LLVMGetICmpPredicate(i)]
                elif op=='gep': I.srcty=ty(L.LLVMGetGEPSourceElementType(i))
                elif op=='alloca': I.allocty=ty(L.LLVMGetAllocatedType(i))
        for B in F.blocks:
            # drop debug intrinsics
            B.instrs=[I for I in B.instrs if not(I.op=='call' and getattr(I.callee,'kind','')=='func' and I.callee.name.startswith(('llvm.dbg','llvm.lifetime')))]
            for k,I in enumerate(B.instrs): I.idx=k
            t=B.instrs[-1]
            B.succs=list(dict.fromkeys(t.succs or []))
            for s in B.succs: s.preds.append(B)
        for I in F.blocks[0].instrs:
            if I.line: F.line=I.line; break
    M.DL=DL
    if ll: _debuginfo(M,ll)
    return M

_md=re.compile(r'^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$')
def _attrs(s):
    d={}
    for m in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)',s): d[m.group(1)]=m.group(2).strip('"')
    return d
def _debuginfo(M,ll):
    nodes={}; lists={}; fnsp={}
    for line in open(ll,errors='replace'):
        if line.startswith('!'):
            m=_md.match(line.rstrip())
            if m: nodes[m.group(1)]=(m.group(2),m.group(3)); continue
            m=re.match(r'^!(\d+) = !\{(.*)\}$',line.rstrip())
            if m: lists[m.group(1)]=[x.strip().lstrip('!') for x in m.group(2).split(',')]
        elif line.startswith('define'):
            m=re.search(r'@([\w.$"]+)\(.*!dbg !(\d+)',line)
            if m: fnsp[m.group(1)]=m.group(2)
        elif line.startswith('@'):
            m=re.match(r'@([\w.$"]+) = .*!dbg !(\d+)',line)
            if m and m.group(1) in M.globals:
                fnsp['@'+m.group(1)]=m.group(2)
    for f,n in fnsp.items():
        if f.startswith('@'):
            k=nodes.get(n)
            if k and k[0]=='DIGlobalVariableExpression':
                v=_attrs(k[1]).get('var','').lstrip('!'); k2=nodes.get(v)
                if k2:
                    a=_attrs(k2[1]); g=M.globals[f[1:]]; g.src=a.get('name',g.name)
                    fi=nodes.get(a.get('file','').lstrip('!')); g.file=_attrs(fi[1]).get('filename') if fi else None
        else:
            k=nodes.get(n)
            if k and f in M.functions:
                a=_attrs(k[1]); F=M.functions[f]; F.src=a.get('name',f); F.line=int(a.get('line','0') or 0)
                fi=nodes.get(a.get('file','').lstrip('!'))
                if fi: F.file=_attrs(fi[1]).get('filename',F.file)
    # parameter names and types
    def tt(n,d=0):
        n=n.lstrip('!'); k=nodes.get(n)
        if not k or d>12: return 'void'
        a=_attrs(k[1])
        if k[0]=='DIBasicType': return a.get('name','?')
        if k[0]=='DICompositeType':
            w='enum' if 'enumeration_type' in k[1] else 'struct' if 'structure_type' in k[1] else 'union' if 'union_type' in k[1] else 'array'
            return w+' '+a.get('name','')
        if k[0]=='DIDerivedType':
            b=tt(a.get('baseType',''),d+1)
            return b+'*' if 'pointer_type' in k[1] else b
        return '?'
    lv={}
    for n,(k,x) in nodes.items():
        if k=='DILocalVariable' and 'arg: ' in x:
            a=_attrs(x); lv[(a.get('scope','').lstrip('!'),int(a['arg']))]=a.get('name','')
    for f,n in fnsp.items():
        if f.startswith('@') or f not in M.functions: continue
        k=nodes.get(n)
        if not k: continue
        sr=nodes.get(_attrs(k[1]).get('type','').lstrip('!'))
        ts=lists.get(_attrs(sr[1]).get('types','').lstrip('!'),[]) if sr else []
        F=M.functions[f]; F.params=[(lv.get((n,j),''),tt(x)) for j,x in enumerate(ts[1:],1)]
    # struct field names
    td={}
    for n,(k,s) in nodes.items():
        if k=='DIDerivedType' and 'DW_TAG_typedef' in s:
            a=_attrs(s); b=a.get('baseType','').lstrip('!'); td.setdefault(b,a.get('name'))
    M.enums={}
    for n,(k,s) in nodes.items():
        if k!='DICompositeType': continue
        a=_attrs(s)
        if 'DW_TAG_enumeration_type' in s:
            for e in lists.get(a.get('elements','').lstrip('!'),[]):
                x=nodes.get(e)
                if x and x[0]=='DIEnumerator':
                    ea=_attrs(x[1]); M.enums[ea['name']]=int(ea['value'])
            continue
        if 'structure_type' not in s and 'union_type' not in s: continue
        els=[]
        for e in lists.get(a.get('elements','').lstrip('!'),[]):
            x=nodes.get(e)
            if not x: continue
            ea=_attrs(x[1])
            if ea.get('name'): els.append((int(ea.get('offset','0'))//8,ea['name'],int(ea.get('size','0')),ea.get('baseType','').lstrip('!')))
        for name in {a.get('name'),td.get(n)}-{None}:
            pre='union.' if 'union_type' in s else 'struct.'
            M.fieldnames[pre+name]=els
    M._di=(nodes,lists,td)

def field_offset(M,struct,field):
    """byte offset of a named field; struct given without prefix, typedef or tag name"""
    for k in ('struct.'+struct,'struct._'+struct,'union.'+struct):
        for off,name,_,_ in M.fieldnames.get(k,()):
            if name==field: return off
    return None
