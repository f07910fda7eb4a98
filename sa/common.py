"""Shared plumbing: program loading, anchors, reports, evidence, known findings."""
import os, sys, json, time, traceback
from . import build, ir, cg, flow

ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Broken(Exception):
    """an anchor vanished / a rule has no instance: the analysis cannot answer (exit 2)"""

class Ctx:
    def __init__(s,repo=None):
        bc,ll,src=build.compile_tree(repo)
        s.src=src; s.M=ir.load(bc,ll); s.P=cg.Prog(s.M)
        s.bysrc={}
        for f in s.P.fns: s.bysrc.setdefault(f.src,[]).append(f)
        s.gsrc={}
        for g in s.M.globals.values():
            s.gsrc.setdefault(getattr(g,'src',g.name),[]).append(g)
    def fns(s,name): return s.bysrc.get(name,[])
    def fn(s,name,file=None,need=True):
        c=[f for f in s.bysrc.get(name,[]) if file is None or os.path.basename(f.file or '')==file]
        if len(c)==1: return c[0]
        if not c:
            if need: raise Broken('anchor function %s%s not found'%(name,' in '+file if file else ''))
            return None
        raise Broken('anchor function %s is ambiguous'%name)
    def glob(s,name,file=None,need=True):
        c=[g for g in s.gsrc.get(name,[]) if file is None or os.path.basename(getattr(g,'file','') or '')==file]
        if len(c)==1: return c[0]
        if not c:
            if need: raise Broken('anchor variable %s%s not found'%(name,' in '+file if file else ''))
            return None
        raise Broken('anchor variable %s is ambiguous'%name)
    def off(s,struct,field):
        o=ir.field_offset(s.M,struct,field)
        if o is None: raise Broken('anchor field %s.%s not found'%(struct,field))
        return o
    def tag(s,struct,field):
        """IR tag ('struct.X',off) of a named field"""
        o=s.off(struct,field)
        for k in ('struct.'+struct,'struct._'+struct,'union.'+struct):
            if k in s.M.structs and k in s.M.fieldnames: return (k,o)
        for k in ('struct.'+struct,'struct._'+struct):
            if k in s.M.structs: return (k,o)
        # the linker merges structures of one layout: the one that carries the name's offsets
        fn=s.M.fieldnames.get('struct.'+struct) or s.M.fieldnames.get('struct._'+struct)
        if fn:
            offs=sorted(v[0] for v in fn)
            m=[k for k,t in s.M.structs.items() if t.offsets is not None and sorted(t.offsets)==offs]
            if len(m)==1: return (m[0],o)
        raise Broken('struct %s not found'%struct)
    def enum(s,name):
        if name not in s.M.enums: raise Broken('anchor constant %s not found'%name)
        return s.M.enums[name]
    def cval(s,header,*exprs):
        try: r=build.cvals(header,exprs)
        except build.BuildError as e: raise Broken(str(e))
        return r[0] if len(exprs)==1 else r
    def name(s,fname):
        f=s.M.functions.get(fname); return f.src if f else fname
    def field(s,t):
        """a member the way the source names it"""
        n=t[0].split('.')[-1].lstrip('_'); fs=s.M.fieldnames.get(t[0])
        for x in (fs or ()):
            if x[0]==t[1]: return '%s.%s'%(n,x[1])
        return '%s+%d'%(n,t[1])
    def threads_reaching(s,names):
        r=s.P.reaching(names)
        return [s.M.functions[t] for t in sorted(s.P.threads) if t in r]

class Result:
    """collects what a rule decided"""
    def __init__(s,prop):
        s.prop=prop; s.viol=[]; s.obl=[]; s.notes=[]; s.cov={}; s.assume=[]
    def violation(s,key,msg,loc='',trace=()):
        for v in s.viol:
            if v['key']==key: return
        s.viol.append({'key':key,'msg':msg,'loc':loc,'trace':list(trace)})
    def ok(s,what): s.obl.append(what)
    def need(s,n,least,what):
        if n<least: raise Broken('%s: only %d instance(s), at least %d expected'%(what,n,least))
    def take(s,eng,prefix=''):
        for k,v in eng.violations.items(): s.violation(prefix+str(k),v['msg'],v['loc'],v['trace'])
        c=s.cov
        c['blocks_explored']=c.get('blocks_explored',0)+eng.blocks
        c['instructions_interpreted']=c.get('instructions_interpreted',0)+eng.steps
        c.setdefault('functions_entered',[])
        c['functions_entered']=sorted(set(c['functions_entered'])|eng.visited_fns)

KF=os.path.join(ROOT,'known_findings.txt')
def known(prop):
    """list of finding keys recorded for a property"""
    out=[]
    if os.path.exists(KF):
        for l in open(KF):
            l=l.rstrip('\n')
            if l.startswith('finding: property=%s '%prop):
                rest=l.split(' ',2)[2]
                key,_,text=rest.partition(' :: ')
                out.append((key,text))
    return out

def run(prop,fn,tier='quick',level='other',ctx=None):
    t=time.time(); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    try:
        ctx=ctx or Ctx()
        R=Result(prop)
        fn(ctx,R,tier)
        if not R.obl: raise Broken('no obligation was generated')
    except (Broken,build.BuildError) as e:
        print('ANALYSIS-BROKEN property=%s %s'%(prop,e)); return 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error'%prop); return 2
    kn=known(prop); left=[]; shown=set()
    for v in R.viol:
        m=[k for k,_ in kn if k==v['key']]
        if m: shown.add(m[0])
        else: left.append(v)
    for k,text in kn:
        if k in shown: print('KNOWN-FINDING: property=%s %s (%s)'%(prop,text,k))
    nd=len(R.obl)
    cov={'explanation':'static analysis of the LLVM SSA form of the working tree; each obligation is a rule instance decided on every path without running the code',
         'units':len(ctx.src),'functions_in_program':len(ctx.P.fns),
         'obligations':nd+len(R.viol),'discharged':nd,'obligation_list':R.obl[:400],
         'unresolved_indirect_calls':len(ctx.P.unresolved)}
    cov.update({k:v for k,v in R.cov.items() if k!='functions_entered'})
    fe=R.cov.get('functions_entered')
    if fe: cov['functions_entered']=len(fe); cov['functions_entered_list']=[ctx.name(x) for x in fe]
    ev={'property':prop,'tier':tier,'seed':seed,'level':level,'coverage':cov,'wall_s':round(time.time()-t,2),
        'assumptions':R.assume or ['C strict aliasing for named fields; indirect calls resolved field-based','the POSIX build configuration recorded in sa/config_fallback.h'],
        'violations':[{'key':v['key'],'what':v['msg'],'where':v['loc'],'path':v['trace']} for v in left]}
    if R.notes: ev['coverage']['notes']=R.notes
    EV=os.environ.get('SA_EVIDENCE') or os.path.join(ROOT,'evidence'); os.makedirs(EV,exist_ok=True)
    json.dump(ev,open(os.path.join(EV,prop+'.json'),'w'),indent=1)
    if left:
        rp=os.path.join(EV,prop+'.report.txt')
        with open(rp,'w') as f:
            for v in left:
                f.write('rule %s: %s\n  at %s\n  key %s\n'%(prop,v['msg'],v['loc'],v['key']))
                for x in v['trace']: f.write('    %s\n'%x)
        for v in left:
            print('%s: %s [%s]'%(v['loc'],v['msg'],v['key']))
            for x in v['trace'][-12:]: print('      %s'%x)
            print('VIOLATION property=%s replay=%s'%(prop,rp))
        return 1
    print('OK property=%s %d obligations discharged, %d functions analysed (%.1fs)'%(prop,nd,len(fe or ()) or len(ctx.P.fns),time.time()-t))
    return 0
