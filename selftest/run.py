#!/usr/bin/env python3
"""selftest: plant small edits in scratch copies and compare the checks' answers.
  run.py [PROP|name|bug|quiet...]   bugs (must be reported) and neutral edits (must stay quiet)
Not used by any check."""
import sys, os, tempfile, shutil, subprocess, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
ALL='quiet' in sys.argv     # every check on every neutral edit
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get('SA_BASE','/repo')
def load():
    out=[]
    only=[a for a in sys.argv if a.startswith('m_')]
    for f in sorted(glob.glob(os.path.join(HERE,(only[0] if only else 'm_*')+'.py'))):
        sp=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for e in getattr(m,'BUGS',[]): out.append(('bug',)+tuple(e))
        for e in getattr(m,'QUIET',[]): out.append(('quiet',)+tuple(e))
    return out
def edit(d,edits):
    for f,a,b in edits:
        p=os.path.join(d,f); raw=open(p,'rb').read().decode('latin-1'); crlf='\r\n' in raw
        t=raw.replace('\r\n','\n')
        if t.count(a)<1: return 'pattern not found in %s: %r'%(f,a[:60])
        t=t.replace(a,b,1)
        open(p,'wb').write((t.replace('\n','\r\n') if crlf else t).encode('latin-1'))
    return None
def one(ent):
    kind,props,name,edits=ent
    d=tempfile.mkdtemp(prefix='sa_mut_')
    try:
        for f in glob.glob(REPO+'/*.[ch]')+glob.glob(REPO+'/makefile.am')+glob.glob(REPO+'/*.config'): shutil.copy(f,d)
        err=edit(d,edits)
        if err: return ent,'EDIT '+err,''
        res=[]; txt=''
        ps=['*'] if kind=='quiet' and ALL else props if isinstance(props,(list,tuple)) else props.split(',')
        out=[]
        for p in ps:
            r=subprocess.run([sys.executable,ROOT+'/check.py']+([p] if p!='*' else ['all']),env=dict(os.environ,SA_REPO=d,SA_EVIDENCE=d+'/ev'),capture_output=True,text=True,timeout=600)
            out.append((p,r.returncode)); txt+=r.stdout+r.stderr[-1500:]
        if kind=='bug': ok=all(rc==1 for _,rc in out) and 'VIOLATION property' in txt
        else: ok=all(rc==0 for _,rc in out)
        return ent,'ok' if ok else 'FAIL '+str(out),txt
    finally: shutil.rmtree(d,True)
if __name__=='__main__':
    v='-v' in sys.argv; want=[a for a in sys.argv[1:] if a!='-v' and not a.startswith('m_')]
    ents=[e for e in load() if not want or e[0] in want or e[1] in want or e[2] in want or (isinstance(e[1],(list,tuple)) and set(e[1])&set(want))]
    bad=0
    with ThreadPoolExecutor(int(os.environ.get('J','7'))) as ex:
        for ent,res,txt in ex.map(one,ents):
            if res!='ok' or v:
                print('%-5s %s %s: %s'%(ent[0],ent[1],ent[2],res)); 
                if res!='ok' or v: print('\n'.join('      '+l[:220] for l in txt.splitlines()[:14]))
            if res!='ok': bad+=1
    print('%d entries, %d wrong'%(len(ents),bad)); sys.exit(bad>0)
