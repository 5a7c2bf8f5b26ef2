import sys,os,shutil,subprocess,tempfile
from concurrent.futures import ThreadPoolExecutor
PY='/opt/venv/bin/python'
def run1(p):
    name,props,edits=p
    d=tempfile.mkdtemp(prefix='probe_')
    try:
        shutil.copytree('/repo/necroassembler',d+'/necroassembler',ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy('/repo/setup.py',d+'/setup.py'); shutil.copytree('/repo/tests',d+'/tests',ignore=shutil.ignore_patterns('__pycache__'))
        for f,a,b in edits:
            s=open(d+'/necroassembler/'+f).read()
            if s.count(a)<1: return name,'EDIT NOT FOUND '+a[:60]
            open(d+'/necroassembler/'+f,'w').write(s.replace(a,b,1))
        r=subprocess.run([PY,'-m','pytest','-x','-q','-p','no:cacheprovider','tests'],cwd=d,env=dict(os.environ,PYTHONPATH=d,PYTHONDONTWRITEBYTECODE='1'),capture_output=True,text=True,timeout=200)
        if r.returncode: return name,'TESTS FAIL '+r.stdout[-200:].replace('\n',' ')
        out=[]
        for c in props.split():
            e=dict(os.environ,VERIF_REPO=d,VERIF_FAILFAST='1',VERIF_TIER='quick',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0')
            try:
                r=subprocess.run([PY,'checks/%s.py'%c.lower()],cwd='/verif',env=e,capture_output=True,text=True,timeout=800)
                out.append('%s:%s'%(c,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+c in r.stdout else 'missed rc=%d'%r.returncode))
            except subprocess.TimeoutExpired: out.append(c+':TIMEOUT')
        return name,' '.join(out)
    finally: shutil.rmtree(d)
ns={}
exec(open(sys.argv[1]).read(),ns)
P=[p for p in ns['P'] if len(sys.argv)<3 or p[0] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for n,o in ex.map(run1,P): print(n,'=>',o,flush=True)
