"""pm.py SPECFILE: parallel mutation testing. SPEC: lines 'CHECK[,CHECK] | file | old | new' separated; python file with MUTS=[(checks,file,old,new)]"""
import sys,os,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
ns={}; exec(open(sys.argv[1]).read(),ns)
sel=set(map(int,sys.argv[2:]))
def one(i_m):
    i,(checks,f,old,new)=i_m
    d=tempfile.mkdtemp(prefix='pm-',dir='/tmp')
    try:
        r=d+'/repo'; shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('_build','.git'))
        edits=[(f,old,new)] if isinstance(old,str) else [(f,)+t for t in zip(old,new)]
        for (f,old1,new1) in edits:
            p=r+'/'+f; s=open(p).read()
            if s.count(old1)<1: return i,'NOMATCH '+old1
            s=s.replace(old1,new1,1); open(p,'w').write(s)
        out=[]
        for c in checks.split(','):
            e=dict(os.environ,SA_REPO=r,SA_EVIDENCE=d+'/ev')
            p=subprocess.run(['python3','-m','sa.run',c],cwd='/verif',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            ls=[l for l in p.stdout.splitlines() if 'VIOLATION' not in l or True]
            out.append('%s rc=%d %s'%(c,p.returncode,' // '.join(x[:200] for x in ls[-2:])))
        return i,'\n      '.join(out)
    finally: shutil.rmtree(d,ignore_errors=True)
ms=[(i,m) for i,m in enumerate(ns['MUTS']) if not sel or i in sel]
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for i,o in ex.map(one,ms):
        m=ns['MUTS'][i]
        print(i,m[1],'|',str(m[2])[:60].replace('\n','~'),'->',str(m[3])[:60].replace('\n','~')); print('     ',o,flush=True)
