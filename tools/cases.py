#!/usr/bin/env python3
# run.py CASES.py [names]: each case: (name, expect 'ok'|'bad', [props], [(file, old, new)])
import sys,subprocess,shutil,os,tempfile
from concurrent.futures import ThreadPoolExecutor
ns={};exec(open(sys.argv[1]).read(),ns)
only=set(sys.argv[2:])
def run(c):
    name,exp,props,edits=c
    w=tempfile.mkdtemp(dir='/tmp/goast-cases'); r=os.path.join(w,'repo'); v=os.path.join(w,'v'); os.mkdir(v)
    subprocess.check_call(['cp','-a','/repo',r])
    out=''
    for f,o,n in edits:
        p=os.path.join(r,f); s=open(p).read()
        if s.count(o)<1: out+='NOMATCH %r '%o[:40]; continue
        open(p,'w').write(s.replace(o,n,1))
    g=subprocess.run('. /opt/vp/env.sh; cd %s; gofmt -l . ; go build ./... && go vet . 2>&1 | head -5'%r,shell=True,capture_output=True,text=True)
    if g.returncode: out+='BUILD '+g.stderr[:300]
    t=''
    if exp=='ok' or os.environ.get('TESTS'):
        g=subprocess.run('. /opt/vp/env.sh; cd %s; go test ./... 2>&1 | grep -v "^ok\\|no test files" | head -5'%r,shell=True,capture_output=True,text=True)
        if g.stdout.strip(): t=' TESTFAIL '+g.stdout[:150]
    res=[]
    for p in props:
        e=dict(os.environ,GOAST_REPO=r,GOAST_VERIF=v)
        x=subprocess.run(['timeout','600','/tmp/an',p],capture_output=True,text=True,env=e)
        l=[a for a in x.stdout.splitlines() if '[' in a][:2]
        good=(x.returncode==0)==(exp=='ok')
        res.append('  %s %s rc=%d %s'%('good' if good else 'WRONG',p,x.returncode,' | '.join(a[:170] for a in l)))
    shutil.rmtree(w)
    return '%s (%s)%s%s\n%s'%(name,exp,out,t,'\n'.join(res))
cs=[c for c in ns['C'] if not only or c[0] in only]
with ThreadPoolExecutor(int(os.environ.get("J","3"))) as ex:
    for s in ex.map(run,cs): print(s,flush=True)
