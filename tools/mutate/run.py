#!/usr/bin/env python3
"""Mutation run: which small changes that build and pass the tests do the checks miss?
usage: run.py OUT.jsonl FILE... ; env AZ, J (workers), PROPS (comma list, cheap first)."""
import json,os,subprocess,sys,shutil,tempfile,concurrent.futures as cf,threading
AZ=os.environ.get('AZ','/verif/bin/analyze'); J=int(os.environ.get('J','3'))
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOFLAGS='',GOMAXPROCS=os.environ.get('P','3'),VERIF_TIER='quick')
out=open(sys.argv[1],'a'); files=sys.argv[2:]
props=os.environ['PROPS'].split(',')
subprocess.check_call(['go','build','-o','/tmp/mutate',os.path.dirname(os.path.abspath(__file__))+'/main.go'],env=env)
ms=[]
for f in files:
    r=subprocess.run(['/tmp/mutate','/repo/'+f],capture_output=True,text=True,check=True)
    ms+=[json.loads(l) for l in r.stdout.splitlines()]
import random
random.Random(1).shuffle(ms); ms=ms[:int(len(ms)*float(os.environ.get('SAMPLE','1')))]
done=set()
for l in open(sys.argv[1]):
    d=json.loads(l); done.add((d['file'],d['from'],d['to'],d['new']))
lock=threading.Lock(); loc=threading.local()
def work(m):
    if (m['file'],m['from'],m['to'],m['new']) in done: return
    if not hasattr(loc,'d'):
        loc.d=tempfile.mkdtemp(prefix='mut-',dir='/tmp'); shutil.copytree('/repo',loc.d+'/repo',symlinks=True); os.makedirs(loc.d+'/verif/evidence')
        shutil.copy('/verif/KNOWN_FINDINGS.txt',loc.d+'/verif/')
    rel=m['file'][len('/repo/'):]
    p=loc.d+'/repo/'+rel; src=open('/repo/'+rel,'rb').read()
    open(p,'wb').write(src[:m['from']]+m['new'].encode()+src[m['to']:])
    try:
        res='?'
        if subprocess.run(['go','build','./...'],cwd=loc.d+'/repo',env=env,capture_output=True).returncode: res='nobuild'
        else:
            try: t=subprocess.run(['go','test','./...'],cwd=loc.d+'/repo',env=env,capture_output=True,timeout=120).returncode
            except subprocess.TimeoutExpired: t=1
            if t: res='tests'
            else:
                res='MISSED'
                for c in props:
                    q=subprocess.Popen([AZ,'-repo',loc.d+'/repo','-verif',loc.d+'/verif','-property',c],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,start_new_session=True)
                    try: q.wait(int(os.environ.get('T','900')))
                    except subprocess.TimeoutExpired:
                        os.killpg(q.pid,9); q.wait(); res='timeout '+c; break
                    r=q
                    if r.returncode: res='caught '+c; break
    finally:
        open(p,'wb').write(src)
    with lock:
        out.write(json.dumps(dict(m,res=res))+'\n'); out.flush()
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(work,ms))
