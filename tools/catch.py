#!/usr/bin/env python3
"""Development helper: which planted bugs does each property's own check report? usage: catch.py [id...]; env AZ, J"""
import os,sys,json,subprocess,shutil,tempfile,time,concurrent.futures as cf
AZ=os.environ.get('AZ','/verif/bin/analyze'); S='/verif/seeded'
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOFLAGS='',VERIF_TIER='quick')
def one(i):
    d=tempfile.mkdtemp(prefix='catch-',dir='/tmp')
    try:
        shutil.copytree('/repo',d+'/repo',symlinks=True); os.makedirs(d+'/verif/evidence'); shutil.copy('/verif/KNOWN_FINDINGS.txt',d+'/verif/')
        subprocess.check_call(['git','-C',d+'/repo','apply',S+'/'+i+'/patch.diff'])
        p=json.load(open(S+'/'+i+'/meta.json'))['property']; t=time.time()
        r=subprocess.run([AZ,'-repo',d+'/repo','-verif',d+'/verif','-property',p],env=env,capture_output=True,text=True)
        v=[l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
        return i,p,'caught' if r.returncode==1 and 'VIOLATION property='+p in r.stdout else 'MISSED %d'%r.returncode,int(time.time()-t),(v or [''])[0][:160]
    finally: shutil.rmtree(d,ignore_errors=True)
ids=sys.argv[1:] or sorted(os.listdir(S))
with cf.ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for r in ex.map(one,ids): print(*r,flush=True)
