import runpy,sys,os,subprocess,tempfile,shutil
spec=runpy.run_path(os.environ.get('R','/tmp/refac/r.py'))
ids=sys.argv[1:]
budget=os.environ.get('BUDGET','-budget 20s')
for id,edits,kind in spec['REF']:
    if ids and id not in ids: continue
    tmp=tempfile.mkdtemp(prefix='refac'); repo=tmp+'/repo'
    try:
        subprocess.run('cp -a /repo '+repo,shell=True)
        ok=True
        for f,o,n in edits:
            p=repo+'/'+f; t=open(p).read()
            if t.count(o)!=1: print(id,'EDIT',t.count(o),repr(o[:70])); ok=False; break
            open(p,'w').write(t.replace(o,n))
        if not ok: continue
        if os.environ.get('DRY'): r=subprocess.run('. /opt/vp/env.sh; go vet ./... && go test -count=1 ./...',shell=True,cwd=repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); print(id,r.returncode,r.stdout.decode()[-500:]); continue
        r=subprocess.run('. /opt/vp/env.sh; go vet ./... && go test -count=1 ./...',shell=True,cwd=repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode: print(id,'TESTS',r.stdout.decode()[-800:]); continue
        props=['C10','C11','C12','C13','C14','C15','C16','C18'] if kind=='cli' else ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C17']
        if os.environ.get('PROPS'): props=os.environ['PROPS'].split(',')
        for p in props:
            r=subprocess.run('SIM_REPO=%s ./check.sh %s %s'%(repo,budget,p),shell=True,cwd=os.environ.get('VERIF','/verif'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            o=r.stdout.decode(errors='replace').strip().split('\n')
            print(id,p,'quiet' if r.returncode==0 else 'ALARM rc=%d '%r.returncode+' / '.join(o[-9:])[:900],flush=True)
    finally: shutil.rmtree(tmp,ignore_errors=True)
