#!/usr/bin/env python3
"""tests.py MUTS.jsonl OUT.jsonl [workers]: which of the changes compile and pass the repository's stable tests."""
import json,sys,os,subprocess,threading,queue,tempfile
muts=[json.loads(l) for l in open(sys.argv[1])]
outp=sys.argv[2]; W=int(sys.argv[3]) if len(sys.argv)>3 else 4
done=set()
if os.path.exists(outp): done={json.loads(l)['id'] for l in open(outp)}
q=queue.Queue()
for m in muts:
    if m['id'] not in done: q.put(m)
base=json.load(open('/opt/vp/BASELINE.json'))
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/bin:/bin',GOPATH='/root/go',GOCACHE='/root/mutcache',GOMODCACHE='/root/go/pkg/mod',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GO111MODULE='on',GOFLAGS='-mod=readonly',CGO_ENABLED='0',GOMEMLIMIT='2GiB')
lock=threading.Lock(); out=open(outp,'a')
def stable():
    b=base.get('stable') or base.get('tests') or base
    return b
def work():
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        d=tempfile.mkdtemp(prefix='mut',dir='/tmp')
        src=open('/repo/'+m['file'],'rb').read()
        new=src[:m['offset']]+m['text'].encode()+src[m['end']:]
        open(d+'/f.go','wb').write(new)
        json.dump({"Replace":{"/repo/relapse/mem/aaa_vp_init_test.go":"/opt/vp/overlay/mem_init_test.go","/repo/"+m['file']:d+'/f.go'}},open(d+'/o.json','w'))
        pkg='./'+os.path.dirname(m['file'])
        st='?'
        try:
            r=subprocess.run(['go','build','-overlay',d+'/o.json',pkg],cwd='/repo',env=env,capture_output=True,timeout=120)
            if r.returncode!=0: st='nocompile'
            else:
                r=subprocess.run(['bash','-c','ulimit -v 16000000; exec timeout -k 5 200 go test -p 2 -vet=off -count=1 -timeout 50s -overlay %s/o.json ./...'%d],cwd='/repo',env=env,capture_output=True,timeout=300,text=True,errors='replace')
                st='survived' if 'FAIL' not in r.stdout and r.returncode==0 else 'killed'
        except subprocess.TimeoutExpired: st='killed'
        subprocess.run(['rm','-rf',d])
        m['status']=st
        with lock:
            out.write(json.dumps(m)+'\n'); out.flush()
ts=[threading.Thread(target=work) for _ in range(W)]
for t in ts: t.start()
for t in ts: t.join()
