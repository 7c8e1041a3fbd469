#!/usr/bin/env python3
"""checks.py RES.jsonl OUT.jsonl [workers] [--all]: which check notices each surviving change (the first, or all of them)."""
import json,sys,os,subprocess,threading,queue,tempfile,time
ALL='--all' in sys.argv; args=[a for a in sys.argv[1:] if a!='--all']
muts=[json.loads(l) for l in open(args[0])]
muts=[m for m in muts if m.get('status','survived')=='survived']
outp=args[1]; W=int(args[2]) if len(args)>2 else 2
done=set()
if os.path.exists(outp): done={json.loads(l)['id'] for l in open(outp)}
REL=[('parser/json','C16 C17 C23 C32 C25 C24'),('parser/xml','C18 C23 C25 C24 C32'),('parser/yaml','C21 C23 C32 C24'),('parser/proto/nomerge','C27'),('parser/proto','C19 C20 C27 C23 C32 C25 C24'),('parser/reflect','C22 C23 C32 C24 C25'),
('encode','C25'),('relapse/ast','C12 C30 C11 C15 C13 C31 C29 C28 C07 C14 C01 C02'),('relapse/auto','C02 C05 C31 C03'),('relapse/combinator','C28 C12'),('relapse/compose','C10 C15 C09 C11 C29 C31 C14 C28 C01'),
('relapse/funcs','C10 C15 C09 C11 C29 C28 C14 C31 C01'),('relapse/intern','C01 C29 C08 C05 C02 C31 C03 C04'),('relapse/interp','C08 C02 C31 C03 C05 C07'),('relapse/mem','C01 C29 C05 C31 C03 C04'),('relapse/name','C15 C02 C08 C03 C01'),('relapse/sets','C26 C01 C02 C04'),
('relapse/lexer','C14 C12 C13 C16'),('relapse/parser','C14 C12 C13 C31'),('relapse/types','C14 C12 C09 C28 C10'),('relapse/errors','C14 C31'),('relapse/','C01 C12 C31'),('parser/','C22 C16 C23 C04')]
def rel(f):
    for p,c in REL:
        if f.startswith(p): return c.split()
    return []
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/bin:/bin',GOPATH='/root/go',GOCACHE='/root/mutcache',GOMODCACHE='/root/go/pkg/mod',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GO111MODULE='on',GOFLAGS='-mod=mod',CGO_ENABLED='0')
q=queue.Queue()
for m in muts:
    if m['id'] not in done: q.put(m)
lock=threading.Lock(); out=open(outp,'a')
def work():
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        d=tempfile.mkdtemp(prefix='mutc',dir='/tmp')
        os.mkdir(d+'/v'); subprocess.run(['cp','/verif/known_findings.json',d+'/v/'])
        src=open('/repo/'+m['file'],'rb').read()
        open(d+'/f.go','wb').write(src[:m['offset']]+m['text'].encode()+src[m['end']:])
        json.dump({"Replace":{"/repo/"+m['file']:d+'/f.go'}},open(d+'/o.json','w'))
        r=subprocess.run(['go','build','-overlay',d+'/o.json','-o',d+'/vmc','.'],cwd='/verif/mc',env=env,capture_output=True,text=True)
        caught=[]; t0=time.time()
        if r.returncode!=0: caught=['nobuild '+r.stderr[-300:]]
        else:
            for c in rel(m['file']):
                try:
                    r=subprocess.run([d+'/vmc','-prop',c,'-tier','quick','-verif',d+'/v'],env=env,capture_output=True,text=True,errors='replace',timeout=500)
                    if r.returncode==1 and 'VIOLATION' in r.stdout: caught.append(c)
                    elif r.returncode!=0: caught.append('%s:rc%d %s'%(c,r.returncode,(r.stdout+r.stderr)[-200:]))
                except subprocess.TimeoutExpired: caught.append(c+':timeout')
                if caught and not ALL: break
        m['caught']=caught; m['secs']=int(time.time()-t0)
        subprocess.run(['rm','-rf',d])
        with lock: out.write(json.dumps(m)+'\n'); out.flush()
ts=[threading.Thread(target=work) for _ in range(W)]
for t in ts: t.start()
for t in ts: t.join()
