#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl [WORKERS]: which mutants do neither the checks nor the repository's tests notice?
stages: 1 build; 2 checks, few cases; 3 the repository's tests; 4 all checks at quick depth"""
import sys,os,json,subprocess,threading,queue,shutil,signal
PHASE=os.environ.get('PHASE','a') # a: stages 1-3; b: 4
src,out=sys.argv[1:3]; N=int(sys.argv[3]) if len(sys.argv)>3 else 8
BASE='/tmp/mut'
os.makedirs(BASE,exist_ok=True); shutil.rmtree(BASE+'/harness',ignore_errors=True); shutil.copytree('/verif/harness',BASE+'/harness')
done={}
if os.path.exists(out):
    for l in open(out):
        r=json.loads(l); done[r['id']]=r
q=queue.Queue(); lock=threading.Lock()
for i,l in enumerate(open(src)):
    m=json.loads(l)
    m['id']='%s:%d:%d:%s:%s'%(m['File'],m['Start'],m['End'],m['Op'],m['New'][:60])
    if m['id'] not in done: q.put(m)
print(q.qsize(),'to do',flush=True)
ENV=dict(os.environ); ENV.update(GOROOT='/opt/veriftools/go1.23.12',PATH='/opt/veriftools/go1.23.12/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOSUMDB='off',GOFLAGS='-mod=mod',GO111MODULE='on',GOMAXPROCS='3',VERIF_SEED='1',VERIF_TIER='quick',VERIF_SHRINK='0s')
for k in ('KUBECONFIG','KUBERNETES_SERVICE_HOST','KUBERNETES_SERVICE_PORT'): ENV.pop(k,None)
def sh(cmd,cwd,t,env=None):
    e=dict(ENV); e.update(env or {})
    p=subprocess.Popen(['bash','-c',cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t)
        return p.returncode,o.decode('utf8','replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate()
        return -9,''
PK='github.com/ibm-cloud-security/app-identity-and-access-adapter'
def why(o):
    for l in o.splitlines():
        if l.startswith('--- FAIL: TestC'): return l.split()[2]
    if 'panic:' in o or 'fatal error' in o: return 'panic'
    return 'other'
def worker(n):
    W=f'{BASE}/w{n}'; R=W+'/repo'; H=W+'/h'
    if not os.path.isdir(R): sh(f'mkdir -p {W}; git -C /repo worktree add -f --detach {R} HEAD',cwd='/',t=60)
    sh('git checkout -q --detach $(git -C /repo rev-parse HEAD); git checkout -q -- .',cwd=R,t=60)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=R+'/'+m['File']; s=open('/repo/'+m['File'],'rb').read()
        line=s[s.rfind(b'\n',0,m['Start'])+1:m['Start']].strip()
        if (b'zap.' in line or b'log.' in line.lower()) and m['Op'] in('string','empty string','swap arguments','delete call','drop assignment'): res='log'
        else:
            new=s[:m['Start']]+m['New'].encode()+s[m['End']:]
            if m['Op']=='drop member' and new[m['Start']:m['Start']+1]==b',': new=s[:m['Start']]+s[m['End']+1:]
            open(f,'wb').write(new)
            try: res=judge(R,H,W)
            finally: open(f,'wb').write(s)
        with lock:
            open(out,'a').write(json.dumps({'id':m['id'],'line':m['Line'],'file':m['File'],'op':m['Op'],'old':m['Old'][:200],'new':m['New'][:200],'result':res})+'\n')
def judge(R,H,W):
    rc,o=sh('go build ./adapter/... ./cmd/...',R,300)
    if rc: return 'nobuild'
    sh(f'mkdir -p {H}/cwd; rm -rf {H}/cwd/*; cp {BASE}/harness/go.mod {BASE}/harness/go.sum {H}/; sed -i "s#=> /repo#=> {R}#" {H}/go.mod',R,60)
    rc,o=sh(f'go test -c -vet=off -modfile={H}/go.mod -o {H}/check.test .',BASE+'/harness',600)
    if rc: return 'noharness '+o[-200:]
    if PHASE=='a':
        rc,o=sh(f"{H}/check.test -test.failfast -test.timeout 150s -test.run 'TestC(0.|1[0-24-59]|21)$' -test.skip 'TestC04/adapter-secrets'",H+'/cwd',170,{'VERIF_CHECKS':'100'})
        if rc: return 'caught '+why(o)
        rc,o=sh(f'go test -vet=off -count=1 $(go list -e ./adapter/... ./cmd/... | grep -vxE "{PK}/adapter") 2>&1',R,300)
        if rc: return 'tests'
    order=['C20','C16','C18','C13','C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C14','C15','C19','C21']
    if PHASE=='a': return 'SURVIVED'
    for c in order:
        rc,o=sh(f"{H}/check.test -test.failfast -test.timeout 700s -test.run '^Test{c}$'",H+'/cwd',720)
        if rc: return 'caught '+c+' (full) '+('timeout' if rc==-9 or 'test timed out' in o else '')
    rc,o=sh(f'go test -c -race -vet=off -modfile={H}/go.mod -o {H}/check.test .',BASE+'/harness',600)
    rc,o=sh(f"{H}/check.test -test.failfast -test.timeout 700s -test.run '^TestC17$'",H+'/cwd',720)
    if rc: return 'caught C17 (full)'
    return 'SURVIVED'
ts=[threading.Thread(target=worker,args=(i,)) for i in range(N)]
for t in ts: t.start()
for t in ts: t.join()
print('finished')
