#!/usr/bin/env python3
"""plant.py ID...: (re)build /verif/seeded/ID from plants.py and validate it; --check also runs the property's check"""
import sys,os,subprocess,json,shutil,re
sys.path.insert(0,'/verif/tools/plant')
import plants, plants2, plants3, plants4, plants5, plants6, plants7
WT=os.environ.get('WT','/tmp/wt-plant')
def sh(cmd,cwd=None,timeout=900,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(['bash','-c',cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,env=e)
    return p.returncode,p.stdout
def wt():
    if not os.path.isdir(WT):
        print(sh(f'git -C /repo worktree add --detach {WT} HEAD')[1])
    sh('git checkout -q --detach $(git -C /repo rev-parse HEAD) && git checkout -- . && git clean -fdq',cwd=WT)
args=[a for a in sys.argv[1:] if not a.startswith('--')]
check='--check' in sys.argv; only='--only-check' in sys.argv
seeds=[1]
for a in sys.argv:
    if a.startswith('--seeds='): seeds=[int(x) for x in a[8:].split(',')]
ids=args or [p['id'] for p in plants.P]
for p in plants.P:
    if p['id'] not in ids: continue
    D='/verif/seeded/'+p['id']
    wt()
    ok=True; notes=[]
    for f,old,new in p['edits']:
        s=open(f'{WT}/{f}').read()
        n=s.count(old)
        if n!=1: notes.append(f'EDIT {f}: {n} matches of {old!r}'); ok=False; break
        open(f'{WT}/{f}','w').write(s.replace(old,new))
    if not ok: print(p['id'],'BAD',notes); continue
    rc,diff=sh('git diff',cwd=WT)
    if not only:
        os.makedirs(D,exist_ok=True)
        for x in os.listdir(D): os.remove(D+'/'+x)
        open(D+'/patch.diff','w').write(diff)
        json.dump({'property':p['prop'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(D+'/meta.json','w'),indent=1)
        pkg=p.get('pkg','adapter/client')
        demo=open('/verif/tools/plant/demo.sh').read().replace('PKGDIR',pkg).replace('RACE','-race ' if p.get('race') else '')
        open(D+'/demo.sh','w').write(demo); os.chmod(D+'/demo.sh',0o755)
        open(D+'/demo_test.go','w').write(p['demo'].lstrip())
        if pkg=='adapter/client': shutil.copy('/verif/tools/plant/kit_test.go',D+'/kit_test.go')
        elif p.get('kit'): open(D+'/kit_test.go','w').write(open('/verif/tools/plant/kit_test.go').read().replace('package client_test','package '+p['kit']))
        sh(f'. /opt/vp/env.sh; gofmt -w {D}/*.go')
        # removed lines must be original
        rem=[]
        cur=None
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            m=re.match(r'@@ -(\d+)',l)
            if m: ln=int(m.group(1)); continue
            if l.startswith('-') and not l.startswith('---'): rem.append((cur,ln)); ln+=1
            elif l.startswith(' '): ln+=1
        orig=0
        for f,ln in rem:
            _,b=sh(f'git blame -s -L{ln},{ln} HEAD -- {f}',cwd=WT)
            if b.startswith('^6f18'): orig+=1
        notes.append(f'removed lines {len(rem)} original {orig}')
        if orig==0: ok=False
        rc,o=sh('. /opt/vp/env.sh; cd '+WT+'; go build ./... && m=github.com/ibm-cloud-security/app-identity-and-access-adapter; go test -vet=off -count=1 $(go list -e ./... | grep -vxE "$m/adapter|$m/tests/integration/(jwt|oidc)") 2>&1 | grep -v "no test files"')
        if 'FAIL' in o or rc not in (0,): ok=False; notes.append('TESTS '+o[-1500:])
        rc,o=sh(f'bash {D}/demo.sh',cwd=WT)
        if rc==0: ok=False; notes.append('DEMO PASSES WITH PATCH')
        elif '--- FAIL' not in o and 'DATA RACE' not in o and 'fatal error' not in o and 'panic:' not in o: ok=False; notes.append('DEMO BROKEN '+o[-1500:])
        else: notes.append('patched: '+' | '.join(l.strip() for l in o.splitlines() if 'demo_test.go' in l or 'fatal' in l or 'panic:' in l)[:200])
        rc,o=sh(f'bash {D}/demo.sh',cwd='/repo')
        if rc!=0: ok=False; notes.append('DEMO FAILS UNPATCHED '+o[-1500:])
    print(p['id'],p['prop'],'OK' if ok else 'BAD',*notes,flush=True)
    if check or only:
        for s in seeds:
            for c in p.get('checks',[p['prop']]):
                V=os.environ.get('VSRC','/verif'); rc,o=sh(f'bash {V}/check.sh {c}',cwd=V,timeout=1500,env={'VERIF_REPO':WT,'VERIF_SEED':str(s),'VERIF_TIER':'quick'})
                v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
                with open('/verif/tools/plant/results.jsonl','a') as fh: fh.write(json.dumps({'id':p['id'],'check':c,'seed':s,'rc':rc,'caught':rc==1 and bool(v)})+'\n')
                print('   ',p['id'],c,'seed',s,'rc',rc,'CAUGHT' if rc==1 and v else 'MISSED',flush=True)
        sh('rm -rf /verif/replays/* /verif/harness/testdata/rapid')
wt()
