#!/usr/bin/env python3
# Authoring helper: turns a planted-bug description (python file with SEEDS) into /verif/seeded/<id>/, after
# confirming in a scratch copy that it builds, passes the stable tests and that its demonstration tells it apart.
import sys, os, subprocess, json, shutil, runpy
env=dict(os.environ, GOFLAGS='-mod=vendor' if os.path.isdir('/repo/vendor') else os.environ.get('GOFLAGS',''), GOPROXY='off')
DEMO='''#!/bin/bash
# run in the repository's root: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
rc=$?
rm -rf "$t"
exit $rc
'''
def sh(c, cwd, t=400):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def main():
    ns=runpy.run_path(sys.argv[1]); only=sys.argv[2:]
    R='/tmp/seedrepo'
    base=json.load(open('/opt/vp/BASELINE.json'))
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        shutil.rmtree(R, ignore_errors=True); subprocess.check_call(['cp','-a','/repo',R])
        for f,old,new in s['edits']:
            p=f'{R}/{f}'; t=open(p).read()
            if t.count(old)!=1: print(s['id'],'EDIT MISMATCH',f,t.count(old)); break
            open(p,'w').write(t.replace(old,new))
        else:
            diff=sh('git diff',R).stdout
            out=f'/verif/seeded/{s["id"]}'
            os.makedirs(out,exist_ok=True)
            open(out+'/patch.diff','w').write(diff)
            open(out+'/demo_test.go','w').write(s['demo'])
            open(out+'/demo.sh','w').write(DEMO%dict(pkg=s['pkg'],flags=s.get('flags','')))
            os.chmod(out+'/demo.sh',0o755)
            json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(out+'/meta.json','w'),indent=1)
            e='. /opt/vp/env.sh; '
            b=sh(e+'go build ./... && gofmt -l common federation lease naming serialization transport',R)
            if b.returncode or b.stdout.strip(): print(s['id'],'BUILD/FMT',b.stdout,b.stderr)
            t=sh(e+'go test -json -vet=off -count=1 -timeout 3m ./...',R)
            ok=set()
            for l in t.stdout.splitlines():
                try: d=json.loads(l)
                except Exception: continue
                if d.get('Action')=='fail' and d.get('Test'): ok.add(d['Test'])
            bad=sh(f'bash {out}/demo.sh',R); 
            good=sh(f'bash {out}/demo.sh','/repo')
            print(s['id'], 'tests failing:',ok or 'none','| demo good rc',good.returncode,'bad rc',bad.returncode)
            if good.returncode: print(good.stdout[-1500:],good.stderr[-1500:])
            if bad.returncode==0 or 'build failed' in bad.stdout: print(bad.stdout[-1500:],bad.stderr[-1500:])
    shutil.rmtree(R, ignore_errors=True)
main()
