#!/usr/bin/env python3
"""seed.py SPEC.py [ids]: SPEC.py defines SEEDS, a list of dicts {id, property, pkg, edits:[{file,old,new,nth?}], demo, needs, breaks};
each is confirmed in a scratch copy of /repo (builds, tests pass, demo passes without and fails with it) and written to seeded/<id>/."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
W = '/tmp/sd/w'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in /repo after its build: passes on the unchanged tree and fails with the change.
. /opt/vp/env.sh || exit 1
here=$(cd "$(dirname "$0")" && pwd) || exit 1
overlay=$(mktemp) || exit 1
trap 'unlink "$overlay"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$overlay"
go test -vet=off -count=1 -timeout 120s %(flags)s-overlay "$overlay" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True)
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    d = os.path.join('/tmp/sd', 'out', s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/demo_test.go', 'w').write(s['demo'].lstrip())
    open(d+'/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], flags=(s['flags']+' ') if s.get('flags') else ''))
    os.chmod(d+'/demo.sh', 0o755)
    r0 = sh(d+'/demo.sh', W)
    if r0.returncode != 0:
        print(s['id'], 'DEMO FAILS UNPATCHED', (r0.stdout+r0.stderr)[-1500:]); continue
    ok = True
    for e in s['edits']:
        p = os.path.join(W, e['file']); t = open(p).read(); k = e.get('nth', 0)
        parts = t.split(e['old'])
        if len(parts) <= k+1: print(s['id'], 'NO MATCH', e['old'][:70]); ok = False; break
        open(p, 'w').write(e['old'].join(parts[:k+1])+e['new']+e['old'].join(parts[k+1:]))
    if not ok: continue
    r = sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... ', W)
    if r.returncode != 0:
        print(s['id'], 'TESTS FAIL', (r.stdout+r.stderr)[-800:]); continue
    r1 = sh(d+'/demo.sh', W)
    if r1.returncode == 0:
        print(s['id'], 'DEMO PASSES PATCHED'); continue
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    # removed lines must be of the base commit, not of fixes
    base = sh('git rev-list --max-parents=0 HEAD | tail -1', W).stdout.strip()
    warn = ''
    for f in sh('git diff --name-only', W).stdout.split():
        bl = set(sh('git show %s:%s' % (base, f), W).stdout.split('\n'))
        dd = sh('git diff -U0 -- ' + f, W).stdout.split('\n')
        rem = [l[1:] for l in dd if l.startswith('-') and not l.startswith('---')]
        if rem and any(l not in bl for l in rem): warn += ' NOT-BASE-LINES:' + repr([l for l in rem if l not in bl][:2])
        if not rem: warn += ' ONLY-ADDS'
    open(d+'/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d+'/meta.json', 'w'), indent=1)
    dst = os.path.join(ROOT, 'seeded', s['id'])
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    print(s['id'], 'kept' + warn)
shutil.rmtree(W, ignore_errors=True)
