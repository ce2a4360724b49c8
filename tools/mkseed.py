#!/usr/bin/env python3
"""Make and confirm planted bugs.

  mkseed.py FILE.py [ID...]     FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits, demo, [pkg], [flags])]
  mkseed.py --run ID...         apply each planted bug to /repo, run its property's check, undo

A planted bug is kept (under /verif/seeded) only when, in a scratch copy of /repo,
it compiles, every stable test still passes, and its demonstration passes without
the change and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = '/verif/seeded'
ENV = '''export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
export CGO_ENABLED=1 CGO_LDFLAGS="-lopenblas"
export ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23
'''
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package through an overlay; cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
''' + ENV + '''
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_seed_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 280 go test -vet=off %(flags)s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' -count=1 -timeout 240s "./%(pkg)s"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(wt):
    r = sh(ENV + '''P=$(go list -e ./... | grep -vxE 'gorgonia\\.org/gorgonia/(cuda|cmd/cudagen)')
go build $P || exit 3
go test -json -vet=off -count=1 -timeout 10m $P > %s/.log 2>&1
python3 /opt/vp/results.py %s/.out.json gojson:%s/.log''' % (wt, wt, wt), wt)
    if r.returncode == 3:
        return ['build: ' + r.stdout[-1500:]]
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    p = json.load(open(wt + '/.out.json'))
    os.remove(wt + '/.out.json'); os.remove(wt + '/.log')
    return sorted(b - set(p.get('passed', p.get('pass', []))))


def make(s):
    wt = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', wt])
        d = os.path.join(wt, '.seed'); os.mkdir(d)
        open(d + '/demo_test.go', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s.get('pkg', '.'), flags=s.get('flags', '')))
        r = sh('bash .seed/demo.sh', wt)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-2500:]
        for f, old, new in s['edits']:
            t = open(os.path.join(wt, f)).read()
            if t.count(old) != 1:
                return '%s: text occurs %d times' % (f, t.count(old))
            open(os.path.join(wt, f), 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=wt, text=True)
        r = sh('bash .seed/demo.sh', wt)
        if r.returncode == 0:
            return 'demo passes with the change'
        if 'build failed' in r.stdout or 'setup failed' in r.stdout:
            return 'does not build: ' + r.stdout[-1500:]
        out = r.stdout
        m = stable(wt)
        if m:
            return 'stable tests lost: %s' % m[:5]
        dst = os.path.join(ROOT, s['id'])
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        shutil.copy(d + '/demo_test.go', dst); shutil.copy(d + '/demo.sh', dst)
        os.chmod(dst + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        return 'kept   ' + ' | '.join(l.strip() for l in out.splitlines() if 'demo_test' in l or 'panic' in l)[:200]
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def run(sid):
    meta = json.load(open('%s/%s/meta.json' % (ROOT, sid)))
    p = meta['property']
    if subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True).strip():
        return 'repo not clean'
    subprocess.check_call(['git', '-C', '/repo', 'apply', '%s/%s/patch.diff' % (ROOT, sid)])
    try:
        r = subprocess.run(['python3', '/verif/check.py', p], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick')))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    v = [l for l in r.stdout.splitlines() if 'VIOLATION property=' in l]
    return '%s exit=%d %s' % ('CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, (v or r.stdout.splitlines()[-2:] or [''])[0])


if __name__ == '__main__':
    if sys.argv[1] == '--run':
        ids = sys.argv[2:] or sorted(os.listdir(ROOT))
        for i in ids:
            print(i, run(i), flush=True)
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for s in ns['SEEDS']:
            if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
                continue
            print(s['id'], make(s), flush=True)
