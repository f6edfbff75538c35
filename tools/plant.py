#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py. The spec defines id, prop, needs, breaks, edits=[(file, old, new)],
pkg, test (Go test source, package clause included), shim (bool), race (bool).
Writes seeded/<id>/ after confirming in a scratch copy that the demo passes without and fails with
the change, that it builds and that the stable tests pass."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run with cwd /repo: 0 if the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cp "$repo/go.mod" "$tmp/x.mod"
cp "$repo/go.sum" "$tmp/x.sum"
%(repl)scp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$tmp/demo_test.go" >"$tmp/overlay.json"
cd "$repo" || exit 1
go test -vet=off -count=1 -timeout 120s %(race)s-modfile="$tmp/x.mod" -overlay "$tmp/overlay.json" -run 'TestDemo' "./%(pkg)s"
'''
REPL = '''cat >>"$tmp/x.mod" <<M
replace github.com/amarin/logging => $here/shim/logging
replace github.com/amarin/libxml => $here/shim/libxml
M
'''
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    scratch = tempfile.mkdtemp(prefix='plant')
    repo = os.path.join(scratch, 'repo')
    subprocess.check_call(['cp', '-a', os.environ.get('SRC', '/repo'), repo])
    for f, a, b in g['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    subprocess.check_call(['gofmt', '-l', '-w'] + [os.path.join(repo, f) for f, _, _ in g['edits']])
    diff = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo_test.go.txt', 'w').write(g['test'])
    shim = g.get('shim', False)
    if shim:
        shutil.copytree(V + '/shim', d + '/shim')
        for f in ('logging/go.mod', 'libxml/go.mod'):
            pass
    open(d + '/demo.sh', 'w').write(DEMO % dict(repl=REPL if shim else '', pkg=g['pkg'], race='-race ' if g.get('race') else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=os.environ.get('SRC', '/repo'), capture_output=True, text=True)
    if r.returncode != 0:
        ok = False
        print('demo fails on unchanged tree:\n', r.stdout[-3000:], r.stderr[-2000:])
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True)
    if r.returncode == 0:
        ok = False
        print('demo passes with the patch')
    print(r.stdout[-700:])
    # the build and the stable tests, with the change
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off')
    r = subprocess.run(['go', 'test', '-vet=off', './internal/grammemes', './pkg/common', './pkg/dag', './pkg/storage'], cwd=repo, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        ok = False
        print('tests fail:\n', r.stdout[-3000:], r.stderr[-1000:])
    if shim:
        shutil.copy(repo + '/go.mod', scratch + '/x.mod'); shutil.copy(repo + '/go.sum', scratch + '/x.sum')
        open(scratch + '/x.mod', 'a').write('replace github.com/amarin/logging => %s/shim/logging\nreplace github.com/amarin/libxml => %s/shim/libxml\n' % (V, V))
        r = subprocess.run(['go', 'build', '-modfile=' + scratch + '/x.mod', './...'], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            ok = False
            print('build fails', r.stderr[-2000:])
        r = subprocess.run(['go', 'test', '-vet=off', '-modfile=' + scratch + '/x.mod', './internal/index'], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            print('NOTE: unstable-set tests of internal/index fail:', r.stdout[-1500:])
    # which checks catch it
    caught = []
    for p in [g['prop']] + g.get('also', []):
        r = subprocess.run(['bash', V + '/check.sh', p], env=dict(os.environ, REPO=repo), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('check', p, 'exit', r.returncode, v[:1])
        if r.returncode == 1 and v:
            caught.append(p)
        else:
            print('   ', [l[:200] for l in r.stdout.splitlines() if ': decided' not in l][:4], r.stderr[-300:])
    cj = V + '/tools/caught.json'
    c = json.load(open(cj))
    c[g['id']] = caught
    json.dump(c, open(cj, 'w'), indent=1, sort_keys=True)
    shutil.rmtree(scratch)
    print(g['id'], 'OK' if ok else 'NOT OK')
for s in sys.argv[1:]:
    main(s)
