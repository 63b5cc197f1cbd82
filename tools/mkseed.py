#!/usr/bin/env python3
# Helper that creates a planted bug: mkseed(id, prop, edits, pkgdir, gotest, needs, breaks)
# edits: [(file, old, new)]; gotest: source of an overlay test (run as TestZZDemo in pkgdir)
import subprocess, os, shutil, tempfile, json
ENV = dict(os.environ, GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=mod')
SH = '''#!/bin/bash
# usage: run with cwd = repository; exits 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)s/zz_demo_test.go" "$d/demo_test.go.txt" > "$t/overlay.json"
timeout 250 go test -vet=off -overlay "$t/overlay.json" -run 'TestZZDemo$' -count=1 ./%(dir)s
'''
def run(c, cwd): return subprocess.run(c, cwd=cwd, capture_output=True, text=True, env=ENV)
def mkseed(id, prop, edits, pkgdir, gotest, needs, breaks):
    out = '/verif/seeded/' + id
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', w], check=True)
        run(['git', 'checkout', '-q', '--', '.'], w)
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = run(['git', 'diff'], w).stdout
        base = {}
        rem = [l[1:] for l in d.splitlines() if l.startswith('-') and not l.startswith('---')]
        for f, _, _ in edits: base[f] = run(['git', 'show', '83be288:' + f], w).stdout.splitlines()
        orig = [l for l in rem if any(l in b for b in base.values())]
        if not rem or not orig: print(id, 'WARNING: no original line changed', rem)
        elif len(orig) < len(rem): print(id, 'note: some changed lines are not original:', [l for l in rem if l not in orig])
        b = run(['go', 'build', './...'], w); assert b.returncode == 0, b.stderr
        t = run(['go', 'test', '-json', './...'], w)
        res = {}
        for l in t.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('Test') and j['Action'] in ('pass', 'fail'): res[j['Package'] + '/' + j['Test']] = j['Action']
        bad = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if res.get(x) != 'pass']
        assert not bad, (id, 'TESTS FAIL', bad)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        open(out + '/demo_test.go.txt', 'w').write(gotest)
        open(out + '/demo.sh', 'w').write(SH % {'dir': pkgdir}); os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        bad = run(['bash', out + '/demo.sh'], w)
        run(['git', 'checkout', '-q', '--', '.'], w)
        good = run(['bash', out + '/demo.sh'], w)
        okk = good.returncode == 0 and bad.returncode != 0
        print(id, 'OK' if okk else 'DEMO PROBLEM')
        if not okk: print('good:', good.stdout[-1500:], good.stderr[-800:], 'bad:', bad.stdout[-600:])
        elif 'build failed' in bad.stdout: print('bad build:', bad.stdout)
    finally: shutil.rmtree(w)
