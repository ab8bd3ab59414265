#!/usr/bin/env python3
"""Plants a bug: makes a scratch copy of /repo, applies the edits, builds, runs
the stable tests and the demonstration with and without the change, and writes
/verif/seeded/<id>/. Usage: plant.py FILE.py [id...], where FILE.py fills BUGS, a list of
dict(id, property, edits=[(file, old, new)], needs, breaks, imports, test)."""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = '32fd975'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, capture_output=True, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout + p.stderr

DEMO = '''#!/bin/bash
# Demonstration: runs demo.go.txt as an external test of the root package.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
timeout 250 go test @RACE@-overlay "$T/overlay.json" -vet=off -count=1 -run '^TestDemo$' .
'''

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        plant(b)

def tests(cwd):
    rc, out = sh("go test -json -vet=off -count=1 $(go list ./... | grep -v '^github.com/ixtendio/gofre/response$')", cwd)
    passed = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            passed.add(d['Package'] + '::' + d['Test'])
    return rc, passed, out

def plant(b):
    dst = '/verif/seeded/' + b['id']
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        tree = tmp + '/repo'
        subprocess.call(['cp', '-a', '/repo', tree]); subprocess.call(['rm','-f',tree+'/.git/index.lock'])
        orig = False
        for f, old, new in b['edits']:
            s = open(tree + '/' + f).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT', f, 'count', s.count(old)); return
            start = s[:s.index(old)].count('\n') + 1
            open(tree + '/' + f, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff', '-U0'], tree)
        # which removed lines are of the original repository
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                n = int(m.group(2) or 1)
                for k in range(int(m.group(1)), int(m.group(1)) + n):
                    _, bl = sh(['git', 'blame', '-s', '--abbrev=40', '-L%d,%d' % (k, k), 'HEAD', '--', cur], tree)
                    c = bl.split()[0].lstrip('^')
                    anc, _ = sh(['git', 'merge-base', '--is-ancestor', c[:40], BASE], tree)
                    if anc == 0: orig = True
        rc, diff = sh(['git', 'diff'], tree)
        if not orig:
            print(b['id'], 'NO ORIGINAL LINE CHANGED')
        rc, out = sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...', tree)
        if rc: print(b['id'], 'BUILD', out[:800]); return
        rc, passed, out = tests(tree)
        rc0, passed0, _ = tests('/repo') if not hasattr(plant, 'base') else plant.base
        plant.base = (rc0, passed0, '')
        missing = passed0 - passed
        if missing:
            print(b['id'], 'TESTS FAIL', sorted(missing)[:6]); return
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        open(dst + '/demo.sh', 'w').write(DEMO.replace('@RACE@', '-race ' if b.get('race') else ''))
        os.chmod(dst + '/demo.sh', 0o755)
        imps = ''.join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in (b['imports'] + ['testing']))
        code = 'package gofre_test\n\nimport (\n' + imps + ')\n\n' + b['test'].strip() + '\n'
        open(dst + '/demo.go.txt', 'w').write(code)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        r1, o1 = sh([dst + '/demo.sh'], '/repo')
        r2, o2 = sh([dst + '/demo.sh'], tree)
        ok = r1 == 0 and r2 != 0 and 'build failed' not in o2 and 'setup failed' not in o2
        print(b['id'], 'OK' if ok and orig else 'BAD', 'clean', r1, 'planted', r2, '' if ok else (o1[-600:] if r1 else o2[-600:]))
        if not (ok and orig): shutil.rmtree(dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
main()
