#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: make /verif/seeded/<id>/ for each planted bug of SPEC, and verify it.

SPEC defines BUGS, a list of dicts: id, property, needs, what_it_breaks, edits [(file, old, new)],
and demo files {name: text} with demo.sh.  The tool checks, in a scratch copy of /repo, that the change
applies, builds, passes the stable tests, and that the demo tells the two trees apart.
With CHECK=1 it then runs the property's check (quick) on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile, runpy

SEEDED = '/verif/seeded'
STABLE = {'Example','TestPathParse'}

def sh(cmd, cwd=None, env=None, timeout=1000):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

GODEMO = '''#!/bin/bash
# run with cwd at the repository: fails if the property is broken
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/PKGzz_demo_test.go": "%s/demo_test.go.txt"}}' "$repo" "$here" >"$tmp/overlay.json"
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
printf '{"Replace": {"%s/PKGzz_demo_test.go": "%s/zz_demo_test.go"}}' "$repo" "$tmp" >"$tmp/overlay.json"
timeout 200 go test FLAGS -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKGDOT
'''
CLIDEMO = '''#!/bin/bash
# run with cwd at the repository: fails if the property is broken
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/jpath" ./cmd/jpath || exit 2
cd "$tmp" || exit 2
BODY
'''

def godemo(pkg, body, flags=''):
    d = GODEMO.replace('PKGDOT', pkg.rstrip('/') or '').replace('PKG', pkg).replace('FLAGS', flags)
    if not pkg: d = d.replace("./\n", ".\n")
    lines = [l for l in d.split('\n') if 'demo_test.go.txt"}}' not in l]
    return {'demo.sh': '\n'.join(lines), 'demo_test.go.txt': body}

def clidemo(body):
    return {'demo.sh': CLIDEMO.replace('BODY', body.strip('\n'))}

def main():
    spec = runpy.run_path(sys.argv[1], init_globals={'godemo': godemo, 'clidemo': clidemo})
    ids = sys.argv[2:]
    for b in spec['BUGS']:
        if ids and b['id'] not in ids: continue
        plant(b)

def plant(b):
    tmp = tempfile.mkdtemp(prefix='plant')
    repo = tmp + '/repo'
    try:
        sh('cp -a /repo %s' % repo)
        for f, old, new in b['edits']:
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(b['id'], 'EDIT matches', t.count(old), repr(old[:80])); return
            open(p, 'w').write(t.replace(old, new))
        rc, o = sh('. /opt/vp/env.sh; gofmt -l $(git diff --name-only)', cwd=repo)
        if o.strip(): print(b['id'], 'not gofmt:', o.strip())
        rc, diff = sh('git diff', cwd=repo)
        d = SEEDED + '/' + b['id']
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        for n, t in b['demo'].items(): open(d + '/' + n, 'w').write(t)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        bad = []
        rc, o = sh('. /opt/vp/env.sh; go build ./... && go vet ./... ', cwd=repo)
        if rc: bad.append('build/vet: ' + o)
        rc, o = sh('. /opt/vp/env.sh; go test -count=1 ./...', cwd=repo)
        if rc: bad.append('tests: ' + o[-1500:])
        rc, o = sh('bash %s/demo.sh' % d, cwd=repo)
        if rc == 0: bad.append('demo passes with the patch')
        dm = o
        rc, o = sh('bash %s/demo.sh' % d, cwd='/repo')
        if rc: bad.append('demo fails without the patch: ' + o[-1500:])
        rc, o = sh('git -C /repo apply --check %s/patch.diff' % d)
        if rc: bad.append('apply: ' + o)
        if bad:
            print(b['id'], 'REJECTED', '\n  '.join(bad)); os.rename(d, tmp + '/rejected'); return
        print(b['id'], 'ok', '| demo says:', ' / '.join(dm.strip().split('\n')[:3])[:200], flush=True)
        if os.environ.get('CHECK'):
            props = os.environ.get('PROPS', b['property']).split(',')
            for p in props:
                rc, o = sh('SIM_REPO=%s ./check.sh %s %s' % (repo, os.environ.get('BUDGET', ''), p), cwd='/verif')
                v = [l for l in o.split('\n') if 'VIOLATION' in l]
                print('   ', p, 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, '|', ' / '.join(o.strip().split('\n')[-6:])[:600], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

main()
