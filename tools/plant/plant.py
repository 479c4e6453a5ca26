#!/usr/bin/env python3
"""plant.py FILE.py...: makes /verif/seeded/<id>/ for every bug described in FILE.py (see bugs1.py) that
can be confirmed: the patched copy builds, passes the stable tests, and fails the demonstration, which the unchanged copy passes.
Works in copies of /repo under /tmp; needs nothing of the checks."""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
SUM = 'golang.org/x/crypto v0.18.0 h1:PGVlW0xEltQnzFZ55hkuX5+KLyrMYhHld1YHO4AKcdc='
DEMO = '''#!/bin/bash
# Exit 0 when the property holds: runs the test beside this script inside the package.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off
cp go.mod "$W/m.mod"
{ cat go.sum; echo; echo '%s'; } | sed '/^$/d' | sort -u > "$W/m.sum"
cp "$here/demo.go.txt" "$W/zz_demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$W/zz_demo_test.go" > "$W/overlay.json"
cd %s && GOFLAGS="-mod=mod -modfile=$W/m.mod" TMPDIR="$W" go test -vet=off -count=1 -timeout 120s -overlay "$W/overlay.json" -run '^TestDemo$' .
'''
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def stable(copy, W):
    env = dict(ENV, GOFLAGS='-mod=mod -modfile=%s/m.mod' % W)
    shutil.copy(copy + '/go.mod', W + '/m.mod')
    with open(W + '/m.sum', 'w') as f:
        f.write(''.join(sorted(set(l for l in open(copy + '/go.sum').read().splitlines(True) if l.strip()) | {SUM + '\n'})))
    r = sh('go build ./...', copy, env=env)
    if r.returncode:
        return 'does not build: ' + r.stderr[:800]
    names = json.load(open('/opt/vp/BASELINE.json'))['stable']
    by = {}
    for n in names:
        p, t = n.rsplit('/', 1)
        by.setdefault(p.split('/')[-1], []).append(t)
    for p, ts in by.items():
        for t in ts:
            r = sh("go test -vet=off -count=1 -run '^%s$' ./%s" % (t, p), copy, env=env)
            if r.returncode:
                return 'fails stable test %s: %s' % (t, (r.stdout + r.stderr)[:500])
    return None

def main():
    ok = True
    only = os.environ.get('ONLY')
    for f in sys.argv[1:]:
        for b in runpy.run_path(f)['BUGS']:
            if only and b['id'] not in only.split(','):
                continue
            dst = '/verif/seeded/' + b['id']
            W = tempfile.mkdtemp(prefix='plant')
            try:
                copy = W + '/repo'
                sh('git -C /repo worktree list; cp -a /repo %s' % copy, '/')
                sh('git checkout -q -- . && git clean -qfd', copy)
                d = W + '/d'
                os.mkdir(d)
                open(d + '/demo.sh', 'w').write(DEMO % (SUM, b['pkg'], b['pkg']))
                os.chmod(d + '/demo.sh', 0o755)
                open(d + '/demo.go.txt', 'w').write(b['demo'])
                r = sh('bash %s/demo.sh' % d, copy)
                if r.returncode:
                    print(b['id'], 'demo FAILS on the unchanged tree:', (r.stdout + r.stderr)[-1500:]); ok = False; continue
                bad = False
                for path, old, new in b['edits']:
                    s = open(copy + '/' + path).read()
                    n = s.count(old)
                    k = 1
                    if old.startswith('@'):  # @N:text: the Nth occurrence
                        k, old = int(old[1:old.index(':')]), old[old.index(':') + 1:]
                        n = 1 if s.count(old) >= k else 0
                    if n != 1:
                        print(b['id'], 'edit matches %d times in %s: %r' % (n, path, old[:80])); bad = True; break
                    i = -1
                    for _ in range(k):
                        i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                    open(copy + '/' + path, 'w').write(s)
                if bad:
                    ok = False; continue
                diff = sh('git diff', copy).stdout
                e = stable(copy, W)
                if e:
                    print(b['id'], e); ok = False; continue
                r = sh('bash %s/demo.sh' % d, copy)
                if r.returncode == 0:
                    print(b['id'], 'demo passes WITH the change'); ok = False; continue
                if 'FAIL' not in r.stdout + r.stderr or 'build failed' in r.stdout + r.stderr:
                    print(b['id'], 'demo does not build with the change:', (r.stdout + r.stderr)[-800:]); ok = False; continue
                open(d + '/patch.diff', 'w').write(diff)
                json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                shutil.rmtree(dst, ignore_errors=True)
                os.makedirs('/verif/seeded', exist_ok=True)
                shutil.copytree(d, dst)
                print(b['id'], 'kept:', next((l for l in (r.stdout + r.stderr).splitlines() if 'demo' in l or 'panic' in l), '')[:160])
            finally:
                shutil.rmtree(W, ignore_errors=True)
    sys.exit(0 if ok else 1)
if __name__ == "__main__":
    main()
