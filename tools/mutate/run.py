#!/usr/bin/env python3
"""run.py SEED COUNT OUT: samples small faults over the library, drops those that do not build or that the stable tests
see, and runs the quick checks that look at the file until one reports a violation."""
import os, sys, random, subprocess, tempfile, shutil, json
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, HERE + '/tools/plant')
from plant import stable, sh
CHECKS = {'sm2/sm2.go': 'C02 C04 C05 C06 C07 C03 C17 C15 C16', 'sm3/sm3.go': 'C01', 'x509/pkcs7.go': 'C09 C08 C10 C17 C16', 'x509/parser.go': 'C13 C14 C17 C16 C09',
          'x509/x509.go': 'C13 C14 C10 C17 C16 C07 C15', 'x509/pkcs8.go': 'C07 C17 C12 C16', 'x509/sec1.go': 'C07 C17 C12 C16', 'x509/pkcs1.go': 'C15 C17 C12 C07 C13'}
W8 = {'sm2/sm2.go': 3, 'x509/pkcs7.go': 3, 'sm3/sm3.go': .5, 'pkcs12/rc2.go': .3, 'x509/x509.go': 1, 'x509/parser.go': 1.2, 'x509/pkcs1.go': .6}
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
B = tempfile.mkdtemp(prefix='mut')
subprocess.run(['go', 'build', '-o', B + '/mutate', HERE + '/tools/mutate/mutate.go'], check=True, env=dict(os.environ, GOFLAGS='-mod=mod'))
files = [f for f in subprocess.run('ls */*.go | grep -v _test', shell=True, cwd='/repo', capture_output=True, text=True).stdout.split()]
sites = {}
for l in subprocess.run([B + '/mutate', 'list', '/repo'] + files, capture_output=True, text=True, check=True).stdout.splitlines():
    f, n = l.split(); sites.setdefault(f, []).append(int(n))
rnd = random.Random(seed)
total = {f: len(v) ** .5 * W8.get(f, 1) for f, v in sites.items()}
done = set()
given = [a.split('#') for a in sys.argv[4:]]  # FILE#N...: these first
count += len(given)
o = open(out, 'a')
while len(done) < count:
    if given:
        f, n = given.pop(0); n = int(n)
    else:
        f = rnd.choices(list(total), list(total.values()))[0]
        n = rnd.choice(sites[f])
    if (f, n) in done: continue
    done.add((f, n))
    D = tempfile.mkdtemp(prefix='mut', dir=B)
    try:
        sh('cp -a /repo %s/repo' % D, '/')
        what = subprocess.run([B + '/mutate', 'apply', D + '/repo', f, str(n)], capture_output=True, text=True).stdout.strip()
        why = stable(D + '/repo', D)
        if why:
            o.write('%s #%d | %s | dropped: %s\n' % (f, n, what, why[:20].replace('\n', ' '))); o.flush(); continue
        res = 'SURVIVED'
        for c in CHECKS.get(f, 'C12 C11 C17 C16 C03').split():
            r = sh('timeout 900 bin/check %s quick' % c, HERE, env=dict(os.environ, VERIF_REPO=D + '/repo', GOMAXPROCS='8'))
            if r.returncode == 1:
                v = [l for l in r.stdout.splitlines() if l.startswith(c + '/')]
                res = 'caught %s %s' % (c, v[0][:120] if v else ''); break
            if r.returncode != 0:
                res = 'SURVIVED (%s rc=%d)' % (c, r.returncode)
        o.write('%s #%d | %s | %s\n' % (f, n, what, res)); o.flush()
    finally:
        shutil.rmtree(D)
shutil.rmtree(B)
