"""Which statements of mmdet/mcrypto no check reaches: python3 tools/coverage.py [PROPERTY...]"""
import os, subprocess, sys, tempfile, json
props = sys.argv[1:] or [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
d = tempfile.mkdtemp()
for p in props:
    subprocess.run(['bin/check', p, 'quick'], cwd='/verif', env=dict(os.environ, MCVERIF_REACHED=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = d + '/b'
subprocess.run(['bin/build', b], cwd='/verif', check=True, stdout=subprocess.DEVNULL)
sites = {l.split('\t')[1].strip() for l in open(b + '/sites')}
hit = set()
for p in props:
    got = {l.strip() for l in open(f'{d}/{p}')} & sites
    print(p, len(got), 'of', len(sites))
    hit |= got
print('all', len(hit), 'of', len(sites))
for s in sorted(sites - hit, key=lambda s: (s.split(':')[0], int(s.split(':')[1]))):
    f, n = s.split(':')[:2]
    print(s, open('/repo/' + f).read().split('\n')[int(n) - 1].strip()[:100])
subprocess.run(['rm', '-rf', d])
