#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/plant/caught.txt (catch.sh's output)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
got = {}
for l in open(root + '/tools/plant/caught.txt'):
    f = l.split()
    if len(f) >= 3 and f[2].startswith('rc='):
        got.setdefault(f[0], {})[f[1]] = f[2] == 'rc=1'
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded'), key=lambda d: (json.load(open(f'{root}/seeded/{d}/meta.json'))['property'], d)):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    by = [p for p, ok in sorted(got.get(d, {}).items()) if ok]
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(by) or ('missed' if d in got else 'not run')} |")
s = open(root + '/DESIGN.md').read()
s = re.sub(r'<!-- catches -->.*<!-- end -->', lambda _: '<!-- catches -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
print(sum('missed' in r for r in rows), 'missed of', len(rows) - 2)
