#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of properties that have a check.
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
exec(open(os.path.join(here, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in LEVELS:
        checks.append(dict(property=i, quick_cmd=f'bin/check {i} quick', thorough_cmd=f'bin/check {i} thorough',
            technique=TECH, level='exploration', level_note=LEVELS[i] + ' ' + COMMON))
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
