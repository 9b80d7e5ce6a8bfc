#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from pyvc/levels.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from pyvc import levels
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in levels.NOT_APPLICABLE: continue
    L = levels.LEVELS[p]
    checks.append(dict(property=p, quick_cmd='python3-vt -m pyvc.check %s' % p, thorough_cmd='python3-vt -m pyvc.check %s --tier thorough' % p, technique=L['technique'], level=L['level'],
                       level_note=L['note'] + ' Assumes: ' + '; '.join(L['assumptions'])))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in levels.NOT_APPLICABLE.items()])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
