"""assembles the table of properties of DESIGN.md from pyvc/levels.py, properties.jsonl and seeded/ (python3 tools/gen_design.py)"""
import json, os, sys, glob
sys.path.insert(0, '.')
from pyvc import levels
P = [json.loads(l) for l in open('properties.jsonl')]
S = {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); S.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
N = json.load(open('tools/counts.json'))
out = []
for p in P:
    i = p['id']; L = levels.LEVELS[i]; n = N.get(i)
    out.append('### %s  %s' % (i, p['title']))
    out.append('*Level*: **%s**. %s' % (L['level'], L['note']))
    if L['level'] == 'proof' and n: out.append('*Cost*: %d units, %d obligations, about %d s of one core (quick; units run in parallel).' % tuple(n))
    out.append('*Assumed, not proved*: ' + '; '.join(L['assumptions']) + '.')
    out.append('*Bounded stand-in and source of failing inputs* (never counted as proof): ' + L['bounded'])
    out.append('*Why tests cannot settle it*: ' + p['why_tests_cant'])
    out.append('')
t = open('tools/design_head.md').read().replace('@@PROPERTIES@@', '\n'.join(out))
rows = ['| planted bug | property | what it breaks | needs |', '|---|---|---|---|']
for i in sorted(S):
    for n, d in S[i]: rows.append('| %s | %s | %s | %s |' % (n, i, d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
t = t.replace('@@SEEDED@@', '\n'.join(rows)).replace('@@FIXES@@', '\n'.join('- ' + l[7:].strip() for l in open('known_findings.txt') if l.startswith('fixed:')))
open('DESIGN.md', 'w').write(t)
