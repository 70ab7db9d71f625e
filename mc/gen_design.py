#!/usr/bin/env python3
"""Writes DESIGN.md from design.md.in, the check table, the properties and the findings."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from checks_table import CHECKS
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
out = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c: continue
    runs = []
    for r in c['runs']:
        n = '%s/%s@%s' % (r['src'], r['scenario'] if 'scenario' in r else r['scen'], r['cfg'])
        if n not in runs: runs.append(n)
    shown = ', '.join(runs[:10]) + (' and %d more' % (len(runs) - 10) if len(runs) > 10 else '')
    out.append('### %s %s\n\n%s\n\n- *Decided by*: %s.\n- *Enumerated and judged*: %s.\n- *Bounds*: %s.\n- *Why tests cannot*: %s\n%s- *Explorations*: %s\n' % (p['id'], p['title'], p['statement'], c['title'], c['rule'], c['bounds'], p['why_tests_cant'], ('- *Note*: %s\n' % c['note']) if c.get('note') else '', shown))
fixed = []; found = []
for l in open(os.path.join(root, 'known_findings.txt')):
    if l.startswith('fixed:'):
        pid, h, what = l[len('fixed: property='):].strip().split(' ', 2); fixed.append('- %s (%s): %s' % (pid, h, what))
    elif l.startswith('finding:'):
        pid, fid, what = l[len('finding: property='):].strip().split(' ', 2); found.append('- **%s %s (recorded, not repaired)**: %s' % (pid, fid[3:], what))
notes = json.load(open(os.path.join(here, 'seeded_notes.json')))
sd = ['| planted bug | needs | caught by | note |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json'))); i = os.path.basename(d)
    sd.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['property'], notes.get(i, '')))
t = open(os.path.join(here, 'design.md.in')).read()
t = t.replace('@PROPERTIES@', '\n'.join(out)).replace('@FINDINGS@', '\n'.join(found + fixed)).replace('@SEEDED@', '\n'.join(sd))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
