#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl"""
import json, os, sys, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from checks_table import CHECKS
NA = {
}
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
hooks = ['4ae3f66ceb1c3b9be1f0ff0ffcbf0d9e1bb33fd3']
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=ISOALLOC_MC'], capture_output=True, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'hooks': {'guard': 'ISOALLOC_MC', 'enable': 'compiled with -DISOALLOC_MC=1 -I/verif/mc (plus limit overrides from mc/checks_table.py); environment calls are interposed with -Wl,--wrap', 'source_commits': hooks},
     'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
            'technique': 'stateless model checking of the compiled implementation: ' + c['title'], 'level': c.get('level', 'model_checking'),
            'level_note': ('Exhaustive within: ' + c['bounds'] + '. Trusted: the link-time environment model (mc/env.c) and the reference model (mc/mm.h). ' + c.get('note', '')).strip()})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
