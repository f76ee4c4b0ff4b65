#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and the registered checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, checks
from manifest_table import TECH, NOT
props = [json.loads(l) for l in open(os.path.join(vf.VERIF, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS and i in TECH:
        level, tech, note = TECH[i]
        out['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                              'technique': tech, 'level': level, 'level_note': note})
    else:
        out['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check yet: work in progress')})
with open(os.path.join(vf.VERIF, 'MANIFEST.json'), 'w') as fh:
    json.dump(out, fh, indent=1)
    fh.write('\n')
print(len(out['checks']), 'checks;', len(out['not_applicable']), 'not claimed')
