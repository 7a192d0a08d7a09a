#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'Property-based testing and fuzzing only; see DESIGN.md. No hooks are needed in /repo. Replay files: python3 run.py --replay FILE.'}
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        m['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + p['id'],
                        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                        'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
