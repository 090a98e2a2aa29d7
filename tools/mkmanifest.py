#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of built checks (tools/checks.json)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
claimed = json.load(open(R + '/tools/checks.json')) if os.path.exists(R + '/tools/checks.json') else {}
checks, na = [], []
for p in props:
    c = claimed.get(p['id'])
    if c:
        checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % p['id'],
                       'technique': c['technique'], 'level': 'model_checking', 'level_note': c['level_note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na},
          open(R + '/MANIFEST.json', 'w'), indent=1)
