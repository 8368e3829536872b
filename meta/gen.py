#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        if 'state' in p:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['note']})
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt engine/build.py', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
