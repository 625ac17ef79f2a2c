#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    path = os.path.join(here, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    tree = ast.parse(open(path).read())
    const = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                const[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.py %s --tier quick' % p['id'],
        'thorough_cmd': './run.py %s --tier thorough' % p['id'],
        'technique': const['TECHNIQUE'],
        'level': 'exploration',
        'level_note': const['LEVEL_NOTE'],
    })
m = {'version': 1, 'setup_cmd': './run.py --self-test', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo are needed: all monitors observe the public '
              'behaviour from outside (imports from the working tree), so no '
              'guard variable exists.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
