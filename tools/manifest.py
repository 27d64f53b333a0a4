#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
HOOKS = ['09ea231']
if os.path.exists(V + '/tools/na.json'):
    NA = json.load(open(V + '/tools/na.json'))
checks, na, fast, san = [], [], set(), {'drv_an'}
for p in props:
    f = '%s/checks/%s.py' % (V, p['id'].lower())
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built')})
        continue
    a = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                a[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    (fast if a.get('FAST') else san).update(a.get('TARGETS', []))
    checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
                   'technique': a.get('TECHNIQUE', 'property-based testing with a reference model'), 'level': 'exploration',
                   'level_note': 'Held on every generated case. ' + a.get('RULE', '') + '. Assumes: ' + '; '.join(a.get('ASSUMPTIONS', []) or ['nothing further'])})
cmds = []
if fast:
    cmds.append('bash harness/build.sh --fast ' + ' '.join(sorted(fast)))
if san:
    cmds.append('bash harness/build.sh ' + ' '.join(sorted(san)))
m = {'version': 1, 'setup_cmd': ' && '.join(cmds), 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'HLASM_VERIF', 'enable': 'harness/build.sh compiles /repo with -DHLASM_VERIF', 'source_commits': HOOKS},
     'notes': 'The drivers use internal headers of the sources. /repo carries fix: commits listed in known_findings.json.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(m['setup_cmd'], len(checks), 'checks')
