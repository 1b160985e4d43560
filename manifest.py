#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os
import jobs as J
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR of the compiled crate (symex, Z3), assertions against a reference interpreter, counterexamples replayed natively'
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)['id']
    if p in J.PROPS:
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p} --tier quick', 'thorough_cmd': f'python3 check.py {p} --tier thorough',
                       'technique': J.PROPS[p].get('technique', TECH), 'level': 'model_checking',
                       'level_note': 'bounded: ' + J.PROPS[p]['bounds']})
    else:
        na.append({'property': p, 'reason': J.NOT_APPLICABLE.get(p, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Each check rebuilds the harness against /repo, takes its whole-program LLVM IR and executes it symbolically.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
