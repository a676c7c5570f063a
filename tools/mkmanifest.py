#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C23': 'A compile-time fact (sizeof of an instantiated type) without executions: model checking has nothing to explore. See DESIGN.md.',
    'C24': 'A compile-time fact (noexcept specifications) without executions: model checking has nothing to explore. See DESIGN.md.',
}
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 run.py check %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c['technique'],
            'level': 'model_checking',
            'level_note': c.get('note', 'Exhaustive within the bounds in the evidence file; trusts the engine (engine/*.cpp), the reference model in the harness, g++ and that code compiled with -fsanitize=thread instrumentation behaves as code compiled without.'),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check yet.')})
m['notes'] = 'Checks build everything they need from /repo in a temporary directory. No hooks in /repo.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
