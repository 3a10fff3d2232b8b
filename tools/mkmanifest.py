#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from claims import CLAIMS
try: from claims import NOT
except ImportError: NOT = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'tools\'); import claims" && verus --version', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        m['checks'].append({'property': p, 'quick_cmd': './check.py %s --tier quick' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
            'technique': c.get('technique', 'contract-based deductive verification (Verus) of the functions extracted from the C++ AST; failing obligations are replayed with a harness on the real code'),
            'level': c['level'], 'level_note': c.get('note', 'Every obligation generated from the current source must be discharged for all inputs. Trusted: the extraction (tools/c2v), the contracts of Qt types in specs/prelude.rs, Verus/Z3.')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT.get(p, 'no contract has been completed for this property yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
