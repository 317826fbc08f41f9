#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the registry
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/check.py all --build-only',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo unchanged against the MPI header of /verif/sim', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 bin/check.py %s --tier quick' % p, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check has been built yet')})
m['notes'] = 'See DESIGN.md. Every check rebuilds from /repo and enumerates executions of the real code.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
