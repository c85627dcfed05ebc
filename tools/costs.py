#!/usr/bin/env python3
"""Records the costs of the last runs (evidence/) for tools/design.py."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, 'tools', 'costs.json')
out = json.load(open(f)) if os.path.exists(f) else {}
for p in glob.glob(V + '/evidence/C[0-9][0-9].json'):
    d = json.load(open(p))
    c = d['coverage']
    out.setdefault(d['property'], {})[d['tier']] = dict(paths=c['states'], checks=c['assertion_checks'], queries=c['solver_queries'], functions=len(c['functions_encoded']),
                                                       wall=d['wall_s'], complete=c['complete'])
json.dump({k: out[k] for k in sorted(out)}, open(f, 'w'), indent=0)
