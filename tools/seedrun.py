#!/usr/bin/env python3
"""seedrun.py [names]: runs the property's quick check against each planted change in a scratch copy of /repo and records the verdicts.

Not used by any check; tools/design.py puts the recorded verdicts into DESIGN.md."""
import glob
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'seed_results.json')
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
have = set()
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = m.split('/')[-2]
    have.add(i)
    if sys.argv[1:] and not any(a in i for a in sys.argv[1:]):
        continue
    p = json.load(open(m))['property']
    d = '/tmp/sr-' + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    try:
        a = subprocess.run(['git', 'apply', V + '/seeded/%s/patch.diff' % i], cwd=d, capture_output=True, text=True)
        r = subprocess.run([V + '/check', p], env=dict(os.environ, SX_REPO=d), capture_output=True, text=True)
    finally:
        shutil.rmtree(d)
    v = [l for l in r.stdout.splitlines() if l.startswith('counterexample')]
    res[i] = [p, a.returncode, r.returncode, v[0] if v else '']
    print('%-40s %s apply=%d -> %d %s' % (i, p, a.returncode, r.returncode, v[:1]), flush=True)
    if r.returncode == 2:
        print((r.stdout + r.stderr)[-800:])
json.dump({k: res[k] for k in sorted(res) if k in have}, open(OUT, 'w'), indent=0)
