"""Writes MANIFEST.json from the properties and the harnesses present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the instrumented Python source, path conditions and assertions decided by z3'
NOTE = ('Every path of the harness through the real code, within the bounds in evidence coverage.bounds, was explored and each '
        'assertion was shown by z3 to hold for all values of the path; counterexamples are re-run on the uninstrumented code before '
        'they are reported. Trusted: z3, the proxy semantics (validated on every run against the plain code on models of sampled '
        'paths, and by running the repository tests on the instrumented modules in setup), CPython for everything not symbolic. '
        'Nothing is claimed outside the bounds.')


def main():
    checks, na = [], []
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l)
        p = d['id']
        if os.path.exists(os.path.join(V, 'props', p.lower() + '.py')):
            checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                               evidence_file='evidence/%s.json' % p, technique=TECH, level='model_checking', level_note=NOTE))
        else:
            na.append(dict(property=p, reason='no check built yet'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks: the source of /repo is instrumented in memory when a check imports it. Known findings: '
                   'known_findings.jsonl.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
