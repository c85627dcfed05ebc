#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text, the per-property notes below, and bounds, costs and verdicts recorded by the last runs.

Run after the quick checks (evidence/) and tools/seedrun.py."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'props'), '/repo']

HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(V, 'tools', 'design_tail.md')).read()

# property -> (what is encoded and made symbolic, oracle, why this reaches what tests cannot)
NOTES = json.load(open(os.path.join(V, 'tools', 'design_notes.json')))


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    seeds = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
    costs_file = os.path.join(V, 'tools', 'costs.json')
    costs = json.load(open(costs_file)) if os.path.exists(costs_file) else {}
    out.append('## The properties, one by one\n')
    for p in props:
        i = p['id']
        mod = __import__(i.lower())
        out.append('### %s %s\n' % (i, p['title']))
        what, oracle, why = NOTES[i]
        out.append('*Encoded.* %s\n' % what)
        out.append('*Oracle.* %s\n' % oracle)
        out.append('*Beyond the tests.* %s\n' % why)
        out.append('*Bounds.* %s.' % mod.BOUNDS.rstrip('.'))
        if mod.ASSUMPTIONS:
            out.append('*Assumptions.* %s.' % '; '.join(mod.ASSUMPTIONS))
        runs = [n for n, s in mod.SCENARIOS.items() if hasattr(s, 'bounds')]
        out.append('*Scenarios.* %s.%s' % (', '.join('`%s`' % s for s in mod.SCENARIOS),
                                           ' Of these, %s use the reference model (deviation budgets are in the evidence).' % ', '.join('`%s`' % s for s in runs) if runs else ''))
        c = costs.get(i, {})
        txt = []
        for tier in ('quick', 'thorough'):
            if tier in c:
                d = c[tier]
                txt.append('%s: %d paths, %d assertions checked, %d solver queries, %d functions of the repository entered, %.0f s%s'
                           % (tier, d['paths'], d['checks'], d['queries'], d['functions'], d['wall'], '' if d['complete'] else ' (stopped at the time cap, exploration of the rest of the bound not finished)'))
        if txt:
            out.append('*Cost here (8 cores).* ' + '; '.join(txt) + '.')
        mine = [s for s in seeds if seeds[s][0] == i]
        if mine:
            out.append('*Planted changes.* caught: %s%s' % (', '.join(s for s in mine if seeds[s][2] == 1) or 'none',
                                                           '; missed: ' + ', '.join(s for s in mine if seeds[s][2] != 1) if any(seeds[s][2] != 1 for s in mine) else ''))
        out.append('')
    out.append(TAIL.rstrip() + '\n')
    n = len(seeds)
    k = len([s for s in seeds if seeds[s][2] == 1])
    out.append('## Which check catches which planted change\n')
    out.append('%d planted changes are kept under `seeded/`; the quick check of their property catches %d of them. The message is the first assertion that '
               'failed and was reproduced on the plain code.\n' % (n, k))
    out.append('| change | check | verdict | first failing assertion |\n|---|---|---|---|')
    for s in sorted(seeds):
        p, _, rc, msg = seeds[s]
        out.append('| %s | %s | %s | %s |' % (s, p, 'caught' if rc == 1 else 'missed (exit %d)' % rc, re.sub(r'^counterexample in scenario ', '', msg).replace('|', '/')))
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
