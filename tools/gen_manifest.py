#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from vsim import props
NA = {
 'P01': 'A pure function of one URL and the configuration: no concurrency, time, I/O or other party decides it, so a simulator has no schedule or fault to search over.',
 'P02': 'Pure single-threaded library functions without I/O, time or concurrency; simulation has nothing to schedule or fail.',
 'P03': 'Pure single-threaded data-structure invariant; no nondeterminism for a simulator to control.',
 'P04': 'Pure functions on strings; no schedule, time, I/O or fault takes part.',
 'P05': 'Pure (de)serialisation; no schedule, time or fault takes part (read faults of configuration files are L01).',
 'P06': 'Pure text parsing; no schedule, time, I/O or fault takes part.',
}
P = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in P:
    if p['id'] in props.ids():
        x = props.get(p['id'])
        checks.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
            technique='deterministic simulation with fault injection: seeded search over schedules, faults and inputs of the real program', level='exploration',
            level_note=(x.note or 'Seeded search, not exhaustive.') + ' The real binary runs whole under a simulated kernel interface; trusted: the simulator (threads interleave at intercepted calls and allocations), the reference model where one is used, and the scripted servers and commands.'))
    else: na.append(dict(property=p['id'], reason=NA.get(p['id'], 'No check has been built for it yet.')))
json.dump(dict(version=1, setup_cmd='python3 -B -m vsim.build', checks=checks, not_applicable=na,
    notes='No hooks in /repo: every seam is the C library boundary, taken over by a preloaded simulator (sim/). Repairs of genuine defects are the "fix:" commits in /repo; see known_findings.txt.'), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
