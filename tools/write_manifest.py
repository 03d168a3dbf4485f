#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {}
NOTE = ('Held on every simulated run of a seeded search (fixed seed per run, every run exactly repeatable); assurance '
        'is that of the sampled inputs, schedules and fault points, not a proof. Trusts the reference model in '
        'simkit/models.py or in the property module, CPython, numpy/pandas/scipy, and that preemption between source '
        'lines represents the interleavings that matter.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'simkit', 'props', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'python3 dst.py check {i} --tier quick',
                           thorough_cmd=f'python3 dst.py check {i} --tier thorough',
                           technique='deterministic simulation with fault injection (seeded search over histories, '
                                     'schedules and faults against a reference model)',
                           level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 dst.py selftest models', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam (threads, collaborators, iterators, hashes, random streams, interrupts) '
               'exists already or is reached from the simulator. See DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
