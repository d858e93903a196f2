#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = ''
for f in sorted(os.listdir(os.path.join(here, 'sim/src/props'))):
    src += open(os.path.join(here, 'sim/src/props', f)).read()
have = set(re.findall(r'id: "(C\d+)"', src))
NA = {
    'C20': 'decided at compile time of user code by the macro; there is no schedule, clock, I/O, fault or history at run time to simulate',
    'C21': 'a statement about cost; simulation decides behaviour and nothing about performance',
}
TECH = {
    'C01': 'deterministic simulation: seeded thread scheduler over hooked locks, linearizability check',
    'C02': 'deterministic simulation: seeded histories of pool copies across threads, snapshot invariants',
    'C19': 'deterministic simulation: fault-injecting compiler and file system stand-ins, outcome invariants',
}
NOTE = {
    'C01': 'Seeded schedules of 2 to 5 real threads, preempted at lock, first-use, buffer and allocation points; linearizability is decided per history. Memory-model effects below the lock are not explored.',
    'C19': 'Seeded builds with one fault each against prost-build alone as the reference. Damaged descriptor files that still load are not judged.',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if i not in have:
        na.append({'property': i, 'reason': 'the check is not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./run.sh check {i} quick',
        'thorough_cmd': f'./run.sh check {i} thorough',
        'technique': TECH.get(i, 'deterministic simulation with fault injection: seeded runs against a reference model'),
        'level': 'exploration',
        'level_note': NOTE.get(i, 'Seeded sampling of histories, layouts and faults; evidence, not proof. Trusts the reference model and codec in the harness; see DESIGN.md for bounds.'),
    })
json.dump({
    'version': 1,
    'setup_cmd': './run.sh build',
    'hooks': {
        'guard': '--cfg prost_reflect_sim',
        'enable': 'RUSTFLAGS="--cfg prost_reflect_sim" (set by run.sh)',
        'source_commits': ['7e1a79a65ee942564470b47b8f8de5b2e12f76d3'],
    },
    'checks': checks,
    'not_applicable': na,
}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
