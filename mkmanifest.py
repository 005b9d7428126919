#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json
import re
import os
here = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
T = {
 'C01': ('simulated crashes: seeded crash points and lost/torn unsynced writes on a simulated disk under the real save code',
         'fault_enumeration'),
 'C02': ('simulated storage faults: seeded errors, short writes, full disk at every storage operation of real saves', 'fault_enumeration'),
 'C03': ('seeded simulation of network histories, saved and loaded in simulated other processes, compared with the original', 'exploration'),
 'C04': ('seeded simulation of training with failing saves and crashes against a reference model of keep-best', 'exploration'),
 'C05': ('simulated crashes and storage faults while logs and features are written, plus content comparison', 'fault_enumeration'),
 'C06': ('deterministic delivery of quit signals at seeded lines and device operations of simulated training', 'exploration'),
 'C07': ('seeded stop/continue histories of simulated training against a reference execution', 'exploration'),
 'C08': ('seeded simulation of hook schedules with failing hooks and data against a model of the call history', 'exploration'),
 'C09': ('differential simulation of training with and without observers in adversarial memory and time', 'exploration'),
 'C10': ('differential simulation: seeded histories with injected faults and memory contents against a fresh network', 'exploration'),
 'C11': ('fault injection at seeded allocations and device operations, then retry against a fresh network', 'fault_enumeration'),
 'C12': ('seeded scheduler interleaving several networks, trainers and iterators at device operations, compared with solo runs', 'exploration'),
 'C13': ('repetition of seeded experiments in environments that differ in everything the simulator controls', 'exploration'),
 'C14': ('seeded schedules of interleaved, abandoned and failing data passes against a model', 'exploration'),
 'C15': ('seeded schedules of passes through nested augmenting iterators against a model', 'exploration'),
 'C16': ('seeded cuts of sequences with other work and faults in between, against one pass over the whole', 'exploration'),
 'C17': ('seeded step histories against a small reference model of the update rules', 'exploration'),
 'C18': ('simulated passes after seeded histories with replayed random draws, compared with differences of the reported loss', 'exploration'),
 'C19': ('seeded histories of handler switches, including failing ones, against networks that used the handler from the start', 'exploration'),
 'C20': ('seeded divisions of data with other work and aborted evaluations in between, against single examples run alone', 'exploration'),
 'C21': ('seeded log histories and continuations against a model of the stopping rules', 'exploration'),
 'C23': ('seeded moments of describing and places of re-creating, with injected failures, against directly declared experiments', 'exploration'),
 'C24': ('differential simulation: seeded programs of a caller who writes over everything he handed over or got, against a calm one', 'exploration'),
 'C25': ('seeded programs with rejected calls and failing user objects injected, against the program without them', 'fault_enumeration'),
 'C26': ('differential simulation: seeded batches with injected garbage in the padding and work in between, against single examples run alone', 'exploration'),
 'C27': ('differential simulation: the simulator chooses how a network is written down (orders, names, detours), then one seeded history with injected faults for all forms', 'exploration'),
 'C22': ('seeded schedules, stops and continuations against a model of the documented values', 'exploration'),
}
NOTE = ('Seeded search over simulated executions of the real code (no '
        'exhaustive guarantee): every run is repeatable from its seed, a '
        'violation comes with a minimised replay file. Trusts the '
        'simulator\'s seams (device operations, disk, clock, randomness, '
        'signals, memory content) and the reference models described in '
        'DESIGN.md.')
NA = {
 'N01': 'A pure function of its inputs: no schedule, fault, time or history takes part, so simulation decides nothing here. (That a pass does not depend on history is C10; its consistency with the gradient is C18.)',
 'N02': 'Building a network is a pure function of the architecture; there is no nondeterminism, fault or history to simulate.',
 'N03': 'A statistical statement about single calls; seeds are controlled by the simulator (C13), but a distribution is not decided by schedules or faults.',
 'N04': 'A pure function of its inputs; the aggregation over seeded divisions and histories is decided in C20.',
 'N05': 'Needs a GPU and pycuda; neither is present, and a stand-in for the device would not run the code the property is about.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in sorted(T):
    m = open(os.path.join(here, 'sim/checks/%s.py' % p.lower())).read()
    assert p in ids
    checks.append({
        'property': p,
        'quick_cmd': '%s sim/main.py check %s --tier quick' % (PY, p),
        'thorough_cmd': '%s sim/main.py check %s --tier thorough' % (PY, p),
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection: ' + T[p][0],
        'level': re.search(r"^LEVEL = '(\w+)'", m, re.M).group(1), 'level_note': NOTE})
assert sorted(list(T) + list(NA)) == sorted(ids), ids
json.dump({
    'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
    'not_applicable': [{'property': k, 'reason': v}
                       for k, v in sorted(NA.items())],
    'notes': 'No hooks in /repo: the simulator uses the seams the code has '
             '(handler operations, data iterators, hooks, module-level '
             'clock, random states) and an LD_PRELOAD shim for the disk.'},
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
