#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C01': 'deterministic simulation: seeded histories of save/restore/restart against an executable reference model',
    'C02': 'deterministic simulation: seeded save/load histories against a reference model, on a simulated disk',
    'C03': 'deterministic simulation with kill, torn-write, disk-full and error injection at every system call of a save',
    'C04': 'deterministic simulation with read-error, short-read, truncation and interference injection at every system call of a load',
    'C05': 'deterministic simulation: seeded thread schedules with read faults and interrupts, history checked against a register model',
    'C06': 'deterministic simulation: seeded thread schedules of table builds with allocation and I/O failures against a reference model',
    'C07': 'deterministic simulation: seeded thread schedules of client sessions checked call by call against a sequential reference model',
    'C08': 'deterministic simulation of worker processes with kills and redo; results compared across partitions and with a reference model',
    'C09': 'deterministic simulation of seeded call histories with the random stream behind a seam, against a reference model',
    'C10': 'deterministic simulation with solver-failure injection at chosen solver calls',
    'C11': 'deterministic simulation of redshift histories with allocation-failure injection',
    'C12': 'deterministic simulation with files changed, removed and replaced by another simulated program at any system call',
    'C13': 'deterministic simulation with I/O faults and interrupts; kernel file table checked as an invariant',
    'C14': 'deterministic simulation with interrupts injected at source lines, library calls and system calls',
    'C15': 'deterministic simulation with read faults and vanishing files at any system call of a listing',
    'C16': 'deterministic simulation of processes exchanging pickled objects (delay, loss, duplication, reordering, restarts) against a reference model',
    'C17': 'deterministic simulation of client histories that reuse and change what objects were built from, against a reference model',
    'C18': 'deterministic simulation with I/O faults, interrupts, failing allocations and interleaved threads; process settings and files checked as invariants after every call',
    'C19': 'deterministic simulation with read errors, failed allocations, interrupts and damaged files; object state compared exactly before and after',
    'C20': 'deterministic simulation: seeded schedules of clients saving and loading at the same time, with I/O errors, against recorded contents',
    'C21': 'deterministic simulation of long sessions of equal rounds with faults; what is still reachable measured after every round',
}
NOTE = 'Seeded search over schedules, histories and fault placements; not exhaustive. Bounds and cost in DESIGN.md.'
NA = {
    'N01': 'A pure function of its arguments: no concurrency, time, I/O or multi-party behaviour, so there is no schedule or fault for the simulator to choose.',
    'N02': 'A pure numerical identity; no schedule, history, crash or fault can influence it (dependence on other calls is C07).',
    'N03': 'Pure numerics over the stored curves; nothing nondeterministic takes part (loading the curves correctly under faults is C04/C05).',
    'N04': 'Pure arithmetic on arrays; no schedule, fault or history takes part (aliasing of inputs is C07).',
    'N05': 'Numerical accuracy of a pure function; nothing for a simulator to schedule or to fail.',
}
NA_EXTRA = {}
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl')) if x.strip()]
ids = [p['id'] for p in props]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
for i in ids:
    if i.startswith('C'):
        lev = 'exploration'
        m['checks'].append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i,
                                thorough_cmd='./check.py %s --tier thorough' % i,
                                technique=TECH[i], level=lev, level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA[i]))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
