"""Writes MANIFEST.json from properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
PY = '/opt/venv/bin/python dst/check.py'
NOTE = {
    'C01': 'seeded preemptive schedules of 2-4 threads over the real codec, each result compared with the same call made alone in a pristine process',
    'C02': 'as C01 with schema objects and messages shared between the threads',
    'C03': 'seeded histories of successful and failing calls; each result compared with the same call in a pristine process',
    'C04': 'an exception injected at a seeded line or bytecode of the codec, recursion limits, failing log handlers',
    'C05': 'simulated network that truncates and damages frames; accepted messages judged by the reference codec',
    'C06': 'simulated network of peers with different versions of a schema; reference codec as the foreign peer',
    'C07': 'seeded schedules and failing or changing log handlers; logger-free run as the oracle',
    'C08': 'seeded histories of compilations with interruptions, other environments; fresh-process result as the oracle',
    'C09': 'seeded preemptive schedules of compilations and codec calls; lone result as the oracle',
    'C10': 'fault at the n-th file operation through an LD_PRELOAD seam, kills, pauses, interrupts; folder judged after each step',
    'C11': 'seeded histories of operations on live messages against a reference model of their content',
    'C12': 'simulated network with loss, duplication, reordering, damage, crashes; reference PER codec as the foreign peer',
    'C13': 'simulated network of nodes that compile their own text of one schema, with crashes and frame faults; reference PER codec as the foreign peer and oracle',
    'C14': 'codec calls made by handlers at seeded lines, bytecodes and log records of other calls; each compared with the same call made alone in a pristine process',
}
NA = {
    'C20': 'pure function of one value: no schedule, clock, I/O or fault takes part (C12 compares octets with a reference only for what crosses the simulated network)',
    'C21': 'pure function of the assigned value',
    'C22': 'pure function of the schema text; its dependence on history, threads and environment is C08 and C09',
    'C23': 'pure function of one message; its dependence on history and threads is C01, C02, C03 and C11',
}
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selfcheck.py',
     'checks': [{'property': p['id'], 'quick_cmd': '%s %s --tier quick' % (PY, p['id']), 'thorough_cmd': '%s %s --tier thorough' % (PY, p['id']),
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'deterministic simulation with fault injection', 'level': 'exploration',
                 'level_note': NOTE[p['id']]} for p in props if p['id'] in NOTE],
     'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in props if p['id'] in NA]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
