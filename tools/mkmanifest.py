#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the tables below."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
T = 'deterministic simulation with fault injection: '
CLAIMED = {
 'C01': ('exploration', T + 'seeded session histories against an independent reference digest', 'Seeded search over session histories, fragmentations and faults; every digest compared with an independent reference. Trusts the reference and libcrypto.'),
 'C02': ('exploration', T + 'seeded cipher session histories against independent reference ciphers', 'Seeded search over interleaved cipher sessions with re-initialisation, copies and faults; every stream compared with an independent one-shot reference.'),
 'C03': ('exploration', T + 'seeded MAC session histories against independent reference MACs', 'Seeded search over interleaved MAC sessions; every tag compared with an independent one-shot reference.'),
}
NA = {
 'C20': 'A pure function of its arguments: no schedule, clock, I/O, crash or other party takes part, so a simulator has nothing to decide; it would be plain input testing or proof. Wrong points that matter to users are still caught where C08 and C09 compare signatures and shared keys with an independent reference.',
 'C21': 'Execution time and memory access patterns are properties of the compiled code on real hardware; a simulator replaces exactly the clock and scheduler they are measured with.',
}
extra = os.path.join(H, 'tools', 'claims.json')
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items(): CLAIMED[k] = (v[0], T + v[1], v[2])
m = {'version': 1, 'setup_cmd': 'python3 build.py main thr pattern zero', 'checks': [], 'not_applicable': [],
     'notes': 'Simulator binaries built from /repo\'s working tree by build.py: one for everything but C12 and C23 (interposition at link level), one for C12 with the engine compiled so that every memory access is a scheduling point, two for C23 that differ in what uninitialised memory holds. No hooks in /repo. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        l, t, n = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Its check is not built yet.')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
