#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMED lists the properties that have a check."""
import json
CLAIMED = open('/verif/claimed.txt').read().split()
TECH = {
 'C15': 'symbolic execution of the Go SSA of the real code under a symbolic scheduler, lock-order and lockset constraints decided by z3',
}
NOTE = {}
D = 'bounded symbolic execution of the Go SSA of the real code, assertions and path conditions decided by z3'
N = ('Holds for every input, history and choice within the bounds recorded in the evidence file (coverage.bounds), which also counts the paths, '
     'assertions and solver queries; counterexamples are replayed on the natively compiled code before they are reported. Trusted: the SSA interpreter '
     '(sampled paths are replayed natively and compared), z3, the reference model in /verif/harness. Nothing is claimed outside the bounds.')
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                            'technique': TECH.get(i, D), 'level': 'model_checking', 'level_note': NOTE.get(i, N)})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check yet'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
