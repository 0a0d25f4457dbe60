#!/usr/bin/env python3-vt
"""Write MANIFEST.json from the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import registry   # noqa: E402

TECH = 'contract-based deductive verification: obligations generated from the LLVM IR of /repo\'s code, discharged ' \
       'exactly (ground, polynomial identity, sums of squares) or by z3/cvc5; refutations replayed natively'

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt /verif/check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH,
            'level': 'proof',
            'level_note': registry.NOTES[i] + ' Assumes: doubles are exact reals; trusts clang/opt front end, the dgv '
            'engine (tested against the native code on every run) and the solvers.',
        })
    else:
        na.append({'property': i, 'reason': registry.NOT_CLAIMED.get(i, 'no check built yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the drivers in /verif/drivers include the unmodified sources of /repo',
              'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md; known findings and fixes in known_findings.txt.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
