#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs.registry import PROPERTIES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
NOTE = ('Every obligation generated from the current source of the functions listed in the evidence is discharged by z3 for all inputs and all loop '
        'iterations. Assumes the contracts of libc and the kernel, partial correctness, and the memory model described in DESIGN.md.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPERTIES:
        checks.append(dict(property=i, quick_cmd='./run.sh %s' % i, thorough_cmd='VERIF_TIER=thorough ./run.sh %s' % i,
                           technique='contract-based deductive verification (contracts on the C functions, VC generation from the clang AST, z3)',
                           level='proof', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet: the contracts of the functions this property depends on are not written')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='run.sh PROPERTY verifies the functions listed for the property in specs/registry.py.'),
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
