#!/opt/veriftools/pyvenv/bin/python3
"""mkhints.py [group/function ...]: records in specs/hints.json which loop candidates the proofs use (only to save time: see vcg/solve.py)."""
import json, os, sys
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from specs.registry import GROUPS
from vcg.engine import Engine
from vcg.contract import verify_function
from vcg.solve import solve, minimal_hints
P = os.path.join(VERIF, 'specs', 'hints.json')
progs = {}
for g, (b, specs, files) in GROUPS.items():
    for fns in files.values():
        for f in fns:
            key = g + '/' + f
            if sys.argv[1:] and not any(key.startswith(a) for a in sys.argv[1:]):
                continue
            if b not in progs:
                progs[b] = b(os.environ.get('VERIF_REPO', '/repo'))
            S = specs(progs[b])
            E = Engine(progs[b], S)
            fd = S.find_function(f)
            verify_function(E, fd, S.contracts[fd.name])
            hints = json.load(open(P)) if os.path.exists(P) else {}
            hints.pop(key, None)
            if E.cands:
                r = solve(E, lambda o: True)
                if r.failed:
                    print(key, 'FAILED', [d['name'] for d, _ in r.failed], flush=True)
                    continue
                hints[key] = minimal_hints(E, r)
                print(key, len(r.inv_kept), '->', len(hints[key]), flush=True)
            json.dump(hints, open(P, 'w'), indent=0, sort_keys=True)
