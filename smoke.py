#!/opt/veriftools/pyvenv/bin/python3
"""smoke.py [group/function ...]: looks for contradictory contracts: after every call it tries to prove FALSE, and reports where that succeeds (a dead path, or a contradiction)."""
import os, sys, json
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from specs.registry import GROUPS
from vcg.engine import Engine
from vcg.logic import FALSE
from vcg.contract import verify_function
from vcg.solve import solve_once, cand_key
HINTS = json.load(open(os.path.join(VERIF, 'specs', 'hints.json')))
progs = {}
for g, (b, specs, files) in GROUPS.items():
    for fns in files.values():
        for f in fns:
            key = g + '/' + f
            if sys.argv[1:] and not any(key.startswith(a) for a in sys.argv[1:]):
                continue
            if b not in progs:
                progs[b] = b(os.environ.get('VERIF_REPO', '/repo'))
            S = specs(progs[b])
            E = Engine(progs[b], S)
            fd = S.find_function(f)
            me = S.contracts[fd.name]

            def wrap(nm, c0):
                def fn(c):
                    before = c.mode == 'call'
                    r = c0(c)
                    if before and c.mode == 'call':
                        c.eng.prove(c.st, FALSE, 'SMOKE ' + nm, ('C00',), c.loc, assume=False)
                    return r
                return fn
            for nm, con in S.contracts.items():
                if nm not in ('abort', '__assert_fail', 'exit'):
                    con.fn = wrap(nm, con.fn)
            verify_function(E, fd, me)
            h = HINTS.get(key, [])
            use = {c for c in range(len(E.cands)) if cand_key(E, c) in h or cand_key(E, c, False) in h}
            r = solve_once(E, lambda o: o.name.startswith('SMOKE'), 0.7, 0.7, False, False, None, 8, max(1.0, getattr(S, 'slow', 1.0)), use=use, quick=True)
            n = [o for o in E.obls if o.name.startswith('SMOKE')]
            bad = {d['name'] + ' ' + str(d['loc']) for d, o in r.failed}
            dead = [o.name + ' ' + str(o.loc) for o in n if o.name + ' ' + str(o.loc) not in bad]
            print(key, len(n), 'dead:', dead, flush=True)
