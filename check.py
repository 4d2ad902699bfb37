#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: verify every function the property depends on, from /repo's current source."""
import json
import multiprocessing
import os
import pickle
import sys
import time
import traceback

sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = int(os.environ.get('VERIF_CPUS', '0') or 0) or os.cpu_count() or 4


def load_hints():
    try:
        return json.load(open(os.path.join(VERIF, 'specs', 'hints.json')))
    except OSError:
        return {}


def key_of(group, fname):
    return group + '/' + fname


def run_function(group, fname, pid, slots, programs, tier, start):
    """in a forked process: generate and discharge the obligations of one function"""
    from vcg.engine import Engine
    from vcg.contract import verify_function
    from vcg.cast import ExtractError
    from vcg.solve import solve
    from specs.registry import GROUPS
    builder, specs, _ = GROUPS[group]
    out = dict(group=group, function=fname, error=None, total=0, discharged=0, trivial=0, failed=[], inv_kept=0, inv_total=0, backend={},
               covers=[], assumptions=[], notes=[], gen_s=0, wall_s=0, solver_s=0, queries=0, by_tag={}, trusted=[])
    t0 = time.time()
    try:
        with slots:
            P = programs[builder]
            if isinstance(P, Exception):
                raise P
            S = specs(P)
            fd = S.find_function(fname)
            name = fd.name if fd is not None else fname.split(':')[-1]
            if ':' in fname and '@' not in fname and (fd is None or S.contract_for(name, fd.tu) is None):
                # a static function that is gone or has another signature: its body is verified inlined in its callers
                out['skipped'] = True
                out['wall_s'] = round(time.time() - t0, 2)
                return out
            if fd is None:
                raise ExtractError('function %s not found' % fname)
            if name not in S.contracts:
                raise ExtractError('no contract for %s' % fname)
            E = Engine(P, S)
            verify_function(E, fd, S.contracts[name])
        out['gen_s'] = round(time.time() - t0, 2)
        out['file'] = fd.tu.rel

        def want(o):
            return pid in o.tags or 'core' in o.tags or not o.tags
        thorough = tier == 'thorough'
        r = solve(E, want, timeout=10.0 if thorough else 4.0, retry=40.0 if thorough else 8.0, slots=slots, width=NCPU, deadline=start + 240, hints=load_hints().get(key_of(group, fname)))
        out.update(total=r.total, discharged=r.discharged, trivial=r.trivial, failed=[d for d, _ in r.failed],
                   inv_kept=len(r.inv_kept), inv_total=r.inv_total, backend=r.backend, covers=r.cover, queries=r.queries, solver_s=round(r.cpu, 2),
                   assumptions=sorted(E.assumptions), notes=sorted(E.notes), trusted=sorted(E.called_contracts))
        own = [o for o in E.obls if o.kind != 'inv' and pid in o.tags]
        out['own'] = len(own)
        out['names'] = sorted({o.name for o in own})[:400]
        if r.cover and all(c == 'unsat' for _, c in r.cover):
            out['vacuous'] = True
    except ExtractError as e:
        out['error'] = 'outside the verified subset: %s' % e
    except Exception as e:
        out['error'] = 'internal error: %s' % e
        out['trace'] = traceback.format_exc()
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import z3
    from specs.registry import GROUPS, PROPERTIES
    need = PROPERTIES[pid]
    slots = multiprocessing.Semaphore(NCPU)
    programs = {}
    for g in need:
        b = GROUPS[g][0]
        if b not in programs:
            try:
                programs[b] = b(REPO)
            except Exception as e:
                programs[b] = e
    jobs = []
    only_fn = os.environ.get('VERIF_FN')
    for g, only in need.items():
        for rel, fns in GROUPS[g][2].items():
            for f in fns:
                if only is None or f in only:
                    jobs.append((g, f))
    procs = []
    for g, f in jobs:
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            code = 0
            try:
                out = run_function(g, f, pid, slots, programs, tier, t0)
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump(out, fh)
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(w)
        procs.append((g, f, pid_, r))
    results = []
    for g, f, p, r in procs:
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(p, 0)
        results.append(pickle.loads(data) if data else dict(group=g, function=f, error='internal error: worker died', failed=[], total=0, discharged=0,
                                                            trivial=0, inv_kept=0, inv_total=0, backend={}, covers=[], assumptions=[], notes=[], trusted=[], wall_s=0, solver_s=0, queries=0, gen_s=0))
    import report
    sys.exit(report.finish(pid, tier, seed, results, time.time() - t0))


if __name__ == '__main__':
    main()
