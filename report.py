"""Evidence file, known findings, replay files and the verdict of a check."""
import json
import os
import re
import subprocess
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

TRUSTED = [
    'clang 18 front end (the syntax tree of the real translation units is what is verified)',
    'the verification condition generator in /verif/vcg and its memory model (objects never move, freed addresses are not reused, union members are separate fields)',
    'z3 5.3.2 (Python binding) and z3 4.8.12 (/usr/bin/z3): unsat answers',
]


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) (\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def finish(pid, tier, seed, results, wall):
    failed, errors = [], []
    for r in results:
        for d in r['failed']:
            failed.append((r, d))
        if r['error']:
            errors.append(r)
        if r.get('vacuous'):
            failed.append((r, dict(name='%s: an exit is reachable' % r['function'], tags=['core'], loc=r.get('file', ''), result='unsat', why='every exit is unreachable', time=0)))
    total = sum(r['total'] for r in results)
    disch = sum(r['discharged'] for r in results)
    backend = {}
    for r in results:
        for k, v in r['backend'].items():
            backend[k] = backend.get(k, 0) + v
    assumptions = sorted({a for r in results for a in r['assumptions']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(wall, 1), violations=0, assumptions=assumptions + [
        'partial correctness: nothing is claimed about executions that do not return',
        'pointers to scalars do not alias structure fields unless the source takes the address of the field',
    ], coverage=dict(
        obligations=total, discharged=disch, checker_cmd='/verif/run.sh %s' % pid,
        trusted_base=TRUSTED + sorted({'contract used: ' + t for r in results for t in r['trusted']}),
        functions_under_contract=len(results), trivially_true=sum(r['trivial'] for r in results), by_back_end=backend,
        obligations_of_this_property=sum(r.get('own', 0) for r in results),
        solver_queries=sum(r['queries'] for r in results), solver_seconds=round(sum(r['solver_s'] for r in results), 1),
        loop_invariants_inferred=sum(r['inv_kept'] for r in results), loop_invariant_candidates=sum(r['inv_total'] for r in results),
        functions=[dict(function=r['function'], file=r.get('file'), obligations=r['total'], discharged=r['discharged'], generation_s=r['gen_s'], wall_s=r['wall_s'],
                        exits_reachable='%d of %d not refuted' % (sum(c != 'unsat' for _, c in r['covers'] or []), len(r['covers'] or []))) for r in results],
        samples=[n for r in results for n in r.get('names', [])][:40],
    ))
    lines = []
    rc = 0
    kf = known()
    for p, key, txt in kf:
        if p == pid:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, txt))
    keys = {key for p, key, _ in kf if p == pid}
    failed = [(r, d) for r, d in failed if d['name'].replace(' ', '_') not in keys]
    if total == 0 and not errors:
        errors.append(dict(function='-', error='no obligation was generated'))
    if failed or errors:
        rc = 1
        os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
        path = os.path.join(VERIF, 'work', 'replay-%s.json' % pid)
        rep = dict(property=pid, failed_obligations=[dict(d, function=r['function'], of_this_property=pid in d['tags']) for r, d in failed],
                   errors=[dict(function=r['function'], error=r['error'], trace=r.get('trace')) for r in errors])
        suffix = ' no-failing-input-found'
        try:
            import replay
            found = replay.search(pid, rep)
        except Exception as e:
            found = None
            rep['replay_error'] = str(e)
        if found:
            rep['replay'] = found
            suffix = ''
        json.dump(rep, open(path, 'w'), indent=1)
        for r, d in failed[:12]:
            lines.append('failed obligation: %s [%s] %s (%s %s)' % (d['name'], ','.join(d['tags']), d['loc'], d['result'], d['why']))
        for r in errors[:6]:
            lines.append('not verified: %s: %s' % (r['function'], r['error']))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, suffix))
        ev['violations'] = len(failed) + len(errors)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions, %d of %d obligations discharged, %.1f s' % (pid, len(results), disch, total, wall))
    for l in lines:
        print(l)
    return rc
