"""Discharging the obligations of one function: Houdini for loop candidates, then every obligation.

Work is spread over forked workers; `slots` (a semaphore) bounds how many run at the same time over all functions."""
import contextlib
import os
import pickle
import shutil
import signal
import time
import traceback
import z3

from .proc import Texts, oneshot, core

Z3BIN = next((b for b in ('/usr/bin/z3', shutil.which('z3')) if b and os.path.exists(b)), None)
GROUP = int(os.environ.get('VERIF_GROUP', '6'))
STEPS = 2000000     # solver steps per second, roughly
BASE = {'smt.auto_config': False, 'smt.mbqi': False, 'smt.ematching': True, 'auto_config': False}
for k, v in BASE.items():
    z3.set_param(k, v)
SEED = int(os.environ.get('VERIF_SEED', '0') or 0) % 1000


def mk(timeout, seed=0):
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout * 1000))
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('case_split', 3)
    s.set('delay_units', True)
    if seed:
        s.set('random_seed', seed)
    return s


class Both:
    def __init__(self, os_):
        self.pos, self.pc, self.goal = os_[0].pos, os_[0].pc, z3.And([o.goal for o in os_])


class Result:
    def __init__(self):
        self.total = self.discharged = self.trivial = 0
        self.failed = []     # (obligation dict, obligation)
        self.time = self.cpu = 0.0
        self.queries = 0
        self.houdini_rounds = 0
        self.inv_kept = []
        self.inv_total = 0
        self.cover = None
        self.backend = {}    # solver -> obligations discharged
        self.log = []


OPT = {'auto_config': 'false', 'smt.mbqi': 'false', 'smt.case_split': '1', 'smt.delay_units': 'true'}


def gave_up(why):
    return 'timeout' in why or 'canceled' in why or 'resource' in why


class Asker:
    """asks z3 4.8.12 as one process per query, then z3 5.3.2 in this process"""
    def __init__(self, facts, texts):
        self.facts, self.texts = facts, texts
        self.n = 0
        self.by = ''

    def old(self, o, asm, timeout, **opts):
        self.n += 1
        self.by = 'z3-4.8.12'
        # the limit is a count of solver steps, so that the answer does not depend on the load of the machine
        return oneshot(Z3BIN, self.texts.query(o.pos, asm, o.pc, o.goal, dict(OPT, rlimit=str(int(timeout * STEPS)), **opts)), timeout * 4)

    def new(self, o, asm, timeout, seed=0):
        self.n += 1
        self.by = 'z3-' + z3.get_version_string()
        s = mk(timeout, seed)
        for f in self.facts[:o.pos]:
            s.add(f)
        r = s.check(*(list(asm) + [o.pc, z3.Not(o.goal)]))
        return r, s.reason_unknown() if r == z3.unknown else ''


@contextlib.contextmanager
def nothing():
    yield


def parallel(jobs, fn, slots, width):
    """run fn(chunk) for the chunks of jobs in forked workers; results are concatenated"""
    if not jobs:
        return []
    width = max(1, min(width, len(jobs)))
    if width == 1:
        with (slots or nothing()):
            return fn(jobs)
    chunks = [jobs[i::width] for i in range(width)]
    pend = []
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                with (slots or nothing()):
                    try:
                        out = ('ok', fn(ch))
                    except BaseException:
                        out = ('err', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        pend.append((pid, r))
    out, err = [], None
    for pid, r in pend:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or 'a worker died'
            continue
        st, val = pickle.loads(data)
        if st == 'err':
            err = val
        else:
            out += val
    if err:
        raise RuntimeError('worker: ' + err)
    return out


def cand_key(eng, c, nth=True):
    """names a candidate; with nth, for one loop of the function (counted from the first)"""
    where = eng.cands[c][2]
    k = '%s @ %s' % (eng.cands[c][1], where.split('(')[-1].rstrip(')'))
    if not nth:
        return k
    if getattr(eng, 'loop_order', None) is None:
        eng.loop_order = list(dict.fromkeys(x[2] for x in eng.cands))
    return '%s #%d' % (k, eng.loop_order.index(where))


def solve(eng, want, timeout=4.0, retry=8.0, verbose=False, cover=True, slots=None, width=8, deadline=None, hints=None):
    """want(obligation) -> bool: must this one be proved in this run.
    hints: the loop candidates that sufficed for an earlier version of the code (tried first; they are checked like all others)."""
    t0 = time.time()
    more = getattr(eng.specs, 'slow', 1.0)
    total = dict(queries=0, cpu=0)

    def once(*a, **k):
        r = solve_once(eng, want, *a, **k)
        total['queries'] += r.queries
        total['cpu'] += r.cpu
        return r
    r = None
    if hints is not None and eng.cands:
        use = {c for c in range(len(eng.cands)) if cand_key(eng, c) in hints or cand_key(eng, c, False) in hints}
        r = once(timeout, retry, verbose, cover, slots, width, max(2.0, more), use=use, quick=True)
        if verbose and r.failed: print('   the hints do not suffice:', [d['name'] for d, _ in r.failed])
        if r.failed:
            r = None
    if r is None:
        r = once(timeout, retry, verbose, cover, slots, width, more)
        if r.failed and len(r.failed) <= 8 and time.time() < (deadline or t0 + 200):
            # nothing is reported on the strength of a timeout that a little more time would have avoided
            if verbose: print('   second pass:', [d['name'] for d, _ in r.failed])
            r2 = once(timeout * 2, retry * 1.5, verbose, cover, slots, width, 3.0 * more)
            if len(r2.failed) <= len(r.failed):
                r = r2
    r.queries, r.cpu = total['queries'], total['cpu']
    r.time = time.time() - t0
    return r


def minimal_hints(eng, r, slots=None, width=8):
    """the candidates (keys) that the proofs of a successful run really used"""
    texts = eng.texts
    kept = [c for c in range(len(eng.cands)) if c in r.act]
    lits = [eng.cands[c][0] for c in kept]
    inv = {}
    for o in eng.obls:
        if o.kind == 'inv':
            inv.setdefault(o.cand, []).append(o)

    def cores(obls):
        def f(ch):
            out = set()
            for k in ch:
                o = obls[k]
                got = core(Z3BIN, texts.query(o.pos, lits, o.pc, o.goal, dict(OPT, produce_unsat_cores='true') if False else dict({'produce-unsat-cores': 'true'}, **OPT), core=True), 10)
                out |= set(range(len(kept))) if got is None else set(got)
            return [out]
        res = set()
        for x in parallel(list(range(len(obls))), f, slots, width):
            res |= x
        return res
    need, todo = set(), [o for o in eng.obls if o.kind not in ('inv', 'trivial')]
    while todo:
        new = {kept[k] for k in cores(todo)} - need
        need |= new
        todo = [o for c in new for o in inv.get(c, [])]
    return sorted({cand_key(eng, c) for c in need})


def solve_once(eng, want, timeout, retry, verbose, cover, slots, width, slow, use=None, quick=False):
    res = Result()
    t0 = time.time()
    facts = eng.facts
    if getattr(eng, 'texts', None) is None:
        eng.texts = Texts(facts)
    texts = eng.texts
    obls = sorted(eng.obls, key=lambda o: o.pos)
    inv = [o for o in obls if o.kind == 'inv']
    alive = set(range(len(eng.cands))) if use is None else set(use)
    res.inv_total = len(eng.cands)

    def active():
        # a weaker candidate stands in only after the stronger one was refuted
        return [c for c in sorted(alive) if eng.cands[c][3] is None or eng.cands[c][3] not in alive]
    # ---- Houdini ---------------------------------------------------------
    while alive and inv:
        res.houdini_rounds += 1
        tr = time.time()
        act = set(active())
        jobs = [i for i, o in enumerate(inv) if o.cand in act]
        # obligations of the same loop stay in order; chunks interleave
        lits = {c: eng.cands[c][0] for c in act}

        def round_(ch, act=act, lits=lits):
            a = Asker(facts, texts)
            gone, out = set(), []
            fine = set()
            if bundle:
                k = 0
                while k < len(ch):
                    g = [ch[k]]
                    while k + len(g) < len(ch) and len(g) < GROUP and inv[ch[k + len(g)]].pos == inv[ch[k]].pos and inv[ch[k + len(g)]].pc.eq(inv[ch[k]].pc):
                        g.append(ch[k + len(g)])
                    k += len(g)
                    if len(g) > 1 and a.old(Both([inv[i] for i in g]), [lits[c] for c in sorted(act)], 0.3 * len(g))[0] == z3.unsat:
                        fine |= set(g)
            for i in ch:
                o = inv[i]
                if o.cand in gone or i in fine:
                    continue
                asm = [lits[c] for c in sorted(act) if c not in gone]
                tq = time.time()
                plain = ' is unchanged' in o.name or ' stays ' in o.name
                # parts of the specification and facts about list walks get more steps than guesses about what stays unchanged
                lim = 0.3 * slow if plain else 1.2 * slow
                r, why = a.old(o, asm, lim)
                if verbose > 2: print('   q', r, why, '%.2f' % (time.time() - tq), o.name)
                if r == z3.unknown and gave_up(why) and not plain:
                    r, why = a.old(o, asm, lim, **{'smt.case_split': '3'})
                if r != z3.unsat:
                    gone.add(o.cand)
                    out.append((o.cand, '%s %s %s' % (o.name, o.loc, why), gave_up(why) and not plain))
            return [(out, a.n)]
        bundle = use is not None or res.houdini_rounds > 2
        drop, undecided = {}, {}
        for out, n in parallel(jobs, round_, slots, min(width, 1 + len(jobs) // 6)):
            res.queries += n
            for c, d, soft in out:
                if soft:
                    undecided[c] = d
                else:
                    drop[c] = d
        # what was not decided is asked again once the refuted candidates are gone
        if not drop and undecided and len(undecided) <= 6:
            # few are left: each of them gets more steps and other strategies before it is given up
            def again(ch, act=act, lits=lits):
                a = Asker(facts, texts)
                lost, asm = set(), [lits[c] for c in sorted(act)]
                for i in ch:
                    if inv[i].cand in lost: continue
                    for how in ({}, {'smt.case_split': '0'}, {'smt.random_seed': '7'}, {'smt.case_split': '3', 'smt.random_seed': '3'}):
                        if a.old(inv[i], asm, 4.0 * slow, **how)[0] == z3.unsat:
                            break
                    else:
                        lost.add(inv[i].cand)
                return [(lost, a.n)]
            jobs = [i for i, o in enumerate(inv) if o.cand in undecided]
            lost = set()
            for out, n in parallel(jobs, again, slots, min(width, len(jobs))):
                res.queries += n
                lost |= out
            if verbose > 1: print('   asked again:', len(undecided), 'lost:', len(lost))
            drop = {c: d for c, d in undecided.items() if c in lost}
        elif not drop:
            drop = undecided
        if verbose > 1:
            for c in sorted(drop):
                print('   drop', drop[c])
        if verbose > 1: print('   round %d: %d queries, %d dropped, %.1fs' % (res.houdini_rounds, len(jobs), len(drop), time.time() - tr))
        if not drop:
            break
        alive -= set(drop)
    act = active()
    res.act = set(act)
    res.inv_kept = [(eng.cands[c][1], eng.cands[c][2]) for c in act]
    asm = [eng.cands[c][0] for c in act]
    # ---- obligations -----------------------------------------------------
    todo = []
    for i, o in enumerate(obls):
        if o.kind == 'inv' or not want(o):
            continue
        res.total += 1
        if o.kind == 'trivial':
            res.discharged += 1
            res.trivial += 1
        else:
            todo.append(i)

    def prove(ch):
        a = Asker(facts, texts)
        out, lost = [], 0
        alone = []
        for g in ch:
            # obligations of one program point are asked for together first
            t1 = time.time()
            if len(g) > 1:
                r, why = a.old(Both([obls[i] for i in g]), asm, 0.15 * len(g) + 0.5)
                if r == z3.unsat:
                    out += [(i, 'unsat', '', a.by, (time.time() - t1) / len(g)) for i in g]
                    continue
            alone += g
        for i in alone:
            o = obls[i]
            t1 = time.time()
            r, why = a.old(o, asm, timeout)
            if r == z3.unknown and lost < (1 if quick else 3):
                if not gave_up(why):
                    r, w2 = a.new(o, asm, timeout)
                for k in range((2 if quick else 4) if gave_up(why) else 0):
                    r, w2 = (a.old(o, asm, timeout, **{'smt.case_split': '3'}) if k == 0 else a.old(o, asm, retry, **{'smt.case_split': '0'}) if k == 1 else
                             a.new(o, asm, timeout) if k == 2 else a.old(o, asm, retry, **{'smt.random_seed': str(SEED + 7)}))
                    if r != z3.unknown:
                        break
                lost += r != z3.unsat
            out.append((i, str(r), why, a.by, time.time() - t1))
        return out
    groups = []
    for i in todo:
        g = groups[-1] if groups else None
        if g and len(g) < GROUP and obls[g[0]].loc == obls[i].loc and obls[g[0]].pc.eq(obls[i].pc):
            g.append(i)
        else:
            groups.append([i])
    if verbose: print('   groups', len(groups), 'of', len(todo))
    for i, r, why, by, dt in sorted(parallel(groups, prove, slots, min(width, 1 + len(groups) // 6))):
        o = obls[i]
        res.queries += 1
        res.cpu += dt
        if r == 'unsat':
            res.discharged += 1
            res.backend[by] = res.backend.get(by, 0) + 1
        else:
            res.failed.append((dict(name=o.name, tags=list(o.tags), loc=o.loc, result=r, why=why, time=round(dt, 2)), o))
        if verbose and (r != 'unsat' or dt > 1):
            print('   %s %s [%s] %s %s %.2fs' % ('FAIL' if r != 'unsat' else 'slow', o.name, ','.join(o.tags), o.loc, why, dt))
    # ---- vacuity: the exits must not be refutable --------------------------
    if cover:
        def cov(ch):
            s = mk(1.0)
            for f in facts:
                s.add(f)
            return [(eng.covers[i][0], str(s.check(*(asm + [eng.covers[i][1]])))) for i in ch]
        res.cover = parallel(list(range(len(eng.covers))), cov, slots, 1 + len(eng.covers) // 4)
    res.time = time.time() - t0
    return res
