"""Contracts of poller.c: event sources in two lists, the pollfd table, signals delivered at any time."""
from .base import *
from .daemon import sizeof_type, arg_struct

C18, C19 = ('C18',), ('C19',)
B16 = z3.BitVecSort(16)
FDS = 'poller.fds'
u2i = z3.Function('u2i', BV64, IntS)
i2u = z3.Function('i2u', IntS, BV64)
x_, y_ = bound('x', Ptr), bound('y', Ptr)

GHOSTS = {
    '$rank': A(Ptr, BV64),      # number of live fd sources up to this one
    '$rev': A(Ptr, B16),        # the events the kernel reported for this source
    '$polled': PB,              # the source was in the table of the last poll
    '$run': PI,                 # handler runs of an fd source
    '$owed': PB,                # a signal was delivered and the handler has not been started since
    '$del': PI, '$runs': PI,    # deliveries and handler runs of a signal source
    '$pipe': BoolS,             # the self pipe has unread bytes
    '$disp': A(BV32, Ptr),      # dispositions of signals
    '$nb': FB,                  # non-blocking descriptors
    '$alen64': A(Ptr, BV64),
    '$self': FB, '$npoll': IntS,
}


def fld(name):
    return lambda s, x: Select(s[name], x)


efd, emask, edata, efunc, ekilled, epidx, epoller = [fld('event_source_fd.' + f) for f in ('fd', 'mask', 'data', 'func', 'killed', 'pollfd_idx', 'poller')]
ssig, sdata, sfunc, skilled, sraised, spoller = [fld('event_source_signal.' + f) for f in ('signal', 'data', 'func', 'killed', 'raised', 'poller')]
ptab, plen, pcount, pdirty = [fld('poller.' + f) for f in ('pollfds', 'pollfds_len', 'fd_event_sources', 'dirty')]
rank, rev, polled, run, owed, dele, runs = [fld('$' + f) for f in ('rank', 'rev', 'polled', 'run', 'owed', 'del', 'runs')]
tfd, tevents, trevents = [fld('pollfd.' + f) for f in ('fd', 'events', 'revents')]
SIGF = ['event_source_signal.' + f for f in ('signal', 'data', 'func', 'poller')]
FDF = ['event_source_fd.' + f for f in ('fd', 'data', 'func', 'poller', 'pollfd_idx')]
ENV = ['event_source_signal.raised', '$owed', '$del', '$pipe']


def entry(s, p, i): return Ptr.elt(ptab(s, p), u2i(i))
def sigfd(s, p, k): return Select(s['deref.b32'], Ptr.elt(sub(p, 'poller.signal_fds'), z3.IntVal(k)))
def F(p): return sub(p, FDS)
def G(p): return p


def one(b): return If(b, bv64(1), bv64(0))
def b16(n): return z3.BitVecVal(n, 16)


def want_events(m):
    """the poll events of an event mask"""
    return If(m & 1 != 0, b16(1), b16(0)) | If(m & 4 != 0, b16(4), b16(0))


def got_mask(r):
    """the event mask of reported poll events"""
    def bit(k, v): return If(r & b16(k) != 0, bv32(v), bv32(0))
    return bit(1, 1) | bit(4, 4) | bit(8, 8) | bit(16, 16)


class Reads:
    """records which parts of the state a formula reads"""
    def __init__(self, st, keys):
        self.st, self.keys = st, keys

    def __getitem__(self, k):
        self.keys.add(k)
        return self.st[k]


class PollerSpecs(Specs):
    var_heads = null_walkers = tail_frames = counters = False
    slow = 6.0
    kinds = ['poller', 'event_source_fd', 'event_source_signal']

    def __init__(self, program):
        super().__init__(program)
        self.ghost_sorts.update(GHOSTS)
        self.tu = program.tu_by_rel['seatd/poller.c']
        got = [n for n, d in self.tu.gname.items() if d['type']['qualType'].replace(' ', '') == 'structpoller*']
        if len(got) != 1:
            raise ExtractError('no single global poller')
        d = self.tu.gname[got[0]]
        self.glob = 'glob.' + got[0] if d.get('storageClass') != 'static' else 'glob.seatd/poller.c:' + got[0]
        self.handler = None
        self.opaque, self.opaque_keys = (), {}
        self.seen_u = set()
        register_lists(self)
        register(self)
        self.read_hooks['event_source_signal.raised'] = lambda eng, st, p: self.env(eng, st)
        self.store_hooks['event_source_signal.raised'] = lambda eng, st, p, v: self.env(eng, st)

    def index_fn(self, eng, i, it):
        i = i if i.size() == 64 else (z3.SignExt if it.signed else z3.ZeroExt)(64 - i.size(), i)
        i = z3.simplify(i)
        self.conv(eng, i)
        return u2i(i)

    def conv(self, eng, i):
        pass

    # invariants that a function only passes on: there they are a predicate of the state whose definition is not used
    OPAQUE = {'dispatch': ('live sources are', 'counts are', 'an unchanged poller'), 'poller_poll': ('live sources are counted (f', 'live sources are counted (b', 'live sources are told')}

    def invs(self, l):
        def hide(nm, f):
            keys = {}

            def g(s):
                if not nm.startswith(self.opaque):
                    return f(s)
                if nm not in self.opaque_keys:
                    ks = set()
                    f(Reads(s, ks))
                    self.opaque_keys[nm] = sorted(ks)
                args = [s[k] for k in self.opaque_keys[nm]]
                return z3.Function('inv ' + nm, *[a.sort() for a in args], BoolS)(*args)
            return g
        return [(nm, t, hide(nm, f)) for nm, t, f in l]

    def entry_facts(self, eng, st, args, types):
        super().entry_facts(eng, st, args, types)
        self.opaque, self.opaque_keys = self.OPAQUE.get(eng.frames[0].fdef.name, ()), {}
        v = bound('v', BV64)
        eng.fact(z3.ForAll([v], And(i2u(u2i(v)) == v, u2i(v) >= 0), patterns=[u2i(v)]))
        eng.fact(u2i(bv64(0)) == 0)

    def array_valid(self, eng, st, b, pos, i, it):
        if it is None:
            return None
        i = i if i.size() == 64 else (z3.SignExt if it.signed else z3.ZeroExt)(64 - i.size(), i)
        if z3.is_int_value(pos):
            return And(b != NULL, kind(st, b) == kindno('pollfd[]'), z3.ULT(bv64(pos.as_long()), Select(st['$alen64'], b)))
        if pos.eq(u2i(z3.simplify(i))):
            return And(b != NULL, kind(st, b) == kindno('pollfd[]'), z3.ULT(i, Select(st['$alen64'], b)))
        return FALSE

    def env(self, eng, st):
        """signals delivered here: the handler marks sources raised and writes to the pipe"""
        if st.vars.get('$noenv'):
            return
        o = st.copy()
        for m in ENV:
            eng.nonlocal_writes.add(m)
            st.havoc(m)
        for f in self.env_rel(o, st):
            eng.assume(st, f)

    def env_rel(self, o, n):
        g = o[self.glob]
        x = x_
        same = And(sraised(o, x) == sraised(n, x), owed(o, x) == owed(n, x), dele(o, x) == dele(n, x))
        step = And(Implies(sraised(o, x), sraised(n, x)), Implies(owed(o, x), owed(n, x)), dele(n, x) >= dele(o, x),
                   Implies(And(sraised(n, x), Not(sraised(o, x))), dele(n, x) > dele(o, x)),
                   Implies(And(owed(n, x), Not(owed(o, x))), And(sraised(n, x), n['$pipe'])),
                   Implies(Not(same), And(n['$pipe'], own(o, x) == G(g), g != NULL)))
        return [forall([x], step, [sraised(n, x), owed(n, x), dele(n, x)]), Implies(o['$pipe'], n['$pipe'])]

    def valid_scalar(self, eng, st, p, t):
        return None

    # ------------------------------------------------------------------ loops
    def extra_candidates(self, ctx, heads, ptrs, ints, base):
        out = []
        eng, e0 = ctx.eng, ctx.entry
        mods = set(ctx.modvars)
        p = self.p_term(ctx)
        fn = eng.frames[0].fdef.name
        handlers = self.handlers_run(ctx)
        if '$kind' in ctx.modmaps and not handlers:
            for k in ('event_source_fd', 'event_source_signal'):
                out.append(('no %s is freed' % k, lambda s, k=k: forall([x_], Implies(kind(e0, x_) == kindno(k), kind(s, x_) == kindno(k)), [kind(s, x_)])))
            out.append(('only event sources of the first kind are freed', lambda s: forall([x_], Implies(kind(e0, x_) != kindno('event_source_fd'), kind(s, x_) == kind(e0, x_)), [kind(s, x_)])))
            out.append(('only event sources of the second kind are freed', lambda s: forall([x_], Implies(kind(e0, x_) != kindno('event_source_signal'), kind(s, x_) == kind(e0, x_)), [kind(s, x_)])))
            out.append(('only sources are freed', lambda s: forall([x_], Implies(And(kind(e0, x_) != kindno('event_source_fd'), kind(e0, x_) != kindno('event_source_signal')), kind(s, x_) == kind(e0, x_)), [kind(s, x_)])))
            out.append(('nothing is allocated', lambda s: forall([x_], Implies(kind(s, x_) != 0, kind(s, x_) == kind(e0, x_)), [kind(s, x_)])))
        if p is None:
            return out
        for desc, h in heads:
            if '$own' in ctx.modmaps and not handlers:
                out.append(('%s only shrinks' % desc, lambda s, h=h: forall([x_], Implies(own(s, x_) == h, own(e0, x_) == h), [own(s, x_)])))
                kl = ekilled if not h.eq(G(p)) else skilled
                out.append(('%s keeps the live ones' % desc, lambda s, h=h, kl=kl: forall([x_], Implies(And(own(e0, x_) == h, Not(kl(e0, x_))), own(s, x_) == h), [own(s, x_)], )))
                out.append(('%s keeps the live ones (2)' % desc, lambda s, h=h, kl=kl: forall([x_], Implies(And(own(e0, x_) == h, Not(kl(e0, x_))), own(s, x_) == h), [own(e0, x_)], )))
                out.append(('%s keeps its elements' % desc, lambda s, h=h: forall([x_], Implies(own(e0, x_) == h, own(s, x_) == h), [own(s, x_), own(e0, x_)])))
                out.append(('elements that left %s' % desc, lambda s, h=h: forall([x_], Implies(And(own(e0, x_) == h, own(s, x_) != h), Or(kl(e0, x_), Select(s['$disp'], ssig(e0, x_)) == NULL)), [own(e0, x_), own(s, x_)])))
                out.append(('dispositions of what left %s' % desc, lambda s, h=h: forall([x_], Implies(And(own(e0, x_) == h, own(s, x_) != h), Select(s['$disp'], ssig(e0, x_)) == NULL), [own(e0, x_)])))
                out.append(('nothing else leaves a list but %s' % desc, lambda s, h=h: forall([x_], Implies(own(e0, x_) != h, own(s, x_) == own(e0, x_)), [own(s, x_)])))
        movers = [(key, name) for key, name, rec in ptrs if key in mods and rec in ('linked_list', 'event_source_fd', 'event_source_signal')]
        for key, name in movers:
            def vis(s, x, h, key=key):
                v = s.vars[key]
                return And(own(s, x) == h, Or(v == h, idx(s, x) < idx(s, v)))
            hF, hG = F(p), G(p)
            for key2, iname, t in ints:
                if key2 in mods and t.w == 64:
                    out.append(('%s follows the live sources before %s' % (iname, name), lambda s, key=key, key2=key2: s.vars[key2] == If(
                        s.vars[key] == hF, pcount(s, p), bv64(1) + rank(s, s.vars[key]) - one(Not(ekilled(s, s.vars[key]))))))
            out.append(('sources before %s are in the table' % name, lambda s, vis=vis: forall([x_], Implies(vis(s, x_, hF), And(
                Not(ekilled(s, x_)), epidx(s, x_) == rank(s, x_), tfd(s, entry(s, p, rank(s, x_))) == efd(s, x_),
                tevents(s, entry(s, p, rank(s, x_))) == want_events(emask(s, x_)))), [own(s, x_)])))
            for key2, iname, t in ints:
                if key2 in mods and t.w == 64:
                    out.append(('sources before %s are below %s' % (name, iname), lambda s, vis=vis, key2=key2: forall([x_], Implies(vis(s, x_, hF), z3.ULT(rank(s, x_), s.vars[key2])), [own(s, x_), rank(s, x_)])))
            out.append(('signal sources before %s are live' % name, lambda s, vis=vis: forall([x_], Implies(vis(s, x_, hG), Not(skilled(s, x_))), [own(s, x_)])))
            # signals
            out.append(('handled signals before %s wake the next poll' % name, lambda s, vis=vis: forall([x_], Implies(And(vis(s, x_, hG), sraised(s, x_), Not(skilled(s, x_))), s['$pipe']), [own(s, x_), sraised(s, x_)])))
            if fn in ('poller_poll',) or fn == self.tu_dispatch():
                e = eng.entry
                out.append(('owed signals before %s were handled' % name, lambda s, vis=vis, e=e: forall([x_], Implies(And(vis(s, x_, hG), own(e, x_) == hG, Select(e['$wasowed'], x_), Not(skilled(s, x_))), runs(s, x_) > runs(e, x_)), [runs(s, x_), own(s, x_)])))
                out.append(('sources before %s were handled' % name, lambda s, vis=vis: forall([x_], Implies(And(own(e, x_) == hF, vis(s, x_, hF)), And(
                    run(s, x_) <= run(e, x_) + 1, run(s, x_) >= run(e, x_), Implies(Or(Not(polled(e, x_)), rev(e, x_) == 0), run(s, x_) == run(e, x_)),
                    Implies(And(polled(e, x_), rev(e, x_) != 0, Not(ekilled(s, x_))), run(s, x_) == run(e, x_) + 1))), [run(s, x_), own(s, x_)])))
                out.append(('sources from %s on were not handled' % name, lambda s, vis=vis: forall([x_], Implies(And(own(s, x_) == hF, Not(vis(s, x_, hF))), run(s, x_) == run(e, x_)), [run(s, x_), own(s, x_)])))
                out.append(('others were not handled', lambda s: forall([x_], Implies(own(e, x_) != hF, run(s, x_) == run(e, x_)), [run(s, x_)])))
            # counting in event_source_signal_destroy
            for key2, iname, t in ints:
                if key2 in mods and t.w == 32 and eng.fn_contract.mode == 'entry' and hasattr(eng.fn_contract, 'same_signal'):
                    q, none = eng.fn_contract.same_signal, eng.fn_contract.none_live
                    hp = eng.fn_contract.the_poller
                    def visg(s, x, key=key, hp=hp):
                        v = s.vars[key]
                        return And(own(s, x) == hp, Or(v == hp, idx(s, x) < idx(s, v)))
                    out.append(('%s counts: none seen' % iname, lambda s, key2=key2, visg=visg, q=q: Implies(s.vars[key2] == 0, forall([x_], Implies(visg(s, x_), Not(q(s, x_))), [own(s, x_)]))))
                    out.append(('%s counts: some seen' % iname, lambda s, key2=key2, none=none: Implies(none, s.vars[key2] == 0)))
                    out.append(('%s is not negative' % iname, lambda s, key2=key2: s.vars[key2] >= 0))
                    out.append(('%s is bounded' % iname, lambda s, key2=key2, key=key, hp=hp: z3.ULE(z3.ZeroExt(32, s.vars[key2]), toBV(If(s.vars[key] == hp, llen(s, hp), idx(s, s.vars[key]) - 1)))))
        return out

    def handlers_run(self, ctx):
        return 'poller.fd_event_sources' in ctx.modmaps and 'event_source_signal.killed' in ctx.modmaps

    def frame_guards(self, ctx, m, dom, heads):
        if m.startswith('pollfd.') or self.handlers_run(ctx) and m not in ('$run', '$runs', '$owed', '$del', 'event_source_signal.raised'):
            return []
        out = super().frame_guards(ctx, m, dom, heads)
        return [g for g in out if g[0].startswith('outside')]

    def visit_preds(self, ctx, h, ints):
        out = []
        if self.handler_name() == ctx.eng.frames[0].fdef.name:
            for key, name, ty in ints:
                if ty.w == 32:
                    out.append(('signals equal to %s are marked' % name, lambda s, x, key=key: Implies(ssig(s, x) == s.vars[key], sraised(s, x))))
        return out

    def extra_heads(self, ctx, ptrs):
        mods, out = set(ctx.modvars), []
        p = self.p_term(ctx)
        out += [('the fd sources', F(p)), ('the signal sources', G(p))]
        return out

    def p_term(self, ctx):
        eng = ctx.eng
        for a, t in zip(eng.params, [eng.ctype(q) for q in eng.frames[0].fdef.params]):
            if t.is_ptr and t.to.is_rec and eng.recname(t.to) == 'poller':
                return a
        return eng.entry[self.glob]

    def tu_dispatch(self):
        return 'dispatch'


def handler_rel(S, o, n, p, live=True):
    """what handlers may do to the poller; [(name, formula)]"""
    x = x_
    out = []
    for h, nm, kl in ((F(p), 'fd', ekilled), (G(p), 'signal', skilled)):
        d = llen(n, h) - llen(o, h)
        out.append(('%s sources stay' % nm, forall([x], Implies(own(o, x) == h, And(own(n, x) == h, idx(n, x) == idx(o, x) + d, Implies(kl(o, x), kl(n, x)))), [own(n, x), own(o, x), idx(n, x)])))
        out.append(('%s sources are added in front' % nm, And(d >= 0, forall([x], Implies(And(own(n, x) == h, own(o, x) != h), idx(n, x) <= d), [own(n, x)]))))
    out.append(('fd sources keep what they are', forall([x], Implies(own(o, x) == F(p), And([Select(o[m], x) == Select(n[m], x) for m in FDF] + [polled(n, x) == polled(o, x), rev(n, x) == rev(o, x)])), [own(n, x), own(o, x)])))
    out.append(('new fd sources are not in the table', forall([x], Implies(And(own(n, x) == F(p), own(o, x) != F(p)), And(epidx(n, x) == -1, Not(polled(n, x)))), [own(n, x)])))
    out.append(('signal sources keep what they are', forall([x], Implies(own(o, x) == G(p), And([Select(o[m], x) == Select(n[m], x) for m in SIGF])), [own(n, x), own(o, x)])))
    out.append(('the table is kept', And(ptab(o, p) == ptab(n, p), plen(o, p) == plen(n, p), Select(o['$alen64'], ptab(o, p)) == Select(n['$alen64'], ptab(o, p)), n['pollfd.fd'] == o['pollfd.fd'], n['pollfd.revents'] == o['pollfd.revents'], n['pollfd.events'] == o['pollfd.events'])))
    out.append(('the poller is kept', And(n[S.glob] == o[S.glob], Implies(pdirty(o, p), pdirty(n, p)), sigfd(n, p, 0) == sigfd(o, p, 0), sigfd(n, p, 1) == sigfd(o, p, 1))))
    return out


def signals_rel(o, n, p):
    x = x_
    return [('raised signals', forall([x], Implies(own(o, x) == G(p), And(Implies(sraised(o, x), sraised(n, x)), Implies(owed(o, x), owed(n, x)), dele(n, x) >= dele(o, x),
                                                                       Implies(And(sraised(n, x), Not(sraised(o, x))), And(n['$pipe'], dele(n, x) > dele(o, x))))), [own(n, x), own(o, x), sraised(n, x), owed(n, x), dele(n, x)])),
            ('new signal sources wake', forall([x], Implies(And(own(n, x) == G(p), own(o, x) != G(p), sraised(n, x)), n['$pipe']), [own(n, x)])),
            ('the pipe is not read', Implies(o['$pipe'], n['$pipe']))]


def register(S):
    glob = S.glob

    def live(s, p): return And(p != NULL, kind(s, p) == kindno('poller'))

    # ------------------------------------------------------------------ invariants; P(s) is the poller
    def P(s): return s[glob]

    def K1(s):
        return forall([x_], And(Implies(kind(s, x_) == kindno('event_source_fd'), And(own(s, x_) == F(P(s)), epoller(s, x_) == P(s))),
                                Implies(kind(s, x_) == kindno('event_source_signal'), And(own(s, x_) == G(P(s)), spoller(s, x_) == P(s)))), [kind(s, x_)])

    def K2(s):
        return forall([x_], And(Implies(own(s, x_) == F(P(s)), kind(s, x_) == kindno('event_source_fd')),
                                Implies(own(s, x_) == G(P(s)), kind(s, x_) == kindno('event_source_signal'))), [own(s, x_)])

    def K3(s):
        return And(live(s, P(s)), ishead(s, F(P(s))), ishead(s, G(P(s))))

    def R1(s):
        h = F(P(s))
        return forall([x_], Implies(own(s, x_) == h, And(
            Implies(idx(s, x_) < llen(s, h), rank(s, nxt(s, x_)) == rank(s, x_) + one(Not(ekilled(s, nxt(s, x_))))),
            Implies(idx(s, x_) == llen(s, h), rank(s, x_) == pcount(s, P(s)) - 1))), [(own(s, x_), nxt(s, x_))])

    def R1b(s):
        h = F(P(s))
        return forall([x_], Implies(own(s, x_) == h, rank(s, x_) == one(Not(ekilled(s, x_))) + If(idx(s, x_) == 1, bv64(0), rank(s, prv(s, x_)))), [(own(s, x_), prv(s, x_))])

    def R1c(s):
        h = F(P(s))
        return forall([x_], Implies(And(own(s, x_) == h, idx(s, x_) == 1), rank(s, x_) == one(Not(ekilled(s, x_)))), [(own(s, x_), rank(s, x_))])

    def R2(s):
        h = F(P(s))
        return And(Implies(llen(s, h) == 0, pcount(s, P(s)) == 1), Implies(llen(s, h) != 0, rank(s, prv(s, h)) == pcount(s, P(s)) - 1), z3.UGE(pcount(s, P(s)), bv64(1)))

    def R3(s):
        h = F(P(s))
        return forall([x_, y_], Implies(And(own(s, x_) == h, own(s, y_) == h, idx(s, x_) < idx(s, y_)),
                                        And(z3.ULE(rank(s, x_), rank(s, y_)), Implies(Not(ekilled(s, y_)), z3.ULT(rank(s, x_), rank(s, y_))))), [(rank(s, x_), rank(s, y_))])

    def R4(s):
        h = F(P(s))
        return forall([x_], Implies(own(s, x_) == h, And(z3.ULT(rank(s, x_), pcount(s, P(s))), Implies(Not(ekilled(s, x_)), z3.UGE(rank(s, x_), bv64(1))))), [rank(s, x_)])

    def small(s):
        return z3.ULT(pcount(s, P(s)), bv64(1 << 31))

    def T1(s):
        p = P(s)
        return And(Select(s['$alen64'], ptab(s, p)) == plen(s, p), Or(And(ptab(s, p) == NULL, plen(s, p) == 0), And(Ptr.is_obj(ptab(s, p)), Ptr.oid(ptab(s, p)) > 0, kind(s, ptab(s, p)) == kindno('pollfd[]'))), z3.ULT(plen(s, p), bv64(1 << 31)))

    def T2(s):
        p = P(s)
        return forall([x_], Implies(own(s, x_) == F(p), Or(epidx(s, x_) == -1, And(z3.UGE(epidx(s, x_), bv64(1)), z3.ULT(epidx(s, x_), plen(s, p))))), [own(s, x_)])

    def D1(s):
        p = P(s)
        return Implies(Not(pdirty(s, p)), And(sync0(s), z3.UGE(plen(s, p), pcount(s, p))))

    def D2(s):
        return forall([x_], Implies(And(own(s, x_) == F(P(s)), Not(pdirty(s, P(s)))), synced(s, x_)), [own(s, x_)])

    def sync0(s):
        p = P(s)
        return And(tfd(s, entry(s, p, bv64(0))) == sigfd(s, p, 0), tevents(s, entry(s, p, bv64(0))) == 1)

    def synced(s, x):
        p = P(s)
        e = entry(s, p, rank(s, x))
        return And(Not(ekilled(s, x)), epidx(s, x) == rank(s, x), tfd(s, e) == efd(s, x), tevents(s, e) == want_events(emask(s, x)))

    def S1(s):
        return forall([x_], Implies(And(own(s, x_) == G(P(s)), Not(skilled(s, x_))), Select(s['$disp'], ssig(s, x_)) == S.sig_handler()), [own(s, x_)])

    def S2(s):
        return forall([x_], Implies(And(own(s, x_) == G(P(s)), Not(skilled(s, x_)), owed(s, x_)), sraised(s, x_)), [owed(s, x_)])

    def S3(s):
        return forall([x_], Implies(And(own(s, x_) == G(P(s)), Not(skilled(s, x_)), sraised(s, x_)), s['$pipe']), [sraised(s, x_)])

    def S4(s):
        return forall([x_], Implies(own(s, x_) == G(P(s)), runs(s, x_) + If(sraised(s, x_), 1, 0) <= dele(s, x_)), [runs(s, x_), sraised(s, x_)])

    def N1(s):
        p = P(s)
        return And([And(Select(s['$nb'], sigfd(s, p, k)), Select(s['$self'], sigfd(s, p, k))) for k in (0, 1)])

    BASE = S.LL + [
        ('the poller is set up', T, K3), ('event sources are listed', ('C18', 'C19', 'core'), K1), ('lists hold event sources', ('C15', 'core'), K2)]
    RANKS = S.invs([('live sources are counted (forward)', ('C18', 'C15', 'core'), R1), ('live sources are counted (backward)', ('C18', 'core'), R1b), ('live sources are counted (first)', ('C18', 'core'), R1c),
             ('live sources are counted (all)', ('C18', 'core'), R2), ('live sources are told apart', ('C18', 'core'), R3), ('counts are bounded', ('C18', 'core'), R4)])
    TAB = [('the table is allocated', ('C15', 'C18', 'core'), T1), ('table positions are valid', ('C15', 'C18', 'core'), T2)]
    SYNC = S.invs([('an unchanged poller has its signal pipe in the table', C18 + C19 + ('core',), D1), ('an unchanged poller has every source in the table', C18 + ('core',), D2)])
    SIG = [('live signal sources are installed', C19 + ('core',), S1), ('delivered signals are marked', C19 + ('core',), S2),
           ('handlers run for deliveries only', C19 + ('core',), S4), ('the self pipe never blocks', C19 + ('core',), N1)]
    WAKE = [('delivered signals wake the next poll', C19 + ('core',), S3)]
    HELD = BASE + RANKS + TAB + SYNC + SIG      # what holds whenever a handler runs
    ALL = HELD + WAKE
    S.ALL = ALL
    LIST_M = ['$own', '$idx', '$len', '$ishead', '$at', NEXT, PREV]

    def sig_handler():
        """the function installed for signals"""
        return S.prog_handler
    S.sig_handler = lambda: S._handler_const
    S._handler_const = z3.Const('the_signal_handler', Ptr)

    def the_poller(c, p, invs=None):
        s = c.old
        c.requires('the poller is the one set up', ('C18', 'C19', 'C15', 'core'), And(p == s[glob], p != NULL))
        c.inv(ALL if invs is None else invs)
        c.assuming('fewer than 2^31 event sources', small(s))

    def woken(o, n):
        return '[inv] delivered signals wake the next poll', C19 + ('core',), Implies(S3(o), S3(n))

    def rel(c, p):
        o, n = c.old, c.new
        for nm, f in handler_rel(S, o, n, p) + signals_rel(o, n, p):
            c.ensures('[handlers may do this] ' + nm, ('C18', 'C19', 'core'), f)

    # ------------------------------------------------------------------ memory
    def new_obj(c, k):
        st = c.st
        o = fresh('new_' + k, Ptr)
        c.eng.assume(st, And(Ptr.is_obj(o), Ptr.oid(o) > 0, kind(st, o) == 0, o != NULL))
        c.eng.assume(st, Select(c.eng.initial_map('$kind'), o) == 0)
        return o

    @S.contract('calloc')
    def calloc(c):
        eng, st = c.eng, c.st
        t = sizeof_type(c.call, eng, c.call.argnodes[1])
        if t is None or not t.is_rec:
            raise ExtractError('calloc of unknown type')
        k = eng.recname(t)
        c.modifies('$errno')
        c.post()
        ok = fresh('alloc_ok', BoolS)
        o = new_obj(c, k)
        eng.alloc_objs.append(o)
        st['$kind'] = If(ok, Store(st['$kind'], o, kindno(k)), st['$kind'])
        eng.nonlocal_writes.add('$kind')
        for lv in eng.leaves(o, t):
            m, a = (lv[1], lv[2]) if lv[0] == 'fld' else (eng.mapkey(lv[2]), lv[1])
            eng.note_alloc(m, a)
            st[m] = If(ok, Store(st[m], a, eng.default(lv[-1])), st[m])
        r = fresh('calloc', Ptr)
        eng.assume(st, r == If(ok, o, NULL))
        # a new signal source: nothing was delivered to it
        if k == 'event_source_signal':
            for m, v in (('$owed', FALSE), ('$runs', z3.IntVal(0)), ('$del', z3.IntVal(0))):
                eng.note_alloc(m, o)
                st[m] = Store(st[m], o, v)
        if k == 'event_source_fd':
            eng.note_alloc('$polled', o)
            st['$polled'] = Store(st['$polled'], o, FALSE)
        return r

    @S.contract('free')
    def free(c):
        p, = c.args
        eng, st = c.eng, c.st
        t = arg_struct(c.call, 0)
        t = t.to if t.is_ptr else t
        k = eng.recname(t) if t.is_rec else 'char'
        if k in S.kinds:
            c.requires('freed memory is a live %s' % k, ('C15', 'core'), Or(p == NULL, kind(st, p) == kindno(k)))
            c.requires('freed memory is not part of a list', ('C15', 'core'), Or(p == NULL, And(own(st, p) == NULL, Not(ishead(st, p)))))
        elif k == 'pollfd':
            c.requires('freed memory is a live table', ('C15', 'core'), Or(p == NULL, kind(st, p) == kindno('pollfd[]')))
        else:
            raise ExtractError('free of %s' % k)
        c.modifies_at('$kind', p)
        c.post()
        eng.assume(st, kind(st, p) == If(p == NULL, kind(c.old, p), z3.IntVal(0)))
        return bv32(0)

    @S.contract('realloc')
    def realloc(c):
        p, n = c.args
        eng, st = c.eng, c.st
        c.requires('the table is live', ('C15', 'core'), Or(p == NULL, kind(st, p) == kindno('pollfd[]')))
        c.requires('the size is not zero', ('C15',), n != 0)
        c.modifies('$errno')
        c.post()
        o = c.old
        ok = fresh('alloc_ok', BoolS)
        q = new_obj(c, 'pollfd[]')
        eng.alloc_objs.append(q)
        tt = eng.frames[-1].fdef.tu.types
        sz = tt.sizeof(tt.parse('struct pollfd'))
        cnt = fresh('cnt', BV64)
        # the number of whole elements that fit
        eng.assume(st, And(z3.ULE(cnt * sz, n), z3.ULT(cnt, bv64(1 << 60)), z3.ULT(n - cnt * sz, bv64(sz))))
        eng.nonlocal_writes.update(('$kind', '$alen64'))
        st['$kind'] = If(ok, Store(If(p == NULL, o['$kind'], Store(o['$kind'], p, z3.IntVal(0))), q, kindno('pollfd[]')), o['$kind'])
        st['$alen64'] = If(ok, Store(o['$alen64'], q, cnt), o['$alen64'])
        eng.touch('$kind'), eng.touch('$alen64')
        r = fresh('realloc', Ptr)
        eng.assume(st, r == If(ok, q, NULL))
        return r

    # ------------------------------------------------------------------ libc
    @S.contract('pipe')
    def pipe(c):
        a, = c.args
        eng = c.eng
        if z3.is_app(a) and a.decl().eq(Ptr.elt):
            a = a.arg(0)
        k0, k1 = Ptr.elt(a, z3.IntVal(0)), Ptr.elt(a, z3.IntVal(1))
        c.modifies('$errno')
        c.modifies_at('deref.b32', k0, k1)
        c.post()
        o, n = c.old, c.new
        v0, v1 = Select(n['deref.b32'], k0), Select(n['deref.b32'], k1)
        c.ensures('', T, Or(c.ret == 0, c.ret == -1))
        c.set('$pipe', If(c.ret == 0, FALSE, o['$pipe']))
        c.set('$self', If(c.ret == 0, Store(Store(o['$self'], v0, TRUE), v1, TRUE), o['$self']))
        c.set('$nb', If(c.ret == 0, Store(Store(o['$nb'], v0, FALSE), v1, FALSE), o['$nb']))
        c.ensures('', T, And(v0 >= 0, v1 >= 0, v0 != v1))

    @S.contract('fcntl')
    def fcntl(c):
        fd, cmd = c.args[0], c.args[1]
        c.modifies('$errno')
        c.post()
        o = c.old
        if len(c.args) > 2:
            v = c.args[2]
            v = v if v.size() == 32 else z3.Extract(31, 0, v)
            ok = And(c.ret != -1, cmd == 4)
            c.set('$nb', If(ok, Store(o['$nb'], fd, v & 0o4000 != 0), o['$nb']))

    @S.contract('close')
    def close(c):
        fd, = c.args
        c.modifies('$errno')
        c.post()
        c.ensures('', T, TRUE)

    @S.contract('sigemptyset', 'sigfillset')
    def sigemptyset(c):
        c.post()
        return bv32(0)

    def sa_field(c, a, name):
        t = arg_struct(c.call, 1)
        t = t.to if t.is_ptr else t
        for lv in c.eng.leaves(a, t):
            if lv[0] == 'fld' and lv[1].endswith('.' + name):
                return Select(c.st[lv[1]], lv[2])
        raise ExtractError('no field %s' % name)

    @S.contract('sigaction')
    def sigaction(c):
        sig, a, old = c.args
        h = sa_field(c, a, 'sa_handler')
        fl = sa_field(c, a, 'sa_flags')
        s = c.old
        p = s[glob]
        c.requires('the handler stays installed', C19, fl & 0x80000000 == 0)
        c.requires('only the signal handler or the default is installed', C19, Or(h == NULL, h == S._handler_const) if S.role(c, h) else FALSE)
        c.post()
        c.set('$disp', Store(c.old['$disp'], sig, h))
        return bv32(0)

    def role(c, h):
        """the installed function must be the one under contract as the signal handler"""
        c.eng.fact(S._handler_const == c.eng.fnptr(S.handler_name()))
        return True
    S.role = role

    def handler_name():
        for n, d in S.tu.funcs.items():
            if S.is_handler(n):
                return n
        return 'signal_handler'
    S.handler_name = handler_name

    def is_handler(name):
        """assigned to sa_handler somewhere"""
        if not hasattr(S, '_hn'):
            S._hn = set()

            def walk(x):
                if x.get('kind') == 'BinaryOperator' and x.get('opcode') == '=':
                    l, r = x['inner']
                    if l.get('kind') == 'MemberExpr' and l.get('name') == 'sa_handler':
                        def find(y):
                            if y.get('kind') == 'DeclRefExpr' and y['referencedDecl']['kind'] == 'FunctionDecl':
                                S._hn.add(y['referencedDecl']['name'])
                            for z in y.get('inner', []) or []:
                                find(z)
                        find(r)
                if x.get('kind') == 'InitListExpr' or x.get('kind') == 'DesignatedInitExpr':
                    for y in x.get('inner', []) or []:
                        z = y
                        while z.get('kind') in ('ImplicitCastExpr', 'UnaryOperator', 'InitListExpr', 'ParenExpr') and z.get('inner'):
                            z = z['inner'][0]
                        if z.get('kind') == 'DeclRefExpr' and z['referencedDecl']['kind'] == 'FunctionDecl' and 'sigaction' in x.get('type', {}).get('qualType', '') + '':
                            S._hn.add(z['referencedDecl']['name'])
                for y in x.get('inner', []) or []:
                    if isinstance(y, dict):
                        walk(y)
            for f in S.tu.funcs.values():
                walk(f.body)
        return name in S._hn
    S.is_handler = is_handler

    @S.contract('write')
    def write(c):
        fd, buf, n = c.args
        s = c.old
        p = s[glob]
        c.requires('a signal is announced on the self pipe', C19, And(fd == sigfd(s, p, 1), n == 1))
        c.requires('announcing a signal does not block', C19, Select(s['$nb'], fd))
        c.modifies('$errno')
        c.post()
        c.set('$pipe', TRUE)

    @S.contract('read')
    def read(c):
        fd, buf, n = c.args
        s = c.old
        p = s[glob]
        c.requires('the self pipe is read without blocking', C19, And(fd == sigfd(s, p, 0), Select(s['$nb'], fd)))
        c.modifies('$errno')
        S.env(c.eng, c.st)
        c.old = c.st
        c.post()
        o = c.old
        left = fresh('left', BoolS)
        c.ensures('', T, Or(c.ret == -1, And(c.ret >= 0, c.ret <= n)))
        c.set('$pipe', If(c.ret == -1, FALSE, And(left, o['$pipe'])))
        c.eng.assume(c.st, Implies(Not(o['$pipe']), c.ret == -1))

    @S.contract('poll')
    def poll(c):
        tab, cnt, timeout = c.args
        S.env(c.eng, c.st)
        s = c.old = c.st
        p = s[glob]
        c.requires('the table of the poller is polled', C18 + ('C15',), And(tab == ptab(s, p), z3.ULE(cnt, Select(s['$alen64'], tab)), kind(s, tab) == kindno('pollfd[]')))
        c.requires('the signal pipe is polled', C19 + ('core',), And(sync0(s), z3.UGE(cnt, bv64(1))))
        c.requires('every live source is polled, with its descriptor and mask', C18 + ('core',), And(cnt == pcount(s, p), forall([x_], Implies(And(own(s, x_) == F(p), Not(ekilled(s, x_))), And(
            synced(s, x_), z3.ULT(rank(s, x_), cnt), z3.UGE(rank(s, x_), bv64(1)))), [own(s, x_)])))
        c.requires('no removed source is polled', C18, forall([x_], Implies(own(s, x_) == F(p), Not(ekilled(s, x_))), [own(s, x_)]))
        c.modifies('$errno', '$rev', '$polled', 'pollfd.revents')
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('', T, r >= -1)
        c.ensures('', T, Implies(r == -1, And(n['$rev'] == o['$rev'], n['$polled'] == o['$polled'], n['pollfd.revents'] == o['pollfd.revents'])))
        c.ensures('', T, Implies(r != -1, And(
            forall([x_], polled(n, x_) == And(own(o, x_) == F(p), Not(ekilled(o, x_))), [polled(n, x_)]),
            forall([x_], Implies(And(own(o, x_) == F(p), Not(ekilled(o, x_))), rev(n, x_) == trevents(n, entry(o, p, rank(o, x_)))), [rev(n, x_), own(o, x_)]),
            (trevents(n, entry(o, p, bv64(0))) & 1 != 0) == o['$pipe'])))
        c.set('$npoll', If(r == -1, o['$npoll'], o['$npoll'] + 1))

    # ------------------------------------------------------------------ handlers
    HMOD = ['$errno', '$disp', '$kind', '$rank', '$nb', 'poller.dirty', 'poller.fd_event_sources', 'event_source_fd.mask', 'event_source_fd.killed', 'event_source_signal.killed', '$owed', '$del', '$pipe',
            'event_source_signal.raised', '$polled', '$runs', '$rev'] + LIST_M + SIGF + FDF

    def handler_effect(c, p):
        """anything a handler may do: calls of the functions that add, change and remove sources"""
        o, n = c.old, c.new
        for nm, _, f in HELD:
            c.ensures('', T, f(n))
        for nm, f in handler_rel(S, o, n, p) + signals_rel(o, n, p):
            c.ensures('', T, f)
        # sources are freed by the poller itself only
        c.ensures('', T, forall([x_], Implies(And(kind(o, x_) != 0), kind(n, x_) == kind(o, x_)), [kind(n, x_)]))
        c.ensures('', T, small(n))

    @S.indirect('event_source_fd.func')
    def fd_handler(c):
        fd, mask, data = c.args
        x = c.call.fnobj
        s = c.old
        p = s[glob]
        c.requires('the source of the handler is registered', C18, own(s, x) == F(p))
        c.requires('no handler of a removed source is called', C18, Not(ekilled(s, x)))
        c.requires('the handler gets its own descriptor and data', C18, And(fd == efd(s, x), data == edata(s, x)))
        c.requires('the handler gets precisely the events reported', C18, And(polled(s, x), rev(s, x) != 0, mask == got_mask(rev(s, x))))
        c.modifies('$run', *HMOD)
        c.post()
        o, n = c.old, c.new
        handler_effect(c, p)
        c.ensures('', T, n['$run'] == Store(o['$run'], x, run(o, x) + 1))
        c.ensures('', T, forall([x_], Implies(own(o, x_) == G(p), runs(n, x_) == runs(o, x_)), [runs(n, x_)]))

    @S.indirect('event_source_signal.func')
    def sig_handler_call(c):
        sig, data = c.args
        x = c.call.fnobj
        s = c.old
        p = s[glob]
        c.requires('the signal source of the handler is registered', C19, own(s, x) == G(p))
        c.requires('no handler of a removed signal source is called', C19, Not(skilled(s, x)))
        c.requires('the handler gets its own signal and data', C19, And(sig == ssig(s, x), data == sdata(s, x)))
        c.requires('the signal was delivered', C19, runs(s, x) < dele(s, x))
        c.requires('a signal that arrives during the handler is noticed', C19, Or(Not(sraised(s, x)), s['$pipe']))
        c.modifies(*HMOD)
        c.st['$owed'] = Store(c.st['$owed'], x, FALSE)
        c.st['$runs'] = Store(c.st['$runs'], x, runs(c.st, x) + 1)
        c.eng.nonlocal_writes.update(('$owed', '$runs'))
        c.eng.touch('$owed'), c.eng.touch('$runs')
        c.post()
        o, n = c.old, c.new
        handler_effect(c, p)
        c.ensures('', T, forall([x_], Implies(own(o, x_) == G(p), runs(n, x_) == runs(o, x_)), [runs(n, x_)]))

    # ------------------------------------------------------------------ poller.c
    @S.contract('poller_init')
    def poller_init(c):
        p, = c.args
        s = c.old
        c.requires('no poller is set up', ('C15', 'core'), s[glob] == NULL)
        c.requires('the poller is memory', ('C15', 'core'), And(live(s, p), own(s, F(p)) == NULL, own(s, G(p)) == NULL, Implies(ishead(s, F(p)), llen(s, F(p)) == 0), Implies(ishead(s, G(p)), llen(s, G(p)) == 0)))
        c.inv(S.LL)
        c.requires('there are no event sources', ('core',), forall([x_], And(kind(s, x_) != kindno('event_source_fd'), kind(s, x_) != kindno('event_source_signal')), [kind(s, x_)]))
        c.requires('no table', ('core',), Select(s['$alen64'], NULL) == 0)
        c.modifies('$errno', '$pipe', '$nb', '$self', glob, 'deref.b32', '$ishead', '$len', NEXT, PREV)
        c.modifies_at('poller.pollfds', p)
        c.modifies_at('poller.pollfds_len', p)
        c.modifies_at('poller.dirty', p)
        c.modifies_at('poller.fd_event_sources', p)
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('zero or -1', C18, Or(r == 0, r == -1))
        for nm, tags, f in ALL:
            c.ensures('[inv] ' + nm, tags, Implies(r == 0, f(n)))
        c.ensures('the poller is in use', C18 + C19 + ('core',), Implies(r == 0, n[glob] == p))
        c.ensures('the first poll looks at all sources', C18 + ('core',), Implies(r == 0, pdirty(n, p)))

    @S.contract('poller_finish')
    def poller_finish(c):
        p, = c.args
        the_poller(c, p, BASE)
        c.requires('the table is allocated', ('C15', 'core'), T1(c.old))
        s = c.old
        c.modifies('$errno', '$disp', '$kind', glob, *LIST_M)
        c.loop_inv('the poller stays', lambda o, n: And(n[glob] == o[glob], kind(n, p) == kind(o, p)))
        c.loop_inv('removed signals are restored', lambda o, n: forall([x_], Implies(And(own(o, x_) == G(p), own(n, x_) != G(p)), Select(n['$disp'], ssig(o, x_)) == NULL), [own(n, x_)]))
        c.loop_inv('restored signals stay restored', lambda o, n: forall([f_], Or(Select(n['$disp'], f_) == NULL, Select(n['$disp'], f_) == Select(o['$disp'], f_)), [Select(n['$disp'], f_)]))
        c.loop_inv('the table is live', lambda o, n: kind(n, ptab(o, p)) == kind(o, ptab(o, p)))
        c.post()
        o, n = c.old, c.new
        c.ensures('no poller is in use', C19 + ('core',), n[glob] == NULL)
        c.ensures('every event source is freed', C18 + ('C15', 'core'), forall([x_], And(kind(n, x_) != kindno('event_source_fd'), kind(n, x_) != kindno('event_source_signal')), [kind(n, x_)]))
        c.ensures('the signals have their default action again', C19, forall([x_], Implies(own(o, x_) == G(p), Select(n['$disp'], ssig(o, x_)) == NULL), [own(o, x_)]))
        c.ensures('the table is freed', ('C15',), Implies(ptab(o, p) != NULL, kind(n, ptab(o, p)) == 0))

    def source_frame(c, o, n, r):
        pass

    @S.contract('poller_add_fd')
    def add_fd(c):
        p, fd, m, fn, data = c.args
        the_poller(c, p, HELD)
        s = c.old
        c.modifies('$errno', '$kind', '$polled', '$rank', *LIST_M)
        c.modifies('$owed', '$del', '$runs') if False else None
        c.modifies_at('poller.fd_event_sources', p)
        c.modifies_at('poller.dirty', p)
        for f in FDF + ['event_source_fd.mask', 'event_source_fd.killed', 'event_source_fd.impl']:
            c.modifies(f)
        c.loop_inv('delivered signals wake the next poll as before', lambda o, n: woken(o, n)[2])
        c.post()
        o, n, r = c.old, c.new, c.ret
        h = F(p)
        ok = r != NULL
        # ghost: the ranks of the sources behind it grow
        if c.mode == 'exit':
            c.define('$rank', lambda new: [forall([n_], Select(new, n_) == If(And(ok, n_ == r), bv64(1), If(And(ok, own(o, n_) == h), rank(o, n_) + 1, rank(o, n_))), [Select(new, n_)])])
        c.ensures('a new source or none', C18 + ('core',), Implies(ok, And(kind(o, r) == 0, kind(n, r) == kindno('event_source_fd'), own(n, r) == h, own(o, r) == NULL)))
        c.ensures('the source has its own descriptor, mask, handler and data', C18 + ('core',), Implies(ok, And(efd(n, r) == fd, emask(n, r) == m, efunc(n, r) == fn, edata(n, r) == data, Not(ekilled(n, r)))))
        c.ensures('other sources are kept', C18 + ('core',), forall([x_], Implies(Or(x_ != r, Not(ok)), And(kind(n, x_) == kind(o, x_), own(n, x_) == own(o, x_), emask(n, x_) == emask(o, x_), ekilled(n, x_) == ekilled(o, x_), *[Select(n[m_], x_) == Select(o[m_], x_) for m_ in FDF])), [kind(n, x_), own(n, x_), ekilled(n, x_), emask(n, x_)]))
        c.ensures('it takes effect at the next poll', C18 + ('core',), Implies(ok, pdirty(n, p)))
        c.inv_post(HELD)
        c.ensures(*woken(o, n))
        rel(c, p)

    @S.contract('event_source_fd_destroy')
    def fd_destroy(c):
        e, = c.args
        s = c.old
        c.requires('the poller is set up', ('core',), s[glob] != NULL)
        c.inv(HELD)
        c.requires('the source is live', ('C15', 'C18', 'core'), And(kind(s, e) == kindno('event_source_fd'), Not(ekilled(s, e))))
        p = s[glob]
        c.modifies('$rank')
        c.modifies_at('poller.fd_event_sources', p)
        c.modifies_at('poller.dirty', p)
        c.modifies_at('event_source_fd.killed', e)
        c.loop_inv('delivered signals wake the next poll as before', lambda o, n: woken(o, n)[2])
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.define('$rank', lambda new: [forall([n_], Select(new, n_) == If(And(own(o, n_) == F(p), idx(o, n_) >= idx(o, e)), rank(o, n_) - 1, rank(o, n_)), [Select(new, n_)])])
        c.ensures('the source is removed', C18 + ('core',), ekilled(n, e))
        c.ensures('it takes effect at the next poll', C18 + ('core',), pdirty(n, p))
        c.inv_post(HELD)
        c.ensures(*woken(o, n))
        rel(c, p)

    @S.contract('event_source_fd_update')
    def fd_update(c):
        e, m = c.args
        s = c.old
        c.requires('the poller is set up', ('core',), s[glob] != NULL)
        c.inv(HELD)
        c.requires('the source is live', ('C15', 'C18', 'core'), kind(s, e) == kindno('event_source_fd'))
        p = s[glob]
        c.modifies_at('poller.dirty', p)
        c.modifies_at('event_source_fd.mask', e)
        c.loop_inv('delivered signals wake the next poll as before', lambda o, n: woken(o, n)[2])
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('the mask is changed', C18 + ('core',), emask(n, e) == m)
        c.ensures('it takes effect at the next poll', C18 + ('core',), Or(pdirty(n, p), emask(o, e) == m))
        c.inv_post(HELD)
        c.ensures(*woken(o, n))
        rel(c, p)

    @S.contract('poller_add_signal')
    def add_signal(c):
        p, sig, fn, data = c.args
        the_poller(c, p, HELD)
        s = c.old
        c.modifies('$errno', '$kind', '$disp', '$owed', '$del', '$runs', *LIST_M)
        for f in SIGF + ['event_source_signal.killed', 'event_source_signal.raised', 'event_source_signal.impl']:
            c.modifies(f)
        c.modifies('$pipe')
        c.loop_inv('delivered signals wake the next poll as before', lambda o, n: woken(o, n)[2])
        c.post()
        o, n, r = c.old, c.new, c.ret
        ok = r != NULL
        c.ensures('a new signal source or none', C19 + ('core',), Implies(ok, And(kind(o, r) == 0, kind(n, r) == kindno('event_source_signal'), own(n, r) == G(p), own(o, r) == NULL)))
        c.ensures('the signal source has its own signal, handler and data', C19 + ('core',), Implies(ok, And(ssig(n, r) == sig, sfunc(n, r) == fn, sdata(n, r) == data, Not(skilled(n, r)))))
        c.ensures('the signal is caught', C19 + ('core',), Implies(ok, Select(n['$disp'], sig) == S._handler_const))
        c.ensures('other signals are as before', C19 + ('core',), forall([f_], Implies(f_ != sig, Select(n['$disp'], f_) == Select(o['$disp'], f_)), [Select(n['$disp'], f_)]))
        c.inv_post(HELD)
        c.ensures(*woken(o, n))
        rel(c, p)

    @S.contract('event_source_signal_destroy')
    def signal_destroy(c):
        e, = c.args
        s = c.old
        c.requires('the poller is set up', ('core',), s[glob] != NULL)
        c.inv(HELD)
        c.requires('the source is live', ('C15', 'C19', 'core'), And(kind(s, e) == kindno('event_source_signal'), Not(skilled(s, e))))
        p = s[glob]

        def q(st, x): return And(own(s, x) == G(p), x != e, Not(skilled(s, x)), ssig(s, x) == ssig(s, e))
        if c.mode == 'entry':
            none = fresh('none_live', BoolS)
            c.eng.fact(none == forall([x_], Not(q(s, x_)), [own(s, x_)]))
            c.same_signal, c.none_live, c.the_poller = q, none, G(p)
            S._none = none
            c.eng.assumptions.add('fewer than 2^31 signal sources')
            i = bound('i', IntS)
            c.eng.fact(And(toBV(z3.IntVal(0)) == 0))
            c.eng.fact(forall([i], Implies(And(i >= 0, i < llen(s, G(p))), And(toBV(i + 1) == toBV(i) + 1, z3.ULT(toBV(i), bv64((1 << 31) - 2)))), [toBV(i)]))
            i2 = bound('i', Ptr)
            c.eng.fact(forall([i2], Implies(own(s, i2) == G(p), And(toBV(idx(s, i2)) == toBV(idx(s, i2) - 1) + 1, z3.ULT(toBV(idx(s, i2)), bv64((1 << 31) - 2)))), [idx(s, i2)]))
        c.modifies('$disp')
        c.modifies_at('poller.dirty', p)
        c.modifies_at('event_source_signal.killed', e)
        c.loop_inv('delivered signals wake the next poll as before', lambda o, n: woken(o, n)[2])
        c.post()
        o, n = c.old, c.new
        sg = ssig(o, e)
        if c.mode == 'exit':
            none = S._none
        else:
            none = forall([x_], Not(q(o, x_)), [own(o, x_)])
        c.ensures('the source is removed', C19 + ('core',), skilled(n, e))
        c.ensures('the last registration restores the default action', C19 + ('core',), Implies(none, Select(n['$disp'], sg) == NULL))
        c.ensures('one of several leaves the signal caught', C19 + ('core',), Implies(Not(none), Select(n['$disp'], sg) == Select(o['$disp'], sg)))
        c.ensures('other signals are as before', C19 + ('core',), forall([f_], Implies(f_ != sg, Select(n['$disp'], f_) == Select(o['$disp'], f_)), [Select(n['$disp'], f_)]))
        c.inv_post(HELD)
        c.ensures(*woken(o, n))
        rel(c, p)

    # ------------------------------------------------------------------ the signal handler itself
    hn = S.handler_name()

    @S.contract(hn, rel='seatd/poller.c', sig=['int'])
    def the_handler(c):
        sig, = c.args
        s = c.old
        p = s[glob]
        if c.mode == 'entry':
            c.st.vars['$noenv'] = TRUE
            c.eng.specs.read_hooks = {}
            c.eng.specs.store_hooks = {}
        c.inv([(nm, t, lambda st, f=f: Implies(st[glob] != NULL, f(st))) for nm, t, f in BASE + SIG])
        c.modifies('event_source_signal.raised', '$pipe', '$errno')
        c.keeps('sources of other signals are not marked', C19, lambda o, n: forall([x_], Implies(Or(own(o, x_) != G(p), p == NULL, ssig(o, x_) != sig), sraised(n, x_) == sraised(o, x_)), [sraised(n, x_)]))
        c.keeps('no mark is lost', C19, lambda o, n: forall([x_], Implies(sraised(o, x_), sraised(n, x_)), [sraised(n, x_)]))
        c.post()
        o, n = c.old, c.new
        c.ensure_kept()
        c.ensures('every source of the signal is marked', C19, forall([x_], Implies(And(p != NULL, own(o, x_) == G(p), ssig(o, x_) == sig), sraised(n, x_)), [own(o, x_)]))
        c.ensures('the poll is woken', C19, Implies(p != NULL, n['$pipe']))
        c.ensures('the interrupted code keeps its errno', C19, n['$errno'] == o['$errno'])
        c.ensures('without a poller nothing happens', C19, Implies(p == NULL, n['$pipe'] == o['$pipe']))

    # ------------------------------------------------------------------ poll
    RM = ['$kind', '$alen64', 'poller.pollfds', 'poller.pollfds_len', 'pollfd.fd', 'pollfd.events', 'pollfd.revents', 'event_source_fd.pollfd_idx', '$errno'] + LIST_M

    def synced_all(n, p):
        return And(sync0(n), z3.UGE(plen(n, p), pcount(n, p)), forall([x_], Implies(own(n, x_) == F(p), synced(n, x_)), [own(n, x_)]))

    @S.contract('regenerate', rel='seatd/poller.c', sig=['struct poller*'])
    def regenerate(c):
        p, = c.args
        the_poller(c, p, BASE + RANKS + TAB + SIG + WAKE)
        s = c.old
        c.requires('the poller has changed', T, pdirty(s, p))
        c.modifies(*RM)
        regen_keeps(c, p)
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('zero or -1', C18 + ('core',), Or(r == 0, r == -1))
        for nm, f in handler_kept(o, n, p):
            c.ensures(nm, C18 + C19 + ('core',), f)
        c.inv_post(BASE + RANKS + TAB + SIG + WAKE)
        c.ensures('every live source and the signal pipe are in the table', C18 + C19 + ('core',), Implies(r == 0, synced_all(n, p)))
        c.ensures('a failure keeps the sources', C18 + C19 + ('core',), Implies(r == -1, And(n['$own'] == o['$own'])))

    def regen_keeps(c, p):
        c.loop_inv('the poller stays', lambda o, n: And(n[glob] == o[glob], kind(n, p) == kind(o, p)))
        c.loop_inv('the signal pipe is in the table', lambda o, n: sync0(n))
        c.loop_inv('the table is large enough', lambda o, n: z3.UGE(plen(n, p), pcount(n, p)))
        c.loop_inv('all sources are in the table', lambda o, n: synced_all(n, p))

    def handler_kept(o, n, p):
        return [('live fd sources stay', forall([x_], Implies(And(own(o, x_) == F(p), Not(ekilled(o, x_))), own(n, x_) == F(p)), [own(n, x_), own(o, x_)])),
                ('no fd source appears', forall([x_], Implies(own(n, x_) == F(p), own(o, x_) == F(p)), [own(n, x_)])),
                ('live signal sources stay', forall([x_], Implies(And(own(o, x_) == G(p), Not(skilled(o, x_))), own(n, x_) == G(p)), [own(n, x_), own(o, x_)])),
                ('no signal source appears', forall([x_], Implies(own(n, x_) == G(p), own(o, x_) == G(p)), [own(n, x_)]))]

    def disp_ready(s, p):
        """the state after a poll"""
        return [('polled sources', forall([x_], Implies(own(s, x_) == F(p), And(Implies(polled(s, x_), And(epidx(s, x_) != -1, tfd(s, entry(s, p, epidx(s, x_))) == efd(s, x_), rev(s, x_) == trevents(s, entry(s, p, epidx(s, x_))))),
                                                                            Implies(Not(polled(s, x_)), epidx(s, x_) == -1))), [own(s, x_)])),
                ('the table has the signal pipe', z3.UGE(plen(s, p), bv64(1)))]

    DISP = [(nm, T, (lambda k: lambda s: disp_ready(s, s[glob])[k][1])(k)) for k, (nm, _) in enumerate([('polled sources are in the table', 0), ('the table has the signal pipe', 0)])]

    def outcome(c, p, o, n):
        """what one round of handlers did"""
        out = [
            ('every live source with events is handled exactly once', C18, forall([x_], Implies(And(own(o, x_) == F(p), own(n, x_) == F(p), polled(n, x_), rev(n, x_) != 0, Not(ekilled(n, x_))), run(n, x_) == run(o, x_) + 1), [own(o, x_)])),
            ('no source is handled twice', C18, forall([x_], And(run(n, x_) <= run(o, x_) + 1, run(n, x_) >= run(o, x_)), [run(n, x_)])),
            ('no source without events is handled', C18, forall([x_], Implies(And(own(o, x_) == F(p), own(n, x_) == F(p), Or(Not(polled(n, x_)), rev(n, x_) == 0)), run(n, x_) == run(o, x_)), [run(n, x_)])),
            ('no source that is not registered is handled', C18, forall([x_], Implies(own(o, x_) != F(p), run(n, x_) == run(o, x_)), [run(n, x_)])),
        ]
        return out

    @S.contract('dispatch', rel='seatd/poller.c', sig=['struct poller*'])
    def dispatch(c):
        p, = c.args
        s = c.old
        c.requires('the poller is the one set up', ('C18', 'C19', 'C15', 'core'), And(p == s[glob], p != NULL))
        c.inv(HELD + DISP)
        c.requires('delivered signals were announced', T, Or(S3(s)))
        was = lambda x: Select(s['$wasowed'], x)
        c.requires('what was owed before the poll is still owed', T, forall([x_], Implies(And(own(s, x_) == G(p), was(x_), Not(skilled(s, x_))), owed(s, x_)), [was(x_)]))
        c.requires('what was owed before the poll made the pipe readable', T, forall([x_], Implies(And(own(s, x_) == G(p), was(x_), Not(skilled(s, x_))), trevents(s, entry(s, p, bv64(0))) & 1 != 0), [was(x_)]))
        c.modifies('$run', *HMOD)
        c.loop_inv('wakes', lambda o, n: S3(n))
        for k in range(len(handler_rel(S, c.old, c.old, p))):
            c.loop_inv(handler_rel(S, c.old, c.old, p)[k][0], lambda o, n, k=k: handler_rel(S, o, n, p)[k][1])
        c.loop_inv('runs only grow', lambda o, n: forall([x_], Implies(own(o, x_) == G(p), runs(n, x_) >= runs(o, x_)), [runs(n, x_)]))
        c.loop_inv('owed signals were handled', lambda o, n: handled(o, n, p))
        c.loop_inv('owed means not handled yet', lambda o, n: forall([x_], Implies(And(own(o, x_) == G(p), Select(o['$wasowed'], x_), Not(skilled(n, x_))), Or(owed(n, x_), runs(n, x_) > runs(o, x_))), [owed(n, x_), runs(n, x_)]))
        c.loop_inv('the poller is the one set up', lambda o, n: n[glob] == o[glob])
        c.loop_inv('fewer than 2^31 event sources', lambda o, n: small(n))
        c.post()
        o, n = c.old, c.new
        c.inv_post(ALL)
        for nm, t, f in outcome(c, p, o, n):
            c.ensures(nm, t + ('core',), f)
        for nm, f in handler_rel(S, o, n, p):
            c.ensures(nm, ('core',), f)
        c.ensures('every delivered signal is handled', C19 + ('core',), handled(o, n, p))
        c.ensures('handlers add up', ('core',), forall([x_], Implies(own(o, x_) == G(p), runs(n, x_) >= runs(o, x_)), [runs(n, x_)]))

    def handled(o, n, p):
        return forall([x_], Implies(And(own(o, x_) == G(p), Select(o['$wasowed'], x_), Not(skilled(n, x_))), runs(n, x_) > runs(o, x_)), [runs(n, x_)])

    S.ghost_sorts['$wasowed'] = PB      # signals delivered before poll was called

    @S.contract('poller_poll')
    def poller_poll(c):
        p, = c.args
        the_poller(c, p)
        s = c.old
        c.requires('what is owed at first', T, forall([x_], Select(s['$wasowed'], x_) == And(own(s, x_) == G(p), owed(s, x_), Not(skilled(s, x_))), [Select(s['$wasowed'], x_)]))
        c.modifies('$run', '$npoll', *[m for m in set(HMOD + RM)])
        c.loop_inv('the poller is the one set up', lambda o, n: n[glob] == o[glob])
        c.loop_inv('owed signals stay', lambda o, n: forall([x_], Implies(owed(o, x_), owed(n, x_)), [owed(n, x_)]))
        c.loop_inv('handled signals stay', lambda o, n: n['$runs'] == o['$runs'])
        c.loop_inv('live fd sources stay', lambda o, n: handler_kept(o, n, p)[0][1])
        c.loop_inv('live signal sources stay', lambda o, n: handler_kept(o, n, p)[2][1])
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('zero or -1', C18, Or(r == 0, r == -1))
        c.ensures('the poller is the one set up', ('core',), n[glob] == o[glob])
        c.inv_post(ALL)
        c.ensures('success means one poll was answered', C18, n['$npoll'] == o['$npoll'] + If(r == 0, 1, 0))
        for nm, t, f in outcome(c, p, o, n):
            c.ensures(nm, t, Implies(r == 0, f))
        c.ensures('every live source was polled', C18, Implies(r == 0, forall([x_], Implies(And(own(o, x_) == F(p), Not(ekilled(o, x_))), And(own(n, x_) == F(p), polled(n, x_))), [own(o, x_)])))
        c.ensures('a failed poll runs no handler', C18 + C19, Implies(r == -1, And(n['$run'] == o['$run'], n['$runs'] == o['$runs'])))
        c.ensures('every delivered signal is handled', C19, Implies(r == 0, handled(o, n, p)))
