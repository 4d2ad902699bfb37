"""Contracts of the library interface: libseat/libseat.c (choice of a backend, forwarding of calls)."""
from .base import *
from vcg.cast import FuncDef

T24 = ('C24',)
REL = 'libseat/libseat.c'
CALLS = {'disable_seat': 'libseat_disable_seat', 'close_seat': 'libseat_close_seat', 'seat_name': 'libseat_seat_name', 'open_device': 'libseat_open_device', 'close_device': 'libseat_close_device',
         'get_fd': 'libseat_get_fd', 'dispatch': 'libseat_dispatch', 'switch_session': 'libseat_switch_session'}
# the order in which real backends are tried, and the names under which all of them are known
ORDER = ['seatd', 'logind', 'builtin']
NAMES = ORDER + ['noop']
KEYS = {k: n for n, k in enumerate(['open_seat'] + sorted(CALLS))}


class SelectSpecs(Specs):
    kinds = []
    errno_rule = False

    def __init__(self, program):
        super().__init__(program)
        self.ghost_sorts.update({'$env': Ptr, '$ncall': IntS, '$key': A(IntS, IntS), '$impl': A(IntS, Ptr), '$rp': A(IntS, Ptr), '$ri': A(IntS, BV32), '$eno': A(IntS, BV32)})
        self.tu = program.tu_by_rel[REL]
        self.have = {n for n in ORDER if '-D%s_ENABLED' % n.upper() in self.flags(program)} | {'noop'}
        self.unroll = {'libseat_open_seat': 8}
        register(self)

    def flags(self, program):
        import vcg.cast as cast
        return [f.split('=')[0] for f in cast.COMMON + cast.LIBSEAT]

    def find_function(self, name):
        if ':@table-' in name:
            return FuncDef('@table', self.tu, {}, [], {'kind': 'CompoundStmt', 'inner': []}, self.tu.types.parse('void'), True, 0)
        return super().find_function(name)

    def impl(self, eng, name):
        return eng.global_obj(self.tu, self.tu.gname[name + '_impl'])

    def valid(self, eng, st, rec, p):
        return TRUE

    def array_valid(self, eng, st, b, pos, i, it):
        return None

    def entry_facts(self, eng, st, args, types):
        super().entry_facts(eng, st, args, types)
        # constant tables
        for tu in self.prog.tus:
            if tu.rel not in (REL, 'libseat/backend/seatd.c', 'libseat/backend/noop.c'):
                continue
            for name, d in tu.gname.items():
                init = [c for c in d.get('inner', []) or [] if c.get('kind') == 'InitListExpr']
                q = d['type'].get('desugaredQualType') or d['type']['qualType']
                if not init or not q.startswith('const '):
                    continue
                t = tu.types.parse(q)
                rec = t.elem if t.is_arr else t
                if rec.is_rec and eng.recname(rec) in ('named_backend', 'seat_impl'):
                    cur, eng.cur_tu = eng.cur_tu, tu
                    eng.init_at(eng.global_obj(tu, d), t, init[0], st)
                    eng.cur_tu = cur


def register(S):
    @S.contract('_logf')
    def logf(c):
        c.post()
        return bv32(0)

    @S.contract('log_init')
    def log_init(c):
        c.post()
        return bv32(0)

    @S.contract('strerror')
    def strerror(c):
        c.post()
        return fresh('strerror', Ptr)

    @S.contract('getenv')
    def getenv(c):
        p, = c.args
        c.requires('the variable asked for is LIBSEAT_BACKEND', T24, Select(c.old['$str'], p) == strconst('LIBSEAT_BACKEND'))
        c.post()
        c.ensures('', T, c.ret == c.old['$env'])

    @S.contract('strcmp')
    def strcmp(c):
        a, b = c.args
        c.requires('both strings are valid', T24, And(a != NULL, b != NULL))
        c.post()
        c.ensures('', T, (c.ret == 0) == (Select(c.old['$str'], a) == Select(c.old['$str'], b)))

    def backend_call(key):
        def f(c):
            eng = c.eng
            fdef = eng.frames[0].fdef
            for k, a in enumerate(c.args):
                if k < len(eng.params):
                    c.requires('the arguments of the caller are passed on', T24, a == eng.params[k])
            c.modifies('$errno', '$ncall', '$key', '$impl', '$rp', '$ri', '$eno')
            if key != 'open_seat' and key != 'seat_name':
                c.modifies('deref.b32')
            c.post()
            o, n = c.old, c.new
            k = o['$ncall']
            c.ensures('', T, And(n['$ncall'] == k + 1, n['$key'] == Store(o['$key'], k, KEYS[key]), n['$impl'] == Store(o['$impl'], k, c.call.fnobj), n['$eno'] == Store(o['$eno'], k, n['$errno'])))
            if c.ret.sort().eq(Ptr):
                c.ensures('', T, And(n['$rp'] == Store(o['$rp'], k, c.ret), n['$ri'] == o['$ri']))
            else:
                c.ensures('', T, And(n['$ri'] == Store(o['$ri'], k, c.ret), n['$rp'] == o['$rp']))
        return f
    for key in KEYS:
        S.indirect('seat_impl.' + key)(backend_call(key))

    def forward(key, name):
        @S.contract(name)
        def f(c):
            seat = c.args[0]
            c.requires('the seat is open', ('core',), And(seat != NULL, Select(c.old['libseat.impl'], seat) != NULL))
            c.modifies('$errno', '$ncall', '$key', '$impl', '$rp', '$ri', '$eno', 'deref.b32')
            c.post()
            o, n = c.old, c.new
            k = o['$ncall']
            c.ensures('the backend that opened the seat is called, once', T24, And(n['$ncall'] == k + 1, Select(n['$impl'], k) == Select(o['libseat.impl'], seat)))
            c.ensures('the matching operation is called', T24, Select(n['$key'], k) == KEYS[key])
            c.ensures('its result is returned', T24, c.ret == Select(n['$rp' if c.ret.sort().eq(Ptr) else '$ri'], k))
            c.ensures('its errno is kept', T24, n['$errno'] == Select(n['$eno'], k))
    for key, name in CALLS.items():
        forward(key, name)

    @S.contract('libseat_open_seat')
    def open_seat(c):
        lis, data = c.args
        s, eng = c.old, c.eng
        c.requires('no backend was called yet', ('core',), s['$ncall'] == 0)
        c.modifies('$errno', '$ncall', '$key', '$impl', '$rp', '$ri', '$eno')
        c.post()
        o, n, r = c.old, c.new, c.ret
        N = n['$ncall']
        tried = lambda k: Select(n['$impl'], k)
        res = lambda k: Select(n['$rp'], k)
        incomplete = Or(lis == NULL, Select(o['libseat_seat_listener.enable_seat'], lis) == NULL, Select(o['libseat_seat_listener.disable_seat'], lis) == NULL)
        c.ensures('an incomplete listener is refused with EINVAL', T24, Implies(incomplete, And(r == NULL, n['$errno'] == 22, N == 0)))
        env = o['$env']
        ev = Select(o['$str'], env)
        named = And(Not(incomplete), env != NULL)
        known = [(x, ev == strconst(x)) for x in NAMES if x in S.have]
        for x, hit in known:
            c.ensures('the backend named in the environment is the only one tried (%s)' % x, T24, Implies(And(named, hit), And(N == 1, tried(0) == S.impl(eng, x), r == res(0), Implies(r == NULL, n['$errno'] == Select(n['$eno'], 0)))))
        c.ensures('an unknown name fails with EINVAL', T24, Implies(And(named, *[Not(hit) for x, hit in known]), And(r == NULL, n['$errno'] == 22, N == 0)))
        auto = And(Not(incomplete), env == NULL)
        order = [x for x in ORDER if x in S.have]
        for k, x in enumerate(order):
            c.ensures('backends are tried in order (%s)' % x, T24, Implies(And(auto, N > k), tried(k) == S.impl(eng, x)))
            c.ensures('the next backend is tried exactly after a failure (%s)' % x, T24, Implies(auto, (N > k) == And(*[res(j) == NULL for j in range(k)]) if k else N >= 1))
        c.ensures('the noop backend is never chosen implicitly', T24, Implies(auto, N <= len(order)))
        c.ensures('the first success wins', T24, Implies(And(auto, r != NULL), r == res(N - 1)))
        c.ensures('a failure means that every backend failed', T24, Implies(auto, (r == NULL) == And(*[res(j) == NULL for j in range(len(order))], N == len(order))))
        c.ensures('if all fail the error is ENOSYS', T24, Implies(And(auto, r == NULL), n['$errno'] == 38))
        c.ensures('only openers are called', T24, And(*[Implies(N > k, Select(n['$key'], k) == KEYS['open_seat']) for k in range(4)]))

    @S.contract('@table')
    def table(c):
        """the entries of the tables of the seatd, builtin and noop backends"""
        c.post()
        eng, n = c.eng, c.new
        for b, rel, opener in (('seatd', 'libseat/backend/seatd.c', 'open_seat'), ('builtin', 'libseat/backend/seatd.c', 'builtin_open_seat')):
            if b not in S.have:
                continue
            tu = S.prog.tu_by_rel[rel]
            im = S.impl(eng, b)
            for key in KEYS:
                fn = opener if key == 'open_seat' else key
                fd = S.prog.find(tu, fn)
                c.ensures('%s of the %s backend is the function under contract' % (key, b), T24, Select(n['seat_impl.' + key], im) == eng.fnptr(fn))
