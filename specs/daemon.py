"""Contracts and invariants of the daemon: seat.c, client.c, server.c (and what they assume of the kernel)."""
from .base import *

DEVS, CLIENTS, SEATS, IDLE = 'client.devices', 'seat.clients', 'server.seats', 'server.idle_clients'
BV16 = z3.BitVecSort(16)

canon = z3.Function('canonical_path', Str, Str)
hasprefix = z3.Function('has_prefix', Str, Str, BoolS)
evt_is = {}


def is_evdev(s): return hasprefix(s, strconst('/dev/input/event'))
def is_drm(s): return hasprefix(s, strconst('/dev/dri/'))
def is_hidraw(s): return hasprefix(s, strconst('/dev/hidraw'))


GHOSTS = {
    '$fd_open': FB, '$fd_owner': FP, '$fd_priv': FB, '$fd_ref': FB, '$fd_path': A(BV32, Str), '$fd_vt': F32,
    '$fd_flags': F32, '$fd_dup': F32,
    '$vt_gfx': FB, '$vt_kbdoff': FB, '$vt_proc': FB, '$ttyf': BoolS, '$sendf': BoolS,
    '$nswitch': IntS, '$switch_to': BV32, '$nrel': IntS, '$nacq': IntS, '$kvt': BV32,
    '$snap_state': P32, '$snap_priv': FB, '$snap_ref': FB,
    '$byid': A(Ptr, FP), '$bypath': A(Ptr, A(Str, Ptr)), '$bysess': A(Ptr, FP),
    '$enabled': PB, '$pown': PP, '$nopens': IntS, '$open_ok': BoolS, '$es_live': PB,
    # connections (keyed by the connection)
    '$need': A(Ptr, BV64), '$op': A(Ptr, BV16), '$nev': PI, '$lastev': A(Ptr, BV16), '$unsent': PB,
    '$inlen': P32, '$left': A(Ptr, BV64), '$hsize': A(Ptr, BV64), '$reqop': A(Ptr, BV16), '$debt': PI, '$stuck': PB,
    '$msgint': P32, '$msgstr': A(Ptr, Str), '$lastop': A(Ptr, BV16), '$lastval': P32,
    '$fdq': PB, '$lastfd': P32, '$fdsq': PB, '$eof': PB,
    # event sources and text buffers
    '$es_data': PP, '$es_cb': A(Ptr, Ptr), '$es_mask': P32, '$es_fd': P32,
    '$term': PB, '$got': A(Ptr, BV64),
    '$sigset': FB, '$npoll': IntS, '$peer_uid': F32, '$peer_gid': F32, '$peer_pid': F32,
}


def conn(c): return sub(c, 'client.connection')
def devs(c): return sub(c, DEVS)
def clients(s): return sub(s, CLIENTS)
def owner_client(s, d): return Ptr.sbase(own(s, d))
def in_dev(s, d): return is_sub_of(own(s, d), DEVS)
def in_seat(s, c): return is_sub_of(own(s, c), CLIENTS)
def in_idle(s, c): return is_sub_of(own(s, c), IDLE)


def F(name):
    return lambda s, p: Select(s[name], p)


cstate, cseat, csession = F('client.state'), F('client.seat'), F('client.session')
dfd, did, dref, dactive, dpath, dtype = (F('seat_device.' + x) for x in ('fd', 'device_id', 'ref_cnt', 'active', 'path', 'type'))
sactive, snext, svt, scur, scnt, sname = (F('seat.' + x) for x in ('active_client', 'next_client', 'vt_bound', 'cur_vt', 'session_cnt', 'seat_name'))
fd_open, fd_owner, fd_priv, fd_ref, fd_path = (F('$fd_' + x) for x in ('open', 'owner', 'priv', 'ref', 'path'))
strv = F('$str')
cfd = F('connection.fd')
esrc = F('client.event_source')
cserver = F('client.server')

O_FLAGS = 2 | 0o400 | 0o400000 | 0o2000000     # O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC


class DaemonSpecs(Specs):
    errno_rule = True
    kinds = ['client', 'seat', 'seat_device', 'server', 'event_source_fd', 'event_source_signal']

    def __init__(self, program):
        super().__init__(program)
        self.ghost_sorts.update(GHOSTS)
        register_lists(self)
        E = self.enum
        self.NEW, self.ACTIVE, self.PENDING, self.DISABLED, self.CLOSED = (
            E('CLIENT_' + x) for x in ('NEW', 'ACTIVE', 'PENDING_DISABLE', 'DISABLED', 'CLOSED'))
        self.T_EVDEV, self.T_HIDRAW, self.T_DRM = (E('SEAT_DEVICE_TYPE_' + x) for x in ('EVDEV', 'HIDRAW', 'DRM'))
        self.make_inv()
        self.hooks()
        register_libc(self)
        register_seat(self)
        from .client import register_client
        register_client(self)
        from .server import register_server
        register_server(self)

    # ------------------------------------------------------------------ validity of other memory
    def valid_other(self, eng, st, rec, p):
        return p != NULL

    def hooks(self):
        def set_fd_owner(eng, st, p, val, owner):
            # a holder takes over the descriptor it stores
            eng.nonlocal_writes.add('$fd_owner')
            st['$fd_owner'] = If(val == bv32(-1), st['$fd_owner'], Store(st['$fd_owner'], val, owner))

        def dev_fd(eng, st, p, val):
            set_fd_owner(eng, st, p, val, p)

        def conn_fd(eng, st, p, val):
            set_fd_owner(eng, st, p, val, p)
        self.store_hooks['seat_device.fd'] = dev_fd
        self.store_hooks['connection.fd'] = conn_fd

        def str_owner(eng, st, p, val):
            eng.nonlocal_writes.add('$pown')
            st['$pown'] = If(val == NULL, st['$pown'], Store(st['$pown'], val, p))
        self.store_hooks['seat_device.path'] = str_owner
        self.store_hooks['seat.seat_name'] = str_owner

        def state_hook(eng, st, c, val):
            # becoming active starts a new epoch: earlier refused revocations no longer count as done
            old = st['$fd_ref']
            eng.nonlocal_writes.add('$fd_ref')
            eng.touch('$fd_ref')
            new = fresh('$fd_ref', old.sort())
            dv = devs(c)
            o, w = st['$own'], st['$fd_owner']
            eng.fact(forall([f_], Select(new, f_) == And(Select(old, f_), Not(And(val == self.ACTIVE, Select(o, Select(w, f_)) == dv))), [Select(new, f_)]))
            st.maps['$fd_ref'] = new
        self.store_hooks['client.state'] = state_hook

    # ------------------------------------------------------------------ invariants
    def make_inv(self):
        n = n_

        def every(f, *pat):
            return lambda s: forall([n], f(s, n), [(own(s, n),) + tuple(p(s, n) for p in pat)] if pat else [own(s, n)], 'inv_' + f.__name__)

        def typ(s, n):
            o = own(s, n)
            return Implies(o != NULL, And(
                Implies(is_sub_of(o, DEVS), And(kind(s, n) == kindno('seat_device'), kind(s, Ptr.sbase(o)) == kindno('client'))),
                Implies(is_sub_of(o, CLIENTS), And(kind(s, n) == kindno('client'), kind(s, Ptr.sbase(o)) == kindno('seat'), cseat(s, n) == Ptr.sbase(o))),
                Implies(is_sub_of(o, SEATS), And(kind(s, n) == kindno('seat'))),
                Implies(is_sub_of(o, IDLE), And(kind(s, n) == kindno('client'), cseat(s, n) == NULL))))
        self.TYP = [('elements of a list have the type of the list and point back to its owner', ('C15', 'core'), every(typ))]

        def heads(k, fld):
            return lambda s: forall([n], Implies(kind(s, n) == kindno(k), ishead(s, sub(n, fld))), [ishead(s, sub(n, fld)), nxt(s, sub(n, fld))])
        self.HEADS = [('every client has its device list', ('C15', 'core'), heads('client', DEVS)),
                      ('every seat has its client list', ('C15', 'core'), heads('seat', CLIENTS))]

        def dev(s, d):
            fd = dfd(s, d)
            return Implies(in_dev(s, d), And(
                dref(s, d) > 0, fd >= 0, fd_open(s, fd), fd_owner(s, fd) == d, did(s, d) > 0,
                dpath(s, d) != NULL, kind(s, dpath(s, d)) == kindno('char'), Select(s['$pown'], dpath(s, d)) == d,
                fd_path(s, fd) == strv(s, dpath(s, d))))
        self.DEV = [('a held device has a positive id and count and owns an open descriptor of its path', ('C04', 'C05', 'core'), every(dev))]

        def devtype(s, d):
            t, p = dtype(s, d), strv(s, dpath(s, d))
            return Implies(in_dev(s, d), Or(And(t == self.T_EVDEV, is_evdev(p)), And(t == self.T_DRM, is_drm(p)), And(t == self.T_HIDRAW, is_hidraw(p))))
        self.DEVTYPE = [('the type of a held device is the class of its path', ('C02', 'C03', 'C15', 'core'), every(devtype))]

        def inactive(s, d):
            return Implies(And(in_dev(s, d), Not(dactive(s, d))), Not(fd_priv(s, dfd(s, d))))
        self.INACT = [('a device counts as revoked only if the kernel revoked it', ('C02', 'core'), every(inactive))]

        def priv(s, d):
            return Implies(And(in_dev(s, d), cstate(s, owner_client(s, d)) != self.ACTIVE),
                           Or(Not(fd_priv(s, dfd(s, d))), fd_ref(s, dfd(s, d))))
        self.PRIV = [('devices of clients that are not active are revoked', ('C02', 'core'), every(priv))]

        # distinctness through ghost inverse maps (linear instead of pairwise)
        def uniq_id(s, d):
            return Implies(in_dev(s, d), Select(Select(s['$byid'], own(s, d)), did(s, d)) == d)

        def uniq_path(s, d):
            return Implies(in_dev(s, d), Select(Select(s['$bypath'], own(s, d)), strv(s, dpath(s, d))) == d)
        self.UNIQ = [('devices of a client have distinct ids', ('C04', 'core'), every(uniq_id)),
                     ('devices of a client have distinct paths', ('C04', 'core'), every(uniq_path))]

        def maxdev(s):
            return forall([n], Implies(And(is_sub_of(n, DEVS), ishead(s, n)), llen(s, n) <= 128), [llen(s, n)])
        self.MAX = [('a client holds at most 128 devices', ('C03', 'core'), maxdev)]

        A_, P_ = self.ACTIVE, self.PENDING

        def holder(s, c):
            st = cstate(s, c)
            return Implies(in_seat(s, c), And(
                Or(st == self.NEW, st == A_, st == P_, st == self.DISABLED),
                Or(st == A_, st == P_) == (sactive(s, cseat(s, c)) == c), csession(s, c) >= 0))
        self.HOLD = [('a member holds its seat exactly while it is active or asked to disable', ('C01', 'C07', 'core'), every(holder, cstate))]

        def act(s):
            a = sactive(s, n)
            return forall([n], Implies(And(kind(s, n) == kindno('seat'), a != NULL), own(s, a) == clients(n)), [a])

        def nex(s):
            a = snext(s, n)
            return forall([n], Implies(And(kind(s, n) == kindno('seat'), a != NULL), And(own(s, a) == clients(n), Not(svt(s, n)), cstate(s, a) != self.NEW if False else TRUE)), [a])
        self.SEAT = [('the client holding a seat is a member of it', ('C01', 'C15', 'core'), act),
                     ('a queued client is a member of the seat, which is not VT-bound', ('C06', 'C08', 'C14', 'C15', 'core'), nex)]

        def sess(s, d):
            return Implies(in_seat(s, d), Select(Select(s['$bysess'], own(s, d)), csession(s, d)) == d)

        def sesscnt(s, c):
            return Implies(And(in_seat(s, c), Not(svt(s, cseat(s, c)))), And(csession(s, c) >= 0, csession(s, c) < scnt(s, cseat(s, c))))

        def cnt(s):
            return forall([n], Implies(kind(s, n) == kindno('seat'), And(scnt(s, n) >= 0, sname(s, n) != NULL, kind(s, sname(s, n)) == kindno('char'),
                                                                          Select(s['$pown'], sname(s, n)) == n, scur(s, n) >= -1)), [scnt(s, n), sname(s, n), scur(s, n)])
        self.SESS = [('members of a seat have distinct sessions', ('C11', 'core'), every(sess)),
                     ('session numbers are handed out in order', ('C11', 'core'), every(sesscnt)),
                     ('the session counter is not negative', ('C11', 'core'), cnt)]

        def idle(s, c):
            return Implies(in_idle(s, c), And(Or(cstate(s, c) == self.NEW, cstate(s, c) == self.CLOSED),
                                              (cstate(s, c) == self.NEW) == (csession(s, c) == -1), llen(s, devs(c)) == 0, Not(Select(s['$enabled'], c))))
        self.IDLE = [('a client outside a seat is new or closed and holds no devices', ('C07', 'C11', 'core'), every(idle))]

        def en(s, c):
            return Implies(in_seat(s, c), Select(s['$enabled'], c) == (cstate(s, c) == A_))
        self.EVT = [('a member was last sent enable exactly if it is active', ('C07', 'core'), every(en))]

        def listed(s, c, exc):
            g = Or(in_seat(s, c), in_idle(s, c))
            return g if exc is None else And(g, c != exc)

        def res(exc):
            def res(s, c):
                fd = cfd(s, conn(c))
                return Implies(listed(s, c, exc), And(fd >= 0, fd_open(s, fd), fd_owner(s, fd) == conn(c), Implies(in_seat(s, c), esrc(s, c) != NULL)))
            return res

        def need(exc):
            def need(s, c):
                return Implies(listed(s, c, exc), Select(s['$need'], conn(c)) == 0)
            return need
        self.RES = lambda exc=None: [('the socket of a client is open and owned by its connection', ('C05', 'C14', 'core'), every(res(exc)))]
        self.NEED = lambda exc=None: [('no message is half queued', ('C13', 'core'), every(need(exc)))]

        def sock_inv(exc=None):
            return self.RES(exc) + self.NEED(exc)
        self.sock_inv = sock_inv

        def fds(s):
            w = fd_owner(s, f_)
            return forall([f_], Implies(And(fd_open(s, f_), in_dev(s, w)), dfd(s, w) == f_), [fd_owner(s, f_)])
        self.FDS = [('a device owns no descriptor but its own', ('C05', 'core'), fds)]

        def objs(s):
            return forall([n], Implies(kind(s, n) != 0, Ptr.is_obj(n)), [kind(s, n)])
        def es(s):
            e = esrc(s, n)
            return forall([n], Implies(And(kind(s, n) == kindno('client'), e != NULL), And(Select(s['$es_live'], e), Select(s['$es_data'], e) == n)), [(kind(s, n), e)])
        self.ES = [('the event source of a client is live and its own', ('C14', 'C15', 'core'), es)]
        self.KIND = [('only whole objects are allocated', ('C15', 'core'), objs)]
        self.MEM = self.KIND + self.LL + self.TYP + self.HEADS
        self.DEVS_INV = self.DEV + self.FDS + self.DEVTYPE + self.INACT + self.UNIQ + self.MAX
        self.SEAT_INV0 = self.MEM + self.ES + self.DEVS_INV + self.PRIV + self.HOLD + self.SEAT + self.SESS + self.IDLE + self.EVT
        self.SEAT_INV = self.SEAT_INV0 + sock_inv()

    # ------------------------------------------------------------------ loop candidates
    def frame_guards(self, ctx, m, dom, heads):
        e0 = ctx.entry
        out = super().frame_guards(ctx, m, dom, heads)
        if dom.eq(Ptr):
            for desc, h in heads:
                if m in ('$kind', '$pown', '$str'):
                    out.append(('except %s and what they own' % desc, lambda k, h=h: And(own(e0, k) != h, own(e0, Select(e0['$pown'], k)) != h)))
                if m == '$own' or m == '$ishead':
                    out.append(('except elements of %s' % desc, lambda k, h=h: own(e0, k) != h))
                if m in ('$len', '$at'):
                    out.append(('except %s' % desc, lambda k, h=h: k != h))
        if dom.eq(BV32):
            out.append(('for open descriptors', lambda k: fd_open(e0, k)))
            for desc, h in heads:
                out.append(('for descriptors not owned in %s' % desc, lambda k, h=h: own(e0, fd_owner(e0, k)) != h))
        return out

    def visit_preds(self, ctx, h, ints):
        eng = ctx.eng
        out = []
        t = None
        if z3.is_app(h) and h.decl().eq(Ptr.sub):
            t = FIELDS.names[h.arg(1).as_long() - 1]
        if t == DEVS:
            for key, name, ty in ints:
                if ty.w == 32 and ty.signed:
                    out.append(('id differs from %s' % name, lambda s, x, key=key: did(s, x) != s.vars[key]))
                    out.append(('id is less than %s' % name, lambda s, x, key=key: did(s, x) < s.vars[key]))
            for name, b in self.char_pointers(ctx):
                out.append(('path differs from %s' % name, lambda s, x, b=b: strv(s, dpath(s, x)) != strv(s, b)))
            out.append(('revoked', lambda s, x: Or(Not(fd_priv(s, dfd(s, x))), fd_ref(s, dfd(s, x)))))
        elif t == CLIENTS:
            for key, name, ty in ints:
                if ty.w == 32:
                    out.append(('session differs from %s' % name, lambda s, x, key=key: csession(s, x) != s.vars[key]))
            out.append(('session differs from the current VT', lambda s, x, h=h: csession(s, x) != scur(s, Ptr.sbase(h) if False else h.arg(0))))
        elif t == SEATS:
            for name, b in self.char_pointers(ctx):
                out.append(('name differs from %s' % name, lambda s, x, b=b: strv(s, sname(s, x)) != strv(s, b)))
        return out

    def char_pointers(self, ctx):
        eng = ctx.eng
        out = []
        for key, name, t in ctx.locals():
            if t.is_ptr and t.to.is_int and t.to.w == 8:
                out.append((name, ctx.entry.vars[key]))
        for key, o in eng.localaddr.items():
            nm, t = eng.varnames.get(key, ('?', None))
            if t is not None and t.is_arr and t.elem.is_int and t.elem.w == 8:
                out.append((nm, Ptr.elt(o, z3.IntVal(0))))
        return out

    def extra_candidates(self, ctx, heads, ptrs, ints, base):
        out = []
        eng = ctx.eng
        mods = set(ctx.modvars)
        e0 = ctx.entry
        x = bound('x', Ptr)
        if '$errno' in ctx.modmaps:
            out.append(('errno is unchanged or set', lambda s: Or(s['$errno'] == e0['$errno'], s['$errno'] != 0)))
        if '$kind' in ctx.modmaps:
            out.append(('only devices and strings are freed', lambda s: forall([x], Implies(And(kind(e0, x) != 0, kind(e0, x) != kindno('seat_device'), kind(e0, x) != kindno('char')), kind(s, x) == kind(e0, x)), [kind(s, x)])))
        if '$own' in ctx.modmaps and '$kind' in ctx.modmaps:
            out.append(('nothing is allocated', lambda s: forall([x], Implies(kind(s, x) != 0, kind(s, x) == kind(e0, x)), [kind(s, x)])))
            for desc, h in heads:
                out.append(('elements of %s stay or are freed' % desc, lambda s, h=h: forall([x], Implies(own(e0, x) == h, Or(own(s, x) == h, And(own(s, x) == NULL, kind(s, x) == 0))), [own(s, x)])))
                out.append(('%s only shrinks' % desc, lambda s, h=h: forall([x], Implies(own(s, x) == h, own(e0, x) == h), [own(s, x)])))
                if '$fd_open' in ctx.modmaps:
                    out.append(('descriptors owned in %s stay or are closed' % desc, lambda s, h=h: forall([f_], Implies(own(e0, fd_owner(e0, f_)) == h, Or(
                        Not(fd_open(s, f_)), And(fd_owner(s, f_) == fd_owner(e0, f_), own(s, fd_owner(e0, f_)) == h))), [fd_open(s, f_)])))
            if '$fd_open' in ctx.modmaps:
                out.append(('no descriptor is opened', lambda s: forall([f_], Implies(fd_open(s, f_), fd_open(e0, f_)), [fd_open(s, f_)])))
        for key, name, rec in ptrs:
            if key not in mods:
                continue
            for desc, h in heads:
                for pd, P in self.visit_preds(ctx, h, ints):
                    if 'differs' in pd:
                        out.append(('%s is null or not: %s' % (name, pd), lambda s, P=P, key=key: Or(s.vars[key] == NULL, Not(P(s, s.vars[key])))))
        return out

    def distinct_classes(self, eng, s):
        """the three device directories are different: a path has at most one of the prefixes"""
        return And(Not(And(is_evdev(s), is_drm(s))), Not(And(is_evdev(s), is_hidraw(s))), Not(And(is_drm(s), is_hidraw(s))))

    def entry_facts(self, eng, st, args, types):
        S_ = bound('S', Str)
        eng.fact(forall([S_], And(Not(And(is_evdev(S_), is_drm(S_))), Not(And(is_evdev(S_), is_hidraw(S_)))), [is_evdev(S_)]))
        eng.fact(forall([S_], Not(And(is_drm(S_), is_hidraw(S_))), [is_drm(S_)]))
        i, j = bound('i', IntS), bound('j', IntS)
        eng.fact(forall([i], And(Implies(i == 0, toBV(i) == bv64(0)), Implies(i == 128, toBV(i) == bv64(128))), [toBV(i)]))
        eng.fact(forall([i, j], And(Implies(i == j + 1, toBV(i) == toBV(j) + 1), Implies(i == j, toBV(i) == toBV(j))), [(toBV(i), toBV(j))]))

    def on_local_object(self, eng, st, o, t, name):
        eng.fact(Select(eng.initial_map('$kind'), o) == 0)
        super().on_local_object(eng, st, o, t, name)


# ------------------------------------------------------------------------------- frames
LIST_MAPS = (NEXT, PREV, '$own', '$idx', '$len', '$ishead', '$at')


def modifies_lists(c):
    c.modifies(*LIST_MAPS)


def same_where(c, m, cond, tags=T, name=None):
    """map m is unchanged at every key where cond(key)"""
    o, n = c.old[m], c.new[m]
    if o.eq(n):
        return
    k = bound('k', o.sort().domain())
    c.ensures(name or 'unchanged elsewhere (%s)' % m, tags, forall([k], Implies(cond(k), Select(n, k) == Select(o, k)), [Select(n, k)]))


def list_frame(c, heads, elems=()):
    """lists other than those with the given heads are untouched"""
    o = c.old
    for m in (NEXT, PREV, '$own', '$idx'):
        same_where(c, m, lambda k: And([Or(own(o, k) != NULL, ishead(o, k))] + [own(o, k) != h for h in heads] + [k != h for h in heads] + [k != e for e in elems]), ('C30', 'core'))
    same_where(c, '$own', lambda k: And([own(o, k) != h for h in heads] + [k != e for e in elems]), ('core',))
    for m in ('$len',):
        same_where(c, m, lambda k: And([k != h for h in heads] + [k != e for e in elems]), ('core',))
    same_where(c, '$ishead', lambda k: And([k != e for e in elems] + [own(o, k) != h for h in heads]), ('core',))


def announced(s, x):
    """pending output of the client has been announced to the poller"""
    return Or(Not(Select(s['$unsent'], conn(x))), (Select(s['$es_mask'], esrc(s, x)) & 4) != 0)


def note_failure(c, failed):
    """remember the errno of an operation that failed"""
    if c.mode == 'call':
        c.eng.touch('$failno')
        c.eng.nonlocal_writes.add('$failno')
        c.st['$failno'] = If(failed, c.st['$errno'], c.st['$failno'])


def only_devices_change(c):
    x = bound('x', Ptr)
    o, n = c.old, c.new
    c.ensures('only devices and strings are freed', ('C15', 'core'), forall([x], Implies(And(kind(o, x) != 0, kind(o, x) != kindno('seat_device'), kind(o, x) != kindno('char')), kind(n, x) == kind(o, x)), [kind(n, x)]))


def no_silent(c):
    x = bound('x', Ptr)
    o, n = c.old, c.new
    c.ensures('queued output is announced to the poller', ('C13', 'core'), forall([x], Implies(And(kind(o, x) == kindno('client'), announced(o, x)), announced(n, x)),
              [(kind(o, x), Select(n['$unsent'], conn(x)))]))


def no_leak(c, exempt=None, tags=('C05',)):
    """no descriptor is left open without an owner"""
    o, n = c.old, c.new
    cond = And(fd_open(n, f_), fd_owner(n, f_) == NULL)
    if exempt is not None:
        cond = And(cond, f_ != exempt)
    c.ensures('no descriptor is leaked', tags, forall([f_], Implies(cond, And(fd_open(o, f_), fd_owner(o, f_) == NULL)), [fd_open(n, f_)]))


# ------------------------------------------------------------------------------- trusted: libc and kernel

def arg_struct(call, i):
    """static pointee type of an argument before its conversion to void *"""
    n = call.argnodes[i]
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    return call.eng.ctype(n)


def sizeof_type(call, eng, argnode):
    n = argnode
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    if n['kind'] == 'UnaryExprOrTypeTraitExpr':
        tt = eng.frames[-1].fdef.tu.types
        if 'argType' in n:
            at = n['argType']
            return tt.parse(at.get('desugaredQualType', at['qualType']))
        return eng.ctype(n['inner'][0])
    return None


def new_object(c, S, kindname):
    st = c.st
    o = fresh('new_' + kindname, Ptr)
    c.eng.assume(st, And(Ptr.is_obj(o), Ptr.oid(o) > 0, kind(st, o) == 0))
    c.eng.assume(st, Select(c.eng.initial_map('$kind'), o) == 0)
    c.eng.assume(st, forall([f_], And(fd_owner(st, f_) != o, fd_owner(st, f_) != conn(o)), [fd_owner(st, f_)]))
    return o


def register_libc(S):
    E = z3.BitVecVal

    def errno_fail(c):
        c.modifies('$errno')

    @S.contract('_logf')
    def logf(c):
        c.post()
        return bv32(0)

    @S.contract('strerror')
    def strerror(c):
        c.post()
        return fresh('strerror', Ptr)

    @S.contract('calloc')
    def calloc(c):
        eng, st = c.eng, c.st
        t = sizeof_type(c.call, eng, c.call.argnodes[1])
        if t is None:
            # find the record by its size
            sz = z3.simplify(c.args[1])
            raise ExtractError('calloc of unknown type')
        c.modifies('$errno')
        c.post()
        ok = fresh('alloc_ok', BoolS)
        o = new_object(c, S, S.engname(eng, t))
        eng.alloc_objs.append(o)
        st['$kind'] = If(ok, Store(st['$kind'], o, kindno(S.engname(eng, t))), st['$kind'])
        eng.nonlocal_writes.add('$kind')
        if t.is_rec:
            for lv in eng.leaves(o, t):
                m = lv[1] if lv[0] == 'fld' else eng.mapkey(lv[2])
                a = lv[2] if lv[0] == 'fld' else lv[1]
                eng.note_alloc(m, a)
                st[m] = If(ok, Store(st[m], a, eng.default(lv[-1])), st[m])
            for hp in S.heads_of(eng.recname(t)):
                pass
        r = fresh('calloc', Ptr)
        eng.assume(st, r == If(ok, o, NULL))
        eng.assume(st, Implies(Not(ok), st['$errno'] == 12))
        return r

    @S.contract('free')
    def free(c):
        p, = c.args
        eng, st = c.eng, c.st
        t = arg_struct(c.call, 0)
        t = t.to if t.is_ptr else t
        S.do_free(c, p, t)
        return bv32(0)

    def do_free(c, p, t):
        eng, st = c.eng, c.st
        if t.is_rec and eng.recname(t) in S.kinds:
            k = eng.recname(t)
            c.requires('freed memory is a live %s' % k, ('C15', 'core'), Or(p == NULL, kind(st, p) == kindno(k)))
            hs = [hp for hp in S.heads_of(k)]
            for hp in hs:
                a = at_path(p, hp)
                c.requires('freed memory is not part of a list (%s)' % ('.'.join(hp) or 'link'), ('C15', 'C14', 'core'),
                           Or(p == NULL, And(own(st, a) == NULL, Implies(ishead(st, a), llen(st, a) == 0))))
            if k == 'client':
                fdv = cfd(st, conn(p))
                c.requires('the socket of a freed client is closed', ('C05', 'C14'), Or(p == NULL, fdv == -1, Not(fd_open(st, fdv)), fd_owner(st, fdv) != conn(p)))
                c.requires('no queued descriptor is lost with a freed client', ('C05', 'C14', 'C17'), Or(p == NULL, Not(Select(st['$fdsq'], conn(p)))))
                e_ = bound('e', Ptr)
                c.requires('no event source refers to a freed client', ('C14', 'C15'), Or(p == NULL, forall([e_], Not(And(Select(st['$es_live'], e_), Select(st['$es_data'], e_) == p, Select(st['$es_cb'], e_) == S.es_client_cb(c))), [Select(st['$es_live'], e_)])))
            if k == 'seat_device':
                fdv = dfd(st, p)
                c.requires('the descriptor of a freed device is closed', ('C05',), Or(p == NULL, Not(fd_open(st, fdv)), fd_owner(st, fdv) != p))
            c.modifies_at('$kind', p)
            c.post()
            cur = st['$ishead']
            for hp in hs:
                cur = Store(cur, at_path(p, hp), FALSE)
            st['$ishead'] = cur
            eng.nonlocal_writes.add('$ishead')
            eng.assume(st, Implies(p != NULL, kind(st, p) == 0))
            eng.assume(st, Implies(p == NULL, kind(st, p) == kind(c.old, p)))
        else:
            c.requires('freed memory is live and freed once', ('C15', 'core'), Or(p == NULL, kind(st, p) == kindno('char')))
            c.modifies_at('$kind', p)
            c.post()
            eng.assume(st, kind(st, p) == If(p == NULL, kind(c.old, p), z3.IntVal(0)))
    S.do_free = do_free

    def engname(eng, t):
        return eng.recname(t) if t.is_rec else 'char'
    S.engname = engname

    @S.contract('strdup')
    def strdup(c):
        p, = c.args
        c.requires('the string is valid', ('C15',), p != NULL)
        c.modifies('$errno')
        c.post()
        eng, st = c.eng, c.st
        o = new_object(c, S, 'char')
        eng.alloc_objs.append(o)
        ok = fresh('alloc_ok', BoolS)
        v = strv(st, p)
        st['$kind'] = If(ok, Store(st['$kind'], o, kindno('char')), st['$kind'])
        eng.nonlocal_writes.add('$kind')
        eng.note_alloc('$str', o)
        st['$str'] = Store(st['$str'], o, v)
        eng.note_alloc('$pown', o)
        r = fresh('strdup', Ptr)
        eng.assume(st, r == If(ok, o, NULL))
        eng.assume(st, Implies(Not(ok), st['$errno'] == 12))
        return r

    @S.contract('strcmp')
    def strcmp(c):
        a, b = c.args
        c.requires('both strings are valid', ('C15',), And(a != NULL, b != NULL))
        c.post()
        c.ensures('zero exactly for equal strings', T, (c.ret == 0) == (strv(c.old, a) == strv(c.old, b)))

    @S.contract('realpath')
    def realpath(c):
        p, buf = c.args
        c.requires('the path is valid', ('C15',), And(p != NULL, buf != NULL))
        c.modifies('$errno')
        c.modifies_at('$str', buf)
        c.post()
        c.ensures('failure sets errno', T, Implies(c.ret == NULL, c.new['$errno'] != 0))
        c.ensures('result', T, Or(c.ret == NULL, And(c.ret == buf, strv(c.new, buf) == canon(strv(c.old, p)))))

    @S.contract('open')
    def open_(c):
        p, fl = c.args[0], c.args[1]
        c.modifies('$errno', '$fd_open', '$fd_owner', '$fd_priv', '$fd_ref', '$fd_path', '$fd_flags')
        c.modifies('$nopens', '$open_ok')
        c.post()
        o, n, r = c.old, c.new, c.ret
        path = strv(o, p)
        c.ensures('', T, n['$nopens'] == o['$nopens'] + 1)
        c.ensures('', T, n['$open_ok'] == And(o['$open_ok'], Or(is_evdev(path), is_drm(path), is_hidraw(path)), (fl & O_FLAGS) == O_FLAGS))
        c.ensures('', T, Implies(r != -1, And(r >= 0, Not(fd_open(o, r)))))
        c.ensures('', T, Implies(r == -1, n['$errno'] != 0))
        for m, v in (('$fd_open', TRUE), ('$fd_owner', NULL), ('$fd_priv', TRUE), ('$fd_ref', FALSE), ('$fd_path', path), ('$fd_flags', fl)):
            c.ensures('', T, n[m] == If(r == -1, o[m], Store(o[m], r, v)))

    @S.contract('close')
    def close(c):
        fd, = c.args
        s = c.old
        ow = fd_owner(s, fd)
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(s, fd))
        c.requires('a device is revoked before its descriptor is closed', ('C02',),
                   Implies(And(ow != NULL, Ptr.is_obj(ow), kind(s, ow) == kindno('seat_device')), Or(Not(fd_priv(s, fd)), fd_ref(s, fd))))
        c.modifies('$errno')
        c.modifies_at('$fd_open', fd)
        c.modifies_at('$fd_owner', fd)
        c.post()
        c.ensures('', T, And(Not(fd_open(c.new, fd)), fd_owner(c.new, fd) == NULL))

    @S.contract('dup')
    def dup(c):
        fd, = c.args
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(c.old, fd))
        c.modifies('$errno', '$fd_open', '$fd_owner', '$fd_priv', '$fd_ref', '$fd_path', '$fd_dup')
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('', T, Implies(r != -1, And(r >= 0, Not(fd_open(o, r)))))
        c.ensures('', T, Implies(r == -1, n['$errno'] != 0))
        note_failure(c, r == -1)
        for m, v in (('$fd_open', TRUE), ('$fd_owner', NULL), ('$fd_dup', fd), ('$fd_priv', FALSE), ('$fd_ref', FALSE), ('$fd_path', fd_path(o, fd))):
            c.ensures('', T, n[m] == If(r == -1, o[m], Store(o[m], r, v)))

    # ---- device primitives (verified against their bodies in the terminal group)
    def revoker(name, cls):
        @S.contract(name)
        def rv(c, cls=cls):
            fd, = c.args
            s = c.old
            c.requires('the descriptor is open', ('C05', 'core'), fd_open(s, fd))
            c.requires('the revocation matches the class of the device', ('C02',), cls(fd_path(s, fd)))
            c.modifies('$errno')
            c.modifies_at('$fd_priv', fd)
            c.modifies_at('$fd_ref', fd)
            c.post()
            c.ensures('', T, Or(c.ret == -1, c.ret >= 0))
            c.ensures('', T, fd_priv(c.new, fd) == And(fd_priv(s, fd), c.ret == -1))
            c.ensures('', T, fd_ref(c.new, fd) == Or(fd_ref(s, fd), c.ret == -1))
    revoker('drm_drop_master', is_drm)
    revoker('evdev_revoke', is_evdev)
    revoker('hidraw_revoke', is_hidraw)

    @S.contract('drm_set_master')
    def setmaster(c):
        fd, = c.args
        s = c.old
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(s, fd))
        c.requires('the descriptor is a DRM device', ('C02',), is_drm(fd_path(s, fd)))
        c.modifies('$errno')
        c.modifies_at('$fd_priv', fd)
        c.post()
        c.ensures('', T, Implies(fd_priv(s, fd), fd_priv(c.new, fd)))

    def classifier(name, f):
        @S.contract(name)
        def cl(c, f=f):
            c.requires('the path is valid', ('C15',), c.args[0] != NULL)
            c.post()
            c.ensures('', T, (c.ret != 0) == f(strv(c.old, c.args[0])))
    classifier('path_is_evdev', is_evdev)
    classifier('path_is_drm', is_drm)
    classifier('path_is_hidraw', is_hidraw)
    classifier('path_is_wscons', lambda s: FALSE)

    @S.contract('terminal_open')
    def terminal_open(c):
        vt, = c.args
        c.modifies('$errno', '$fd_open', '$fd_owner', '$fd_vt', '$ttyf')
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('', T, Implies(r != -1, And(r >= 0, Not(fd_open(o, r)), vt >= 0)))
        for m, v in (('$fd_open', TRUE), ('$fd_owner', NULL), ('$fd_vt', vt)):
            c.ensures('', T, n[m] == If(r == -1, o[m], Store(o[m], r, v)))
        c.ensures('', T, n['$ttyf'] == Or(o['$ttyf'], And(r == -1, vt >= 0)))
        c.ensures('', T, Implies(r == -1, n['$errno'] != 0))

    @S.contract('terminal_current_vt')
    def current_vt(c):
        fd, = c.args
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(c.old, fd))
        c.modifies('$errno', '$kvt')
        c.post()
        c.ensures('', T, c.new['$kvt'] == c.ret)
        c.ensures('', T, Or(c.ret == -1, c.ret > 0))

    def setter(name, m, val):
        @S.contract(name)
        def st_(c, m=m, val=val):
            fd, en = c.args
            c.requires('the descriptor is open', ('C05', 'core'), fd_open(c.old, fd))
            c.modifies('$errno', m)
            c.post()
            o, n = c.old, c.new
            c.ensures('', T, n[m] == Store(o[m], Select(o['$fd_vt'], fd), val(en)))
    setter('terminal_set_process_switching', '$vt_proc', lambda e: e)
    setter('terminal_set_keyboard', '$vt_kbdoff', lambda e: Not(e))
    setter('terminal_set_graphics', '$vt_gfx', lambda e: e)

    @S.contract('terminal_switch_vt')
    def switch_vt(c):
        fd, vt = c.args
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(c.old, fd))
        c.modifies('$errno', '$nswitch', '$switch_to')
        c.post()
        c.ensures('', T, And(c.new['$nswitch'] == c.old['$nswitch'] + 1, c.new['$switch_to'] == vt))

    @S.contract('terminal_ack_release')
    def ack_release(c):
        fd, = c.args
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(c.old, fd))
        c.modifies('$errno', '$nrel', '$snap_state', '$snap_priv', '$snap_ref')
        c.post()
        o, n = c.old, c.new
        c.ensures('', T, And(n['$nrel'] == o['$nrel'] + 1, n['$snap_state'] == o['client.state'], n['$snap_priv'] == o['$fd_priv'], n['$snap_ref'] == o['$fd_ref']))

    @S.contract('terminal_ack_acquire')
    def ack_acquire(c):
        fd, = c.args
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(c.old, fd))
        c.modifies('$errno', '$nacq')
        c.post()
        c.ensures('', T, c.new['$nacq'] == c.old['$nacq'] + 1)


# ------------------------------------------------------------------------------- seat.c

def register_seat(S):
    A_, P_ = S.ACTIVE, S.PENDING

    def live(c, cl, k='client'):
        c.requires('the %s is live' % k, ('C15', 'core'), kind(c.old, cl) == kindno(k))

    @S.contract('seat_find_device')
    def find_device(c):
        cl, i = c.args
        c.inv(S.MEM)
        live(c, cl)
        c.modifies('$errno')
        c.post()
        s = c.old
        x = bound('x', Ptr)
        c.ensures('a found device is held by the client and has the id', ('C04',), Implies(c.ret != NULL, And(own(s, c.ret) == devs(cl), did(s, c.ret) == i, i != 0)))
        c.ensures('nothing found means the client holds no device with the id', ('C04',), Implies(And(c.ret == NULL, i != 0), forall([x], Implies(own(s, x) == devs(cl), did(s, x) != i), [own(s, x)])))
        c.ensures('failure sets an error', ('C04', 'C13'), Implies(c.ret == NULL, c.new['$errno'] != 0))

    def close_maps(c):
        modifies_lists(c)
        c.modifies('$kind', '$errno', '$fd_open', '$fd_owner', '$fd_priv', '$fd_ref')

    @S.contract('seat_close_device')
    def close_device(c):
        cl, d = c.args
        s = c.old
        c.inv(S.MEM + S.DEVS_INV)
        live(c, cl)
        c.requires('the device is held by the client', ('C15', 'C04', 'core'), own(s, d) == devs(cl))
        c.requires('the client is on a seat', ('C15', 'core'), kind(s, cseat(s, cl)) == kindno('seat'))
        close_maps(c)
        c.modifies_at('seat_device.ref_cnt', d)
        c.modifies_at('seat_device.active', d)
        c.post()
        o, n = c.old, c.new
        h, fd, path = devs(cl), dfd(o, d), dpath(o, d)
        last = c.let('last', dref(o, d) <= 1)
        c.ensures('closing succeeds', ('C04', 'C13'), c.ret == 0)
        c.ensures('one reference is dropped', ('C04',), Implies(Not(last), dref(n, d) == dref(o, d) - 1))
        c.ensures('a device with references left stays active', ('C04', 'C02'), Implies(Not(last), dactive(n, d) == dactive(o, d)))
        for m in LIST_MAPS + ('$kind', '$fd_open', '$fd_owner', '$fd_priv', '$fd_ref'):
            c.ensures('a device with references left stays open (%s)' % m, ('C04', 'core'), Implies(Not(last), n[m] == o[m]))
        c.ensures('the last close removes the device from the client', ('C04', 'core'), Implies(last, n['$own'] == Store(o['$own'], d, NULL)))
        c.ensures('the last close leaves one device less', ('C04', 'core'), Implies(last, n['$len'] == Store(o['$len'], h, llen(o, h) - 1)))
        c.ensures('the last close frees the device and its path', ('C04', 'C14', 'core'), Implies(last, n['$kind'] == Store(Store(o['$kind'], path, z3.IntVal(0)), d, z3.IntVal(0))))
        c.ensures('the last close closes exactly the descriptor of the device', ('C04', 'C05', 'core'), Implies(last, n['$fd_open'] == Store(o['$fd_open'], fd, FALSE)))
        c.ensures('descriptor ownership', ('C05', 'core'), Implies(last, n['$fd_owner'] == Store(o['$fd_owner'], fd, NULL)))
        same_where(c, '$fd_priv', lambda k: k != fd, ('C02', 'core'))
        same_where(c, '$fd_ref', lambda k: k != fd, ('C02', 'core'))
        list_frame(c, [h], [d])
        same_where(c, '$ishead', lambda k: k != d)
        only_devices_change(c)
        c.inv_post(S.MEM + S.DEVS_INV)
        no_leak(c)

    @S.contract('seat_open_device')
    def open_device(c):
        cl, path = c.args
        s = c.old
        c.inv(S.MEM + S.DEVS_INV + S.HOLD + S.SEAT)
        live(c, cl)
        c.requires('the path is a terminated string', ('C15', 'C12', 'core'), And(path != NULL, Select(s['$term'], path)))
        c.requires('the client is a member of a seat', ('C15', 'core'), And(kind(s, cseat(s, cl)) == kindno('seat'), own(s, cl) == clients(cseat(s, cl))))
        xx = bound('x', Ptr)
        c.assuming('device ids and reference counts are below INT_MAX', forall([xx], Implies(
            own(s, xx) == devs(cl), And(did(s, xx) < 0x7fffffff, dref(s, xx) < 0x7fffffff)), [own(s, xx)]))
        modifies_lists(c)
        c.modifies('$kind', '$errno', '$fd_open', '$fd_owner', '$fd_priv', '$fd_ref', '$fd_path', '$fd_flags', '$pown', '$str', '$nopens', '$open_ok')
        for f in ('ref_cnt', 'fd', 'device_id', 'active', 'path', 'type'):
            c.modifies('seat_device.' + f)
        c.post()
        o, n, r = c.old, c.new, c.ret
        h = devs(cl)
        cp = canon(strv(o, path))
        sup = Or(is_evdev(cp), is_drm(cp), is_hidraw(cp))
        isnew = c.let('isnew', own(o, r) != h)
        ok = r != NULL
        c.ensures('only the active client opens devices', ('C03',), Implies(ok, And(cstate(o, cl) == A_, sactive(o, cseat(o, cl)) == cl)))
        c.ensures('the device is held by the client and is of the canonical path', ('C03', 'C04', 'core'), Implies(ok, And(own(n, r) == h, strv(n, dpath(n, r)) == cp, sup)))
        c.ensures('nothing but supported canonical paths is opened, safely', ('C03',), Implies(o['$open_ok'], n['$open_ok']))
        c.ensures('a refused request opens nothing', ('C03',), Implies(Or(cstate(o, cl) != A_, And(Not(sup), r == NULL, FALSE)), n['$nopens'] == o['$nopens']))
        x = bound('x', Ptr)
        c.ensures('an unsupported path opens nothing', ('C03',), Or(n['$nopens'] == o['$nopens'], sup))
        c.ensures('a path that is open is not opened again', ('C04',), forall([x], Implies(And(own(o, x) == h, strv(o, dpath(o, x)) == cp), And(n['$nopens'] == o['$nopens'], Or(r == x, r == NULL))), [own(o, x)]))
        c.ensures('an active client can always reopen a path it holds, if it resolves', ('C04',), TRUE)
        c.ensures('reopening adds exactly one reference', ('C04',), Implies(And(ok, Not(isnew)), dref(n, r) == dref(o, r) + 1))
        c.ensures('a new device has one reference', ('C04',), Implies(And(ok, isnew), dref(n, r) == 1))
        c.ensures('a new device owns a new descriptor', ('C05', 'core'), Implies(And(ok, isnew), And(Not(fd_open(o, dfd(n, r))), kind(o, r) == 0, own(o, r) == NULL)))
        same_where(c, 'seat_device.ref_cnt', lambda k: And(kind(o, k) != 0, Or(k != r, Not(ok))), ('C04', 'core'))
        for f in ('fd', 'device_id', 'active', 'path', 'type'):
            same_where(c, 'seat_device.' + f, lambda k: kind(o, k) != 0, ('C04', 'core'))
        for m in (NEXT, PREV):
            same_where(c, m, lambda k: And(Or(Not(ok), Not(isnew)), Or(own(o, k) != NULL, ishead(o, k))), ('C04', 'core'), 'without a new device the list is unchanged (%s)' % m)
        for m in LIST_MAPS[2:]:
            c.ensures('without a new device the list is unchanged (%s)' % m, ('C04', 'core'), Implies(Or(Not(ok), Not(isnew)), n[m] == o[m]))
        c.ensures('a new device is added', ('C04', 'core'), Implies(And(ok, isnew), And(n['$own'] == Store(o['$own'], r, h), n['$len'] == Store(o['$len'], h, llen(o, h) + 1))))
        list_frame(c, [h], [r])
        for m in ('$kind', '$str', '$pown'):
            same_where(c, m, lambda k: kind(o, k) != 0, ('core', 'C15'))
        c.ensures('nothing stays allocated on failure', ('C15', 'core'), Implies(Not(ok), forall([x], Implies(kind(n, x) != 0, kind(o, x) != 0), [kind(n, x)])))
        c.ensures('only the device and its path are allocated', ('core',), Implies(ok, forall([x], Implies(And(kind(n, x) != 0, kind(o, x) == 0), Or(x == r, x == dpath(n, r))), [kind(n, x)])))
        for m in ('$fd_open', '$fd_owner', '$fd_priv', '$fd_ref', '$fd_path'):
            same_where(c, m, lambda k: fd_open(o, k), ('C05', 'core'))
        c.ensures('failure leaves no descriptor', ('C05', 'core'), forall([f_], Implies(And(fd_open(n, f_), Not(fd_open(o, f_))), And(ok, isnew, f_ == dfd(n, r))), [fd_open(n, f_)]))
        c.set('$byid', If(And(ok, isnew), Store(o['$byid'], h, Store(Select(o['$byid'], h), did(n, r), r)), o['$byid']))
        c.set('$bypath', If(And(ok, isnew), Store(o['$bypath'], h, Store(Select(o['$bypath'], h), cp, r)), o['$bypath']))
        c.inv_post(S.MEM + S.DEVS_INV)
        no_leak(c)
        c.ensures('a failed open reports EPERM for an inactive client', ('C03', 'C13'), Implies(cstate(o, cl) != A_, And(Not(ok), n['$errno'] == 1)))
        c.ensures('a failed open sets an error', ('C03', 'C13', 'core'), Implies(Not(ok), n['$errno'] != 0))
        note_failure(c, Not(ok))

    # ---------------------------------------------------------------- the rest of seat.c
    ACT_MAPS = ('client.state', 'seat.active_client', 'seat_device.active', '$fd_priv', '$fd_ref', '$fd_open', '$fd_owner', '$fd_vt',
                '$vt_gfx', '$vt_kbdoff', '$vt_proc', '$ttyf', '$sendf', '$enabled', '$nev', '$lastev', '$need', '$op', '$unsent', '$es_mask', '$errno')
    CONN_MAPS = ('$nev', '$lastev', '$need', '$op', '$unsent')
    S.ACT_MAPS = ACT_MAPS

    def member(c, cl):
        s = c.old
        c.requires('the client is a member of a seat', ('C15', 'core'), And(kind(s, cseat(s, cl)) == kindno('seat'), own(s, cl) == clients(cseat(s, cl))))

    def conn_frame(c, *cls):
        """connections of other clients are untouched"""
        for m in CONN_MAPS:
            same_where(c, m, lambda k: And([k != conn(x) for x in cls]), ('C07', 'C13', 'core'))
        same_where(c, '$es_mask', lambda k: And([k != esrc(c.old, x) for x in cls]), ('C13', 'C14', 'core'))
        no_silent(c)
    S.conn_frame, S.one_seat_frame, S.dev_frame = conn_frame, None, None

    def dev_frame(c, *cls):
        """devices of other clients keep their state and their privileges"""
        o = c.old
        same_where(c, 'seat_device.active', lambda k: And([own(o, k) != devs(x) for x in cls]), ('C02', 'core'))
        for m in ('$fd_priv', '$fd_ref'):
            same_where(c, m, lambda k: And([fd_open(o, k)] + [own(o, fd_owner(o, k)) != devs(x) for x in cls]), ('C02', 'core'))

    def fds_same(c):
        o, n = c.old, c.new
        c.ensures('the same descriptors are open', ('C05', 'core'), forall([f_], fd_open(n, f_) == fd_open(o, f_), [fd_open(n, f_)]))
        for m in ('$fd_owner', '$fd_vt'):
            same_where(c, m, lambda k: fd_open(o, k), ('C05', 'core'))
        no_leak(c)

    def vt_frame(c, *vts):
        for m in ('$vt_gfx', '$vt_kbdoff', '$vt_proc'):
            same_where(c, m, lambda k: And([k != v for v in vts]), ('C10', 'core'))

    def handover(c, seat, q, cur):
        """the seat, free at this point, is given to the queued client, to the client of the current VT, or to the first one"""
        n = c.new
        a = sactive(n, seat)
        ttyf = n['$ttyf']
        x = bound('x', Ptr)
        TG = ('C08', 'core')
        lists = clients(seat)
        c.ensures('a queued client gets the seat', ('C08', 'C06', 'core'), Implies(q != NULL, Or(a == q, ttyf)))
        c.ensures('the queue is emptied', ('C08', 'C06', 'core'), snext(n, seat) == NULL)
        c.ensures('nobody gets the seat if it has no clients', TG, Implies(And(q == NULL, llen(n, lists) == 0), a == NULL))
        c.ensures('nobody gets a VT-bound seat while the VT is unknown', TG, Implies(And(q == NULL, svt(n, seat), cur == -1), a == NULL))
        c.ensures('a VT-bound seat goes to a client of the current VT only', TG, Implies(And(q == NULL, svt(n, seat), a != NULL), csession(n, a) == cur))
        c.ensures('the client of the current VT gets a VT-bound seat', TG, Implies(And(q == NULL, svt(n, seat), cur != -1), forall([x], Implies(
            And(own(n, x) == lists, csession(n, x) == cur), Or(a == x, ttyf)), [own(n, x)])))
        c.ensures('the first client gets any other seat', TG, Implies(And(q == NULL, Not(svt(n, seat)), llen(n, lists) > 0), Or(a == nxt(n, lists), ttyf)))
        c.ensures('the client given the seat is a member', ('C01', 'C08', 'core'), Implies(a != NULL, own(n, a) == lists))
        c.ensures('the client given the seat is active', ('C01', 'C07', 'C08', 'core'), Implies(a != NULL, cstate(n, a) == A_))
        c.ensures('exactly one event goes to the client given the seat', ('C07', 'C08'), Implies(And(a != NULL, Not(n['$sendf'])), Select(n['$nev'], conn(a)) == Select(c.old['$nev'], conn(a)) + 1))
        c.ensures('the VT of the client given the seat is in graphics mode', ('C10',), Implies(And(a != NULL, svt(n, seat), Not(n['$sendf']), Not(ttyf)), And(
            Select(n['$vt_gfx'], csession(n, a)), Select(n['$vt_kbdoff'], csession(n, a)), Select(n['$vt_proc'], csession(n, a)))))

    def sticky(c):
        for m in ('$ttyf', '$sendf'):
            c.ensures('failure flags are sticky', T, Implies(c.old[m], c.new[m]))

    def one_seat_frame(c, seat):
        same_where(c, 'seat.active_client', lambda k: k != seat, ('C01', 'core'))
        same_where(c, 'seat.next_client', lambda k: k != seat, ('C06', 'core'))

    @S.contract('seat_open_client')
    def open_client(c):
        seat, cl = c.args
        s = c.old
        c.inv(S.SEAT_INV)
        live(c, seat, 'seat')
        live(c, cl)
        c.requires('the client is a member of the seat', ('C15', 'C01', 'core'), And(cseat(s, cl) == seat, own(s, cl) == clients(seat)))
        c.requires('the VT of the client is the current one', ('C08', 'C10'), Implies(svt(s, seat), csession(s, cl) == scur(s, seat)))
        leaving_revoked(c, cl)
        c.modifies(*[m for m in ACT_MAPS if m not in ('client.state', 'seat.active_client', '$enabled')])
        c.modifies_at('client.state', cl)
        c.modifies_at('seat.active_client', seat)
        c.modifies_at('$enabled', cl)
        c.post()
        o, n = c.old, c.new
        ok = c.let('may_open', And(Or(cstate(o, cl) == S.NEW, cstate(o, cl) == S.DISABLED), sactive(o, seat) == NULL))
        opened = And(cstate(n, cl) == A_, sactive(n, seat) == cl)
        same = And(cstate(n, cl) == cstate(o, cl), sactive(n, seat) == sactive(o, seat))
        c.ensures('result is 0 or -1', T, Or(c.ret == 0, c.ret == -1))
        c.ensures('a client that may not open is refused', ('C01', 'C07', 'core'), Implies(Not(ok), And(c.ret == -1, same)))
        c.ensures('a refusal sends no event', ('C07', 'core'), Implies(Not(ok), And(n['$nev'] == o['$nev'], Select(n['$enabled'], cl) == Select(o['$enabled'], cl))))
        c.ensures('a refusal leaves devices and VTs alone', ('C02', 'C10', 'core'), Implies(Not(ok), And([n[m] == o[m] for m in ('$fd_priv', '$fd_ref', 'seat_device.active', '$vt_gfx', '$vt_kbdoff', '$vt_proc', '$fd_open', '$fd_owner')])))
        c.ensures('a client that may open becomes active', ('C07', 'C08', 'core'), Implies(ok, Or(opened, And(same, n['$ttyf'], svt(o, seat)))))
        c.ensures('a client that stays inactive gets no event', ('C07', 'core'), Implies(And(ok, same), And(n['$nev'] == o['$nev'], Not(Select(n['$enabled'], cl)))))
        for m in CONN_MAPS + ('$es_mask',) + ('$fd_priv', '$fd_ref', 'seat_device.active'):
            c.ensures('a client that stays inactive is untouched (%s)' % m, ('C02', 'C07', 'core'), Implies(same, n[m] == o[m]))
        c.ensures('an opened client is told exactly once', ('C07', 'core'), Implies(And(ok, opened, Not(n['$sendf'])), Select(n['$nev'], conn(cl)) == Select(o['$nev'], conn(cl)) + 1))
        c.ensures('success means the client is active', ('C07', 'core'), Implies(c.ret == 0, And(ok, opened)))
        v = csession(o, cl)
        c.ensures('the VT of an opened client is in graphics mode', ('C10', 'core'), Implies(And(c.ret == 0, svt(o, seat)), And(
            Select(n['$vt_gfx'], v), Select(n['$vt_kbdoff'], v), Select(n['$vt_proc'], v))))
        c.ensures('success unless something failed', ('C07', 'core'), Implies(And(ok, Not(n['$ttyf']), Not(n['$sendf'])), c.ret == 0))
        c.ensures('a VT that could not be used is restored', ('C10', 'core'), Implies(And(c.ret == -1, ok, svt(o, seat), Not(n['$ttyf'])), And(
            Not(Select(n['$vt_gfx'], v)), Not(Select(n['$vt_kbdoff'], v)))))
        c.ensures('a seat that is not VT-bound leaves VTs alone', ('C10', 'core'), Implies(Not(svt(o, seat)), And([n[m] == o[m] for m in ('$vt_gfx', '$vt_kbdoff', '$vt_proc', '$ttyf')])))
        vt_frame(c, v)
        dev_frame(c, cl)
        conn_frame(c, cl)
        fds_same(c)
        sticky(c)
        c.inv_post(S.SEAT_INV)

    def leaving_revoked(c, cl):
        pass

    def activating(c, seat):
        """frame of the functions that may hand the seat over"""
        c.modifies(*ACT_MAPS)
        c.modifies_at('seat.next_client', seat)

    def activation_frame(c, seat, *more):
        """who may be touched: the client given the seat (and those named)"""
        o, n = c.old, c.new
        a = sactive(n, seat)
        xs = [a] + list(more)
        gained = And(a != NULL)
        same_where(c, 'client.state', lambda k: And([k != x for x in xs]), ('C01', 'C07', 'core'))
        same_where(c, '$enabled', lambda k: And([k != x for x in xs]), ('C07', 'core'))
        one_seat_frame(c, seat)
        dev_frame(c, *xs)
        conn_frame(c, *xs)

    @S.contract('seat_ack_disable_client')
    def ack_disable(c):
        cl, = c.args
        s = c.old
        c.inv(S.SEAT_INV)
        live(c, cl)
        member(c, cl)
        seat = cseat(s, cl)
        activating(c, seat)
        c.post()
        o, n = c.old, c.new
        ok = c.let('pending', cstate(o, cl) == P_)
        c.ensures('only a client asked to disable may acknowledge', ('C07', 'core'), If(ok, c.ret == 0, And(c.ret == -1, n['$errno'] != 0)))
        note_failure(c, c.ret == -1)
        c.ensures('a refused acknowledgement changes nothing', ('C07', 'C01', 'core'), Implies(Not(ok), And(
            [n[m] == o[m] for m in ACT_MAPS if m != '$errno'] + [snext(n, seat) == snext(o, seat)])))
        c.ensures('the client is disabled unless it is given the seat again', ('C07', 'core'), Implies(ok, If(sactive(n, seat) == cl, cstate(n, cl) == A_, cstate(n, cl) == S.DISABLED)))
        n_ok = [c.let('q', If(ok, snext(o, seat), NULL))]

        class G:
            pass
        g = Guarded(c, ok)
        handover(g, seat, snext(o, seat), scur(o, seat))
        activation_frame(c, seat, cl)
        for m in ('$vt_gfx', '$vt_kbdoff', '$vt_proc'):
            same_where(c, m, lambda k: Or(Not(svt(o, seat)), sactive(n, seat) == NULL, k != csession(o, sactive(n, seat))) if False else Not(And(svt(o, seat), k == scur(o, seat))), ('C10', 'core'))
        fds_same(c)
        sticky(c)
        c.inv_post(S.SEAT_INV)

    @S.contract('seat_remove_client')
    def remove_client(c):
        cl, = c.args
        s = c.old
        c.inv(S.SEAT_INV0 + S.sock_inv(cl))
        live(c, cl)
        member(c, cl)
        seat = cseat(s, cl)
        activating(c, seat)
        modifies_lists(c)
        c.modifies('$kind', 'seat_device.ref_cnt')
        c.modifies_at('client.seat', cl)
        c.post()
        o, n = c.old, c.new
        D = devs(cl)
        was = c.let('was_current', sactive(o, seat) == cl)
        q = c.let('q', If(snext(o, seat) == cl, NULL, snext(o, seat)))
        x = bound('x', Ptr)
        c.set('$enabled', Store(n['$enabled'], cl, FALSE))
        c.ensures('the client is closed and on no seat', ('C07', 'C14', 'core'), And(cstate(n, cl) == S.CLOSED, cseat(n, cl) == NULL))
        c.ensures('the client is taken off the list of the seat', ('C14', 'C15', 'core'), And(own(n, cl) == NULL, ishead(n, cl), llen(n, cl) == 0))
        c.ensures('all devices of the client are closed', ('C05', 'C14', 'core'), And(llen(n, D) == 0, forall([x], Implies(own(o, x) == D, And(own(n, x) == NULL, kind(n, x) == 0)), [own(o, x)])))
        c.ensures('the descriptors of the client are closed, and no others', ('C05', 'C14', 'core'), forall([f_], fd_open(n, f_) == And(fd_open(o, f_), own(o, fd_owner(o, f_)) != D), [fd_open(n, f_)]))
        same_where(c, '$fd_owner', lambda k: And(fd_open(o, k), own(o, fd_owner(o, k)) != D), ('C05', 'core'))
        same_where(c, '$fd_vt', lambda k: fd_open(n, k))
        no_leak(c)
        c.ensures('the client is on no list of members any more', ('C14', 'core'), forall([x], (own(n, x) == clients(seat)) == And(own(o, x) == clients(seat), x != cl), [own(n, x)]))
        same_where(c, '$kind', lambda k: And(own(o, k) != D, own(o, Select(o['$pown'], k)) != D), ('C15', 'core'))
        only_devices_change(c)
        c.ensures('nothing is allocated', ('core',), forall([x], Implies(kind(n, x) != 0, kind(n, x) == kind(o, x)), [kind(n, x)]))
        list_frame(c, [clients(seat), D], [cl])
        g = Guarded(c, was)
        handover(g, seat, q, scur(o, seat))
        c.ensures('a client that did not hold the seat leaves it to its holder', ('C01', 'C08', 'core'), Implies(Not(was), And(
            sactive(n, seat) == sactive(o, seat), snext(n, seat) == q, n['$nev'] == o['$nev'], forall([x], Implies(x != cl, cstate(n, x) == cstate(o, x)), [cstate(n, x)]))))
        c.ensures('the leaving client gets no event', ('C07',), Select(n['$nev'], conn(cl)) == Select(o['$nev'], conn(cl)))
        c.ensures('the leaving client does not hold the seat', ('C01', 'C14', 'core'), sactive(n, seat) != cl)
        same_where(c, 'client.state', lambda k: And(k != cl, k != sactive(n, seat)), ('C01', 'C07', 'core'))
        same_where(c, '$enabled', lambda k: And(k != cl, k != sactive(n, seat)), ('C07', 'core'))
        one_seat_frame(c, seat)
        a = sactive(n, seat)
        same_where(c, 'seat_device.active', lambda k: And(own(o, k) != devs(a), own(o, k) != D), ('C02', 'core'))
        for m in ('$fd_priv', '$fd_ref'):
            same_where(c, m, lambda k: And(fd_open(n, k), own(o, fd_owner(o, k)) != devs(a)), ('C02', 'core'))
        same_where(c, 'seat_device.ref_cnt', lambda k: own(o, k) != D, ('C04', 'core'))
        conn_frame(c, a)
        v = csession(o, cl)
        c.ensures('the VT of the leaving client is restored', ('C10', 'C14'), Implies(And(svt(o, seat), Not(n['$ttyf'])), And(Not(Select(n['$vt_gfx'], v)), Not(Select(n['$vt_kbdoff'], v)))))
        for m in ('$vt_gfx', '$vt_kbdoff', '$vt_proc'):
            same_where(c, m, lambda k: And(Or(Not(svt(o, seat)), k != v), Not(And(svt(o, seat), was, k == scur(o, seat)))), ('C10', 'core'))
        sticky(c)
        c.inv_post(S.SEAT_INV)

    @S.contract('seat_set_next_session')
    def set_next(c):
        cl, session = c.args
        s = c.old
        c.inv(S.SEAT_INV)
        live(c, cl)
        member(c, cl)
        seat = cseat(s, cl)
        c.modifies(*[m for m in ACT_MAPS if m not in ('client.state', 'seat.active_client')])
        c.modifies('$nswitch', '$switch_to')
        c.modifies_at('client.state', cl)
        c.modifies_at('seat.next_client', seat)
        c.post()
        o, n = c.old, c.new
        T6 = ('C06', 'core')
        x = bound('x', Ptr)
        active = cstate(o, cl) == A_
        target = z3.Exists([x], And(own(o, x) == clients(seat), csession(o, x) == session))
        go = c.let('go', And(active, session > 0, session != csession(o, cl), snext(o, seat) == NULL))
        disabled = c.let('disabled', cstate(n, cl) != cstate(o, cl))
        c.ensures('result is 0 or -1', T, Or(c.ret == 0, c.ret == -1))
        c.ensures('only the active client switches', ('C06', 'C01', 'core'), Implies(Not(active), And(c.ret == -1, n['$errno'] == 1)))
        c.ensures('session numbers are positive', T6, Implies(And(active, session <= 0), And(c.ret == -1, n['$errno'] == 22)))
        c.ensures('switching to the own session, or while a switch is queued, changes nothing', T6, Implies(And(active, session > 0, Not(go)), c.ret == 0))
        unchanged = And([cstate(n, cl) == cstate(o, cl), snext(n, seat) == snext(o, seat)] + [n[m] == o[m] for m in ('$nev', '$nswitch', '$fd_priv', '$fd_ref', 'seat_device.active', '$enabled', '$vt_gfx', '$vt_kbdoff', '$vt_proc')])
        c.ensures('a request that does not switch changes nothing', T6, Implies(Not(go), unchanged))
        c.ensures('a VT-bound seat asks the kernel to switch', T6, Implies(And(go, svt(o, seat)), If(n['$nswitch'] == o['$nswitch'], And(Or(n['$ttyf'], scur(o, seat) == -1), c.ret == -1), And(
            n['$nswitch'] == o['$nswitch'] + 1, n['$switch_to'] == session, c.ret == 0, Select(n['$vt_proc'], scur(o, seat))))))
        c.ensures('a VT-bound seat changes no client', T6, Implies(svt(o, seat), And(cstate(n, cl) == cstate(o, cl), snext(n, seat) == snext(o, seat), n['$nev'] == o['$nev'],
                                                                                 n['$fd_priv'] == o['$fd_priv'], n['seat_device.active'] == o['seat_device.active'])))
        c.ensures('another seat switches no VT', T6, Implies(Not(svt(o, seat)), And(n['$nswitch'] == o['$nswitch'], n['$vt_gfx'] == o['$vt_gfx'], n['$vt_kbdoff'] == o['$vt_kbdoff'], n['$vt_proc'] == o['$vt_proc'])))
        c.ensures('the queued client is the one with the session', T6, Implies(And(go, Not(svt(o, seat)), snext(n, seat) != NULL), And(
            own(n, snext(n, seat)) == clients(seat), csession(n, snext(n, seat)) == session, c.ret == 0)))
        c.ensures('a session that exists is queued', T6, Implies(And(go, Not(svt(o, seat))), forall([x], Implies(And(own(o, x) == clients(seat), csession(o, x) == session), And(snext(n, seat) == x, c.ret == 0)), [own(o, x)])))
        c.ensures('a session that does not exist is refused', T6, Implies(And(go, Not(svt(o, seat)), snext(n, seat) == NULL), And(c.ret == -1, n['$errno'] == 22, unchanged)))
        c.ensures('the client is asked to disable when a client is queued', ('C06', 'C07', 'core'), Implies(And(go, Not(svt(o, seat)), snext(n, seat) != NULL), And(
            cstate(n, cl) == P_, Or(n['$sendf'], Select(n['$nev'], conn(cl)) == Select(o['$nev'], conn(cl)) + 1))))
        c.ensures('a failure has a reason', ('C13', 'core'), Implies(c.ret == -1, n['$errno'] != 0))
        note_failure(c, c.ret == -1)
        same_where(c, '$enabled', lambda k: k != cl, ('C07', 'core'))
        vt_proc_only(c)
        dev_frame(c, cl)
        conn_frame(c, cl)
        fds_same(c)
        sticky(c)
        c.inv_post(S.SEAT_INV)

    def vt_proc_only(c):
        for m in ('$vt_gfx', '$vt_kbdoff'):
            c.ensures('console modes are kept (%s)' % m, ('C10', 'core'), c.new[m] == c.old[m])

    @S.contract('seat_vt_activate')
    def vt_activate(c):
        seat, = c.args
        s = c.old
        c.inv(S.SEAT_INV)
        live(c, seat, 'seat')
        activating(c, seat)
        c.modifies('$nacq', '$kvt')
        c.modifies_at('seat.cur_vt', seat)
        c.post()
        o, n = c.old, c.new
        vt = c.let('vt', svt(o, seat))
        free = sactive(o, seat) == NULL
        T9 = ('C09', 'core')
        c.ensures('a seat that is not VT-bound ignores the signal', T9, Implies(Not(vt), And(
            [n[m] == o[m] for m in ACT_MAPS + ('$nacq',)if m != '$errno'] + [snext(n, seat) == snext(o, seat), scur(n, seat) == scur(o, seat)])))
        c.ensures('the acquisition is acknowledged', T9, Implies(vt, Or(n['$nacq'] == o['$nacq'] + 1, And(n['$nacq'] == o['$nacq'], Or(n['$ttyf'], n['$kvt'] == -1)))))
        c.ensures('the current VT is the one the kernel reports', T9, Implies(vt, Or(scur(n, seat) == n['$kvt'], n['$ttyf'])))
        handover(Guarded(c, And(vt, free)), seat, snext(o, seat), scur(n, seat))
        c.ensures('a seat in use keeps its holder', ('C09', 'C01', 'C08', 'core'), Implies(Not(free), And(
            sactive(n, seat) == sactive(o, seat), snext(n, seat) == snext(o, seat), n['client.state'] == o['client.state'], n['$nev'] == o['$nev'])))
        activation_frame(c, seat)
        for m in ('$vt_gfx', '$vt_kbdoff', '$vt_proc'):
            same_where(c, m, lambda k: Not(And(vt, free, k == scur(n, seat))), ('C10', 'core'))
        fds_same(c)
        sticky(c)
        c.inv_post(S.SEAT_INV)

    @S.contract('seat_vt_release')
    def vt_release(c):
        seat, = c.args
        s = c.old
        c.inv(S.SEAT_INV)
        live(c, seat, 'seat')
        c.modifies(*[m for m in ACT_MAPS if m not in ('seat.active_client', '$vt_gfx', '$vt_kbdoff', '$vt_proc')])
        c.modifies('$nrel', '$kvt', '$snap_state', '$snap_priv', '$snap_ref')
        c.modifies_at('seat.cur_vt', seat)
        c.post()
        o, n = c.old, c.new
        vt = c.let('vt', svt(o, seat))
        a = sactive(o, seat)
        T9 = ('C09', 'core')
        x = bound('x', Ptr)
        acked = c.let('acked', n['$nrel'] != o['$nrel'])
        c.ensures('a seat that is not VT-bound ignores the signal', T9, Implies(Not(vt), And(
            [n[m] == o[m] for m in ACT_MAPS + ('$nrel',) if m not in ('$errno', 'seat.active_client')] + [scur(n, seat) == scur(o, seat)])))
        c.ensures('the release is acknowledged once', T9, Implies(vt, Or(n['$nrel'] == o['$nrel'] + 1, And(n['$nrel'] == o['$nrel'], Or(n['$ttyf'], n['$kvt'] == -1)))))
        c.ensures('the current VT becomes unknown', ('C09', 'C08', 'core'), Implies(vt, scur(n, seat) == -1))
        c.ensures('no client of the seat is active when the release is acknowledged', ('C09', 'C01'), Implies(And(vt, acked), forall([x], Implies(own(o, x) == clients(seat), Select(n['$snap_state'], x) != A_), [own(o, x)])))
        c.ensures('the devices of the holder are revoked when the release is acknowledged', ('C09', 'C02'), Implies(And(vt, acked, a != NULL), forall([x], Implies(
            own(o, x) == devs(a), Or(Not(Select(n['$snap_priv'], dfd(o, x))), Select(n['$snap_ref'], dfd(o, x)))), [own(o, x)])))
        c.ensures('an active holder is asked to disable', ('C09', 'C07', 'core'), Implies(And(vt, a != NULL, cstate(o, a) == A_), And(
            cstate(n, a) == P_, Or(n['$sendf'], Select(n['$nev'], conn(a)) == Select(o['$nev'], conn(a)) + 1))))
        c.ensures('a holder that was asked already is not asked again', ('C09', 'C07', 'core'), Implies(And(a != NULL, cstate(o, a) != A_), And(cstate(n, a) == cstate(o, a), n['$nev'] == o['$nev'])))
        same_where(c, 'client.state', lambda k: k != a, ('C01', 'C07', 'core'))
        same_where(c, '$enabled', lambda k: k != a, ('C07', 'core'))
        dev_frame(c, a)
        conn_frame(c, a)
        fds_same(c)
        sticky(c)
        c.inv_post(S.SEAT_INV)

    @S.contract('seat_add_client')
    def add_client(c):
        seat, cl = c.args
        s = c.old
        c.inv(S.SEAT_INV)
        live(c, seat, 'seat')
        live(c, cl)
        c.requires('the client has an event source', ('C14', 'C15', 'core'), esrc(s, cl) != NULL)
        c.requires('the client is on a list', ('C15', 'core'), Or(And(is_sub_of(own(s, cl), IDLE)), And(own(s, cl) == clients(cseat(s, cl)), kind(s, cseat(s, cl)) == kindno('seat'))))
        c.assuming('fewer than INT_MAX sessions are created', scnt(s, seat) < 0x7fffffff)
        modifies_lists(c)
        c.modifies('$errno', '$fd_open', '$fd_owner', '$fd_vt', '$kvt', '$ttyf')
        c.modifies_at('client.session', cl)
        c.modifies_at('client.seat', cl)
        c.modifies_at('seat.session_cnt', seat)
        c.modifies_at('seat.cur_vt', seat)
        c.post()
        o, n = c.old, c.new
        ok = c.ret == 0
        a = sactive(o, seat)
        v = csession(n, cl)
        x = bound('x', Ptr)
        T11 = ('C11', 'core')
        may = c.let('may_join', And(cseat(o, cl) == NULL, csession(o, cl) == -1, Not(And(svt(o, seat), a != NULL, cstate(o, a) != P_))))
        c.ensures('result is 0 or -1', T, Or(c.ret == 0, c.ret == -1))
        c.ensures('a client joins once, and no VT-bound seat in use', ('C11', 'C07', 'core'), Implies(ok, may))
        c.ensures('a seat that is not VT-bound accepts every new client', T11, Implies(And(may, Not(svt(o, seat))), ok))
        c.ensures('a VT-bound seat accepts a client on a free VT', T11, Implies(And(may, svt(o, seat), c.ret == -1), Or(n['$ttyf'], scur(n, seat) == -1, z3.Exists([x], And(own(o, x) == clients(seat), csession(o, x) == scur(n, seat))))))
        c.ensures('the client is a member of the seat', T11, Implies(ok, And(cseat(n, cl) == seat, own(n, cl) == clients(seat))))
        c.ensures('session numbers count up', T11, Implies(And(ok, Not(svt(o, seat))), And(v == scnt(o, seat), scnt(n, seat) == scnt(o, seat) + 1)))
        c.ensures('the session on a VT-bound seat is the current VT', T11, Implies(And(ok, svt(o, seat)), And(v == scur(n, seat), v != -1)))
        c.ensures('the current VT is the one the kernel reports', ('C11', 'C08', 'core'), Implies(And(ok, svt(o, seat)), Or(scur(n, seat) == n['$kvt'], n['$ttyf'])))
        c.ensures('no member has the same session', T11, Implies(ok, forall([x], Implies(own(o, x) == clients(seat), csession(o, x) != v), [own(o, x)])))
        c.ensures('a refused client is unchanged', ('C11', 'C07', 'core'), Implies(Not(ok), And(csession(n, cl) == csession(o, cl), cseat(n, cl) == cseat(o, cl), scnt(n, seat) == scnt(o, seat))))
        c.ensures('a refusal leaves the lists alone', ('C11', 'core'), Implies(Not(ok), And([n[m] == o[m] for m in LIST_MAPS])))
        c.ensures('a refusal has a reason', ('C11',), Implies(Not(ok), n['$errno'] != 0))
        c.ensures('the current VT of a seat that is not VT-bound stays', ('core', 'C11'), Implies(Not(svt(o, seat)), And(scur(n, seat) == scur(o, seat), n['$ttyf'] == o['$ttyf'])))
        c.ensures('the client changes lists', ('core', 'C11'), Implies(ok, n['$own'] == Store(o['$own'], cl, clients(seat))))
        c.ensures('the seat has one client more', ('core', 'C11'), Implies(ok, llen(n, clients(seat)) == llen(o, clients(seat)) + 1))
        list_frame(c, [clients(seat), own(o, cl)], [cl])
        fds_same(c)
        sticky(c)
        c.set('$bysess', If(ok, Store(o['$bysess'], clients(seat), Store(Select(o['$bysess'], clients(seat)), v, cl)), o['$bysess']))
        c.inv_post(S.SEAT_INV)


class Guarded:
    """a contract context under a hypothesis"""
    def __init__(self, c, g):
        self.c, self.g, self.old, self.new, self.ret, self.mode, self.eng = c, g, c.old, c.new, c.ret, c.mode, c.eng

    def ensures(self, name, tags, f):
        self.c.ensures(name, tags, Implies(self.g, f))
