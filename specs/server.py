"""Contracts of server.c and of the creation and destruction of seats."""
from .base import *
from .daemon import *
from .client import *

SIGNALS = {10: 'release', 12: 'acquire', 2: 'stop', 15: 'stop'}
srunning = F('server.running')


def const_of(node, tu):
    """value of a constant expression in the source, or None"""
    k = node.get('kind')
    if k in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr', 'CStyleCastExpr'):
        return const_of(node['inner'][-1], tu)
    if k == 'IntegerLiteral':
        return int(node['value'])
    if k == 'DeclRefExpr':
        return tu.enumnames.get(node.get('referencedDecl', {}).get('name'))
    return None


def function_of(node):
    k = node.get('kind')
    if k in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator', 'CStyleCastExpr'):
        return function_of(node['inner'][0])
    if k == 'DeclRefExpr' and node.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
        return node['referencedDecl']['name']
    return None


def registered(tu):
    """signal number -> functions registered for it with poller_add_signal in this file"""
    out = {}

    def walk(n):
        if n.get('kind') == 'CallExpr':
            inner = n['inner']
            if function_of(inner[0]) == 'poller_add_signal' and len(inner) == 5:
                sg, fn = const_of(inner[2], tu), function_of(inner[3])
                if sg is not None and fn is not None:
                    out.setdefault(sg, [])
                    if fn not in out[sg]:
                        out[sg].append(fn)
        for c in n.get('inner', []) or []:
            if isinstance(c, dict):
                walk(c)
    for f in tu.funcs.values():
        walk(f.body)
    return out


def register_server(S):
    full = S.full_inv
    E = S.enum
    tu = S.prog.tu_by_rel.get('seatd/server.c')
    S.signal_callbacks = registered(tu) if tu else {}
    S.ghost_sorts.update({'$poll_live': PB, '$fl': F32, '$fdfl': F32, '$sigcb': A(BV32, Ptr), '$sigdata': A(BV32, Ptr), '$acceptf': BoolS, '$env_vtbound': Str, '$env_set': BoolS})

    def poller_of(sv):
        return sub(sv, 'server.poller')

    def the_seat(s, sv):
        """the server has the one seat it was created with"""
        q = nxt(s, sub(sv, SEATS))
        return And(srv(s, sv), llen(s, sub(sv, SEATS)) == 1, own(s, q) == sub(sv, SEATS), kind(s, q) == kindno('seat'), strv(s, sname(s, q)) == strconst('seat0'))

    # ------------------------------------------------------------ seats
    @S.contract('seat_create')
    def create(c):
        name, vtb = c.args
        s = c.old
        c.inv(full(c))
        c.requires('the name is valid', ('C15',), name != NULL)
        c.modifies('$kind', '$errno', '$pown', '$str')
        modifies_lists(c)
        for f in ('seat_name', 'active_client', 'next_client', 'vt_bound', 'cur_vt', 'session_cnt'):
            c.modifies('seat.' + f)
        c.post()
        o, r = c.old, c.ret
        ok = r != NULL
        n = c.new
        x = bound('x', Ptr)
        c.ensures('a new seat is allocated', ('C15', 'core'), Implies(ok, And(kind(o, r) == 0, kind(n, r) == kindno('seat'), own(n, r) == NULL, prv(n, r) == NULL, nxt(n, r) == NULL, Not(ishead(n, r)))))
        c.ensures('nothing else is allocated', ('C15', 'core'), forall([x], Implies(And(kind(o, x) == 0, kind(n, x) != 0), And(ok, Or(x == r, x == sname(n, r)))), [kind(n, x)]))
        c.ensures('nothing is freed', ('C15', 'core'), forall([x], Implies(kind(o, x) != 0, kind(n, x) == kind(o, x)), [kind(n, x)]))
        c.ensures('the seat has the name and the mode asked for', ('C08', 'C09', 'C11', 'core'), Implies(ok, And(strv(n, sname(n, r)) == strv(o, name), svt(n, r) == vtb)))
        c.ensures('the seat is empty and free, and its sessions start from the beginning', ('C11', 'C08', 'core'), Implies(ok, And(llen(n, clients(r)) == 0, sactive(n, r) == NULL, snext(n, r) == NULL, scnt(n, r) == 0, scur(n, r) >= -1)))
        for f in ('seat_name', 'active_client', 'next_client', 'vt_bound', 'cur_vt', 'session_cnt'):
            same_where(c, 'seat.' + f, lambda k: kind(o, k) != 0, ('C01', 'core'))
        for m in ('$str', '$pown'):
            same_where(c, m, lambda k: kind(o, k) != 0, ('C15', 'core'))
        for m in LIST_MAPS[:-1]:
            same_where(c, m, lambda k: Or(own(o, k) != NULL, ishead(o, k)), ('C30', 'core'))
        same_where(c, '$own', lambda k: TRUE)
        same_where(c, '$ishead', lambda k: Or(Not(ok), k != clients(r)))
        c.ensures('failure has a reason', ('C26',), Implies(Not(ok), n['$errno'] != 0))
        c.inv_post(full(c))

    def gone(c, members, head):
        """all clients in `members` are destroyed, all others stay"""
        o, n = c.old, c.new

    @S.contract('seat_destroy')
    def destroy(c):
        seat, = c.args
        s = c.old
        c.inv(full(c))
        c.requires('the seat is live', ('C15', 'core'), And(kind(s, seat) == kindno('seat'), in_seats(s, seat)))
        x = bound('x', Ptr)

        def others(o, n):
            return forall([x], Implies(kind(o, x) == kindno('client'), If(own(n, x) == own(o, x), And(kind(n, x) == kindno('client'), cseat(n, x) == cseat(o, x)), And(own(o, x) == clients(seat), own(n, x) == NULL, kind(n, x) == 0))), [own(n, x)])

        def others2(o, n):
            return forall([x], Implies(own(o, x) != clients(seat), own(n, x) != clients(seat)), [own(n, x)])

        def kinds(o, n):
            return forall([x], Implies(And(kind(o, x) != 0, kind(o, x) != kindno('seat_device'), kind(o, x) != kindno('char'), own(o, x) != clients(seat), x != seat), kind(n, x) == kind(o, x)), [kind(n, x)])

        def nonew(o, n):
            return forall([x], Implies(kind(n, x) != 0, kind(n, x) == kind(o, x)), [kind(n, x)])

        def seats(o, n):
            return forall([x], Implies(And(kind(o, x) == kindno('seat'), x != seat), own(n, x) == own(o, x)), [(kind(o, x), own(n, x))])
        c.keeps('clients of other seats stay', ('C14', 'core'), others)
        c.loop_inv('no client joins', others2)
        c.loop_inv('the seat stays', lambda o, n: And(kind(n, seat) == kindno('seat'), own(n, seat) == own(o, seat)))
        c.loop_inv('seats stay', lambda o, n: forall([x], Implies(Or(is_sub_of(x, SEATS), is_sub_of(x, IDLE)), llen(n, x) == llen(o, x)), [llen(n, x)]))
        c.keeps('clients, seats and servers stay', ('C14', 'core'), kinds)
        c.keeps('nothing is allocated', ('C15', 'core'), nonew)
        c.keeps('other seats stay', ('C14', 'core'), seats)
        c.keeps('the lists of servers stay', ('C15', 'core'), S.r_heads)
        c.keeps('no descriptor is leaked', ('C05', 'C14'), S.r_leak)
        c.modifies(*S.ALLM)
        c.modifies('$es_live', 'client.server', 'client.event_source', 'connection.fd')
        c.post()
        o, n = c.old, c.new
        c.ensures('the seat is freed', ('C14', 'C15', 'core'), And(kind(n, seat) == 0, own(n, seat) == NULL))
        c.ensures('its list is one shorter', ('C14', 'core'), llen(n, own(o, seat)) == llen(o, own(o, seat)) - 1)
        c.ensures('all its clients are destroyed', ('C14', 'core'), forall([x], Implies(own(o, x) == clients(seat), kind(n, x) == 0), [own(o, x)]))
        c.ensures('other lists of servers are kept', ('C14', 'core'), forall([x], Implies(And(Or(is_sub_of(x, SEATS), is_sub_of(x, IDLE)), x != own(o, seat)), llen(n, x) == llen(o, x)), [llen(n, x)]))
        c.ensure_kept()
        c.inv_post(full(c))

    def in_seats(s, p):
        return is_sub_of(own(s, p), SEATS)

    # ------------------------------------------------------------ trusted: poller and kernel
    @S.contract('poller_init')
    def pinit(c):
        p, = c.args
        c.requires('the poller is valid', ('C15',), p != NULL)
        c.modifies('$errno')
        c.modifies_at('$poll_live', p)
        c.post()
        c.ensures('', T, Or(c.ret == 0, c.ret == -1))
        c.ensures('', T, Implies(c.ret == -1, c.new['$errno'] != 0))
        c.ensures('', T, Select(c.new['$poll_live'], p) == (c.ret == 0))

    @S.contract('poller_finish')
    def pfinish(c):
        p, = c.args
        s = c.old
        c.requires('the poller is initialised', ('C15', 'C26'), Select(s['$poll_live'], p))
        c.modifies('$errno')
        c.modifies_at('$poll_live', p)
        c.post()
        c.ensures('', T, Not(Select(c.new['$poll_live'], p)))

    @S.contract('poller_add_signal')
    def add_signal(c):
        p, sg, fn, data = c.args
        s = c.old
        c.requires('the poller is initialised', ('C15', 'C19'), Select(s['$poll_live'], p))
        c.requires('the handler is registered with its server', ('C09', 'C19', 'C15'), poller_of(data) == p)
        ok = Or([And(sg == k, Or([fn == c.eng.fnptr(f) for f in S.signal_callbacks.get(k, [])] + [FALSE])) for k in S.signal_callbacks])
        c.requires('the handler was verified for the signal', ('C09', 'C19'), ok)
        c.modifies('$errno', '$sigset', '$sigcb', '$sigdata')
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('', T, Implies(r == NULL, n['$errno'] != 0))
        for m, v in (('$sigset', TRUE), ('$sigcb', fn), ('$sigdata', data)):
            c.ensures('', T, n[m] == If(r == NULL, o[m], Store(o[m], sg, v)))

    @S.contract('getenv')
    def getenv(c):
        nm, = c.args
        s = c.old
        c.requires('the name is valid', ('C15',), nm != NULL)
        c.post()
        r = c.ret
        c.ensures('', T, Implies(strv(s, nm) == strconst('SEATD_VTBOUND'), (r != NULL) == s['$env_set']))
        c.ensures('', T, Implies(And(strv(s, nm) == strconst('SEATD_VTBOUND'), r != NULL), strv(s, r) == s['$env_vtbound']))

    @S.contract('fcntl')
    def fcntl(c):
        fd, cmd = c.args[:2]
        arg = c.args[2] if len(c.args) > 2 else bv32(0)
        s = c.old
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(s, fd))
        c.modifies('$errno', '$fl', '$fdfl')
        c.post()
        o, n, r = c.old, c.new, c.ret
        for get, set_, m in ((1, 2, '$fdfl'), (3, 4, '$fl')):
            c.ensures('', T, Implies(And(cmd == get, r != -1), And(r == Select(o[m], fd), r >= 0)))
            c.ensures('', T, n[m] == If(And(cmd == set_, r != -1), Store(o[m], fd, arg), o[m]))
        c.ensures('', T, Implies(r == -1, n['$errno'] != 0))

    @S.contract('accept')
    def accept(c):
        fd = c.args[0]
        s = c.old
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(s, fd))
        c.modifies('$errno', '$fd_open', '$fd_owner', '$fl', '$fdfl', '$acceptf')
        c.post()
        o, n, r = c.old, c.new, c.ret
        c.ensures('', T, Implies(r != -1, And(r >= 0, Not(fd_open(o, r)))))
        c.ensures('', T, Implies(r == -1, n['$errno'] != 0))
        c.ensures('', T, n['$acceptf'] == (r == -1))
        for m, v in (('$fd_open', TRUE), ('$fd_owner', NULL), ('$fl', bv32(2)), ('$fdfl', bv32(0))):
            c.ensures('', T, n[m] == If(r == -1, o[m], Store(o[m], r, v)))

    @S.contract('shutdown')
    def shutdown(c):
        c.modifies('$errno')
        c.post()

    # ------------------------------------------------------------ server.c
    SEATF = ('seat_name', 'active_client', 'next_client', 'vt_bound', 'cur_vt', 'session_cnt')

    @S.contract('server_init')
    def init(c):
        sv, = c.args
        s = c.old
        c.inv(full(c))
        hs = [sub(sv, SEATS), sub(sv, IDLE)]
        x = bound('x', Ptr)
        c.requires('the server is memory not in use', ('C15', 'core'), And([kind(s, sv) == kindno('server')] + [And(own(s, h) == NULL, Not(ishead(s, h))) for h in hs]))
        c.requires('no object refers to the server', ('core',), forall([x], And([own(s, x) != h for h in hs]), [own(s, x)]))
        c.modifies(*S.ALLM)
        c.modifies('$es_live', 'client.server', 'client.event_source', 'connection.fd', 'seat.seat_name', 'seat.vt_bound', '$sigset', '$sigcb', '$sigdata')
        c.modifies_at('server.running', sv)
        c.modifies_at('$poll_live', poller_of(sv))
        c.post()
        o, n = c.old, c.new
        ok = c.ret == 0
        q = nxt(n, hs[0])
        c.ensures('result is 0 or -1', T, Or(ok, c.ret == -1))
        c.ensures('the server runs', ('C26',), Implies(ok, srunning(n, sv)))
        c.ensures('the server has exactly the seat seat0', ('C26', 'C07', 'C09', 'C23', 'core'), Implies(ok, the_seat(n, sv)))
        c.ensures('the seat is VT-bound unless SEATD_VTBOUND says otherwise', ('C08', 'C09', 'C26'), Implies(ok, svt(n, q) == Or(Not(o['$env_set']), o['$env_vtbound'] == strconst('1'))))
        c.ensures('the seat is empty and free', ('C08', 'C11', 'C26'), Implies(ok, And(llen(n, clients(q)) == 0, sactive(n, q) == NULL, snext(n, q) == NULL, scnt(n, q) == 0)))
        c.ensures('there are no clients yet', ('C26', 'core'), Implies(ok, llen(n, hs[1]) == 0))
        for k, what in SIGNALS.items():
            c.ensures('signal %d is handled with the server' % k, ('C09', 'C19', 'C26'), Implies(ok, And(Select(n['$sigset'], bv32(k)), Select(n['$sigdata'], bv32(k)) == sv)))
        c.ensures('the poller is live exactly on success', ('C26', 'C15'), Select(n['$poll_live'], poller_of(sv)) == ok)
        c.ensures('no other signal is taken', ('C19',), forall([f_], Implies(And([f_ != k for k in SIGNALS]), Select(n['$sigset'], f_) == Select(o['$sigset'], f_)), [Select(n['$sigset'], f_)]))
        c.ensures('a failed start leaves no seat', ('C26', 'C15'), Implies(Not(ok), forall([x], Implies(And(kind(n, x) != 0, kind(o, x) == 0), FALSE), [kind(n, x)])))
        c.ensures('no descriptor is leaked', ('C05',), S.r_leak(o, n))
        c.inv_post(full(c))

    @S.contract('server_finish')
    def finish(c):
        sv, = c.args
        s = c.old
        c.inv(full(c))
        c.requires('the server is initialised', ('C15', 'core'), srv(s, sv))
        c.requires('the poller is initialised', ('C15', 'core', 'C26'), Select(s['$poll_live'], poller_of(sv)))
        x = bound('x', Ptr)
        hs = [sub(sv, SEATS), sub(sv, IDLE)]

        def nonew(o, n):
            return forall([x], Implies(kind(n, x) != 0, kind(n, x) == kind(o, x)), [kind(n, x)])

        def freed(o, n):
            return forall([x], Implies(Or([own(o, x) == h for h in hs]), Or(own(n, x) == own(o, x), And(own(n, x) == NULL, kind(n, x) == 0))), [own(n, x), own(o, x)])

        def members(o, n):
            # a client of a seat of this server goes with the seat
            q = Ptr.sbase(own(o, x))
            return forall([x], Implies(And(is_sub_of(own(o, x), CLIENTS), own(o, q) == hs[0], kind(n, q) == 0), kind(n, x) == 0), [own(o, x)])
        c.keeps('nothing is allocated', ('C15', 'core'), nonew)
        c.loop_inv('seats and clients stay or are freed', freed)
        c.loop_inv('no client is left without its seat', members)
        c.loop_inv('the server stays', lambda o, n: And(srv(n, sv), Select(n['$poll_live'], poller_of(sv))))
        c.loop_inv('idle clients do not come back', lambda o, n: llen(n, hs[1]) == 0)
        c.keeps('no descriptor is leaked', ('C05', 'C14'), S.r_leak)
        c.modifies(*S.ALLM)
        c.modifies('$es_live', 'client.server', 'client.event_source', 'connection.fd')
        c.modifies_at('$poll_live', poller_of(sv))
        c.post()
        o, n = c.old, c.new
        c.ensures('no seat and no client is left', ('C14', 'C26', 'core'), And([llen(n, h) == 0 for h in hs]))
        c.ensures('all seats and idle clients are freed', ('C14', 'C26', 'core'), forall([x], Implies(Or([own(o, x) == h for h in hs]), kind(n, x) == 0), [own(o, x)]))
        c.ensures('the poller is finished', ('C26', 'core'), Not(Select(n['$poll_live'], poller_of(sv))))
        c.ensure_kept()
        c.inv_post(full(c))

    @S.contract('server_get_seat')
    def get_seat(c):
        sv, nm = c.args
        s = c.old
        c.inv(S.MEM + S.SESS)
        c.requires('the server is initialised', ('C15', 'core'), srv(s, sv))
        c.requires('the name is valid', ('C15', 'core'), nm != NULL)
        c.post()
        r = c.ret
        x = bound('x', Ptr)
        h = sub(sv, SEATS)
        c.ensures('a found seat belongs to the server and has the name', ('C07', 'C09', 'C23', 'core'), Implies(r != NULL, And(own(s, r) == h, strv(s, sname(s, r)) == strv(s, nm))))
        c.ensures('nothing is found only if no seat has the name', ('C07', 'C09', 'C23', 'core'), Implies(r == NULL, forall([x], Implies(own(s, x) == h, strv(s, sname(s, x)) != strv(s, nm)), [own(s, x)])))

    @S.contract('server_add_client')
    def add_client(c):
        sv, fd = c.args
        s = c.old
        c.inv(full(c))
        c.requires('the server is initialised', ('C15', 'core'), srv(s, sv))
        c.requires('the socket is open and free', ('C05', 'core'), And(fd >= 0, fd_open(s, fd), fd_owner(s, fd) == NULL))
        added(c, sv, fd)

    def added(c, sv, fd, accepted=False):
        c.modifies(*S.ALLM)
        c.modifies('$left', '$es_live', '$es_data', '$es_cb', '$es_mask', '$es_fd', '$fl', '$fdfl', 'client.server', 'client.event_source', 'client.uid', 'client.gid', 'client.pid',
                   'connection.fd', 'connection.want_flush', 'connection_buffer.head', 'connection_buffer.tail')
        if accepted:
            c.modifies('$acceptf')
        c.post()
        o, n = c.old, c.new
        x = bound('x', Ptr)
        h = sub(sv, IDLE)
        added_ = llen(n, h) == llen(o, h) + 1
        nw = prv(n, h)
        ok = c.ret == 0
        c.ensures('result is 0 or -1', T, Or(ok, c.ret == -1))
        if not accepted:
            c.ensures('on success there is one idle client more', ('C14', 'core'), Implies(ok, And(added_, kind(n, nw) == kindno('client'), own(n, nw) == h)) if False else Implies(ok, added_))
            c.ensures('on success the socket belongs to a new client', ('C05', 'C14', 'core'), Implies(ok, And(fd_open(n, fd), newclient(c, sv, fd))))
            c.ensures('the socket is non-blocking and closed on exec', ('C05', 'C14', 'C15'), Implies(ok, And((Select(n['$fl'], fd) & 0o4000) != 0, (Select(n['$fdfl'], fd) & 1) != 0, (Select(n['$fl'], fd) | 0o4000) == (Select(o['$fl'], fd) | 0o4000))))
            c.ensures('on failure the socket is closed', ('C05', 'core'), Implies(Not(ok), Not(fd_open(n, fd))))
            c.ensures('on failure there is no new client', ('C14', 'core'), Implies(Not(ok), And(llen(n, h) == llen(o, h), forall([x], Implies(kind(n, x) == kindno('client'), kind(o, x) == kindno('client')), [kind(n, x)]))))
            c.ensures('no other descriptor is touched', ('C05', 'core'), forall([f_], Implies(f_ != fd, And(fd_open(n, f_) == fd_open(o, f_))), [fd_open(n, f_)]))
            same_where(c, '$fd_owner', lambda k: And(k != fd, fd_open(o, k)), ('C05', 'core'))
            for m in ('$fl', '$fdfl'):
                same_where(c, m, lambda k: k != fd, ('C05', 'core'))
        kept(c)
        c.inv_post(full(c))

    def newclient(c, sv, fd):
        """the descriptor belongs to a client that was not there before"""
        o, n = c.old, c.new
        cn = fd_owner(n, fd)
        cl = Ptr.sbase(cn)
        e = esrc(n, cl)
        return And(cn == conn(cl), kind(o, cl) != kindno('client'), kind(n, cl) == kindno('client'), own(n, cl) == sub(sv, IDLE), cserver(n, cl) == sv, cstate(n, cl) == S.NEW, csession(n, cl) == -1,
                   cfd(n, cn) == fd, e != NULL, es_live(n, e), es_data(n, e) == cl, es_cb(n, e) == c.eng.fnptr('client_handle_connection'), Select(n['$es_fd'], e) == fd)

    def kept(c):
        """existing clients, seats and servers are not affected"""
        o, n = c.old, c.new
        x = bound('x', Ptr)
        c.ensures('existing clients stay as they are', ('C14', 'C01', 'C07', 'core'), forall([x], Implies(kind(o, x) == kindno('client'), And(
            kind(n, x) == kindno('client'), own(n, x) == own(o, x), cstate(n, x) == cstate(o, x), cseat(n, x) == cseat(o, x), csession(n, x) == csession(o, x), Select(n['$nev'], conn(x)) == Select(o['$nev'], conn(x)))), [(kind(o, x), own(n, x)), (kind(o, x), cstate(n, x))]))
        c.ensures('seats keep their holder', ('C01', 'core'), forall([x], Implies(kind(o, x) == kindno('seat'), And(kind(n, x) == kindno('seat'), sactive(n, x) == sactive(o, x), snext(n, x) == snext(o, x))), [(kind(o, x), sactive(n, x))]))
        c.ensures('seats stay on their server', ('C14', 'core'), S.r_seats(o, n))
        c.ensures('the lists of servers stay', ('C15', 'core'), S.r_heads(o, n))
        c.ensures('no descriptor is leaked', ('C05',), S.r_leak(o, n))

    @S.contract('server_handle_connection')
    def handle(c):
        fd, mk, sv = c.args
        s = c.old
        c.inv(full(c))
        c.requires('the data of the event source is the server', ('C15', 'core'), srv(s, sv))
        c.requires('the listening socket is open', ('C05', 'core'), And(fd >= 0, fd_open(s, fd)))
        c.modifies_at('server.running', sv)
        added(c, sv, fd, True)
        o, n = c.old, c.new
        bad = (mk & (8 | 16)) != 0
        x = bound('x', Ptr)
        h = sub(sv, IDLE)
        TT = ('C14', 'C18', 'C26')
        c.ensures('an error on the listening socket stops the server', TT, srunning(n, sv) == And(srunning(o, sv), Not(bad)))
        c.ensures('and nothing else does', TT, (c.ret == -1) == bad)
        same = And([n[m] == o[m] for m in ('$kind', '$fd_open', '$own', '$es_live')])
        c.ensures('without a new connection nothing changes', ('C14', 'C05', 'core'), Implies(Or(bad, (mk & 1) == 0), same))
        c.ensures('a failed accept changes nothing', ('C14', 'C05'), Implies(And(Not(bad), n['$acceptf']), same) if c.mode == 'exit' else TRUE)
        c.ensures('the listening socket stays open', ('C05', 'C14', 'core'), fd_open(n, fd))
        c.ensures('at most one client is added', ('C14',), Or(llen(n, h) == llen(o, h), llen(n, h) == llen(o, h) + 1))
        c.ensures('a new descriptor belongs to a new client', ('C05', 'C14'), forall([f_], Implies(And(fd_open(n, f_), Not(fd_open(o, f_))), newclient(c, sv, f_)), [fd_open(n, f_)]))

    # ------------------------------------------------------------ signals
    byfn = {}
    for k, fns in S.signal_callbacks.items():
        for f in fns:
            byfn.setdefault(f, []).append(k)
    for f, ks in byfn.items():
        @S.contract(f, rel='seatd/server.c', sig=('int', 'void *'))
        def cb(c, ks=ks):
            sg, sv = c.args
            s = c.old
            c.inv(full(c))
            c.requires('the signal is one it is registered for', ('C19', 'core'), Or([sg == k for k in ks]))
            c.requires('the data is the server', ('C15', 'core'), the_seat(s, sv))
            seat = nxt(s, sub(sv, SEATS))
            c.modifies(*S.ACT_MAPS)
            c.modifies_at('seat.next_client', seat)
            c.modifies_at('seat.cur_vt', seat)
            c.modifies('$nacq', '$nrel', '$kvt', '$snap_state', '$snap_priv', '$snap_ref')
            c.modifies_at('server.running', sv)
            c.post()
            o, n = c.old, c.new
            what = {w: Or([sg == k for k in ks if SIGNALS.get(k) == w] + [FALSE]) for w in ('release', 'acquire', 'stop')}
            vt, a = svt(o, seat), sactive(o, seat)
            T9 = ('C09',)
            x = bound('x', Ptr)
            quiet = And([n[m] == o[m] for m in S.ACT_MAPS + ('$nacq', '$nrel') if m != '$errno'] + [snext(n, seat) == snext(o, seat), scur(n, seat) == scur(o, seat)])
            c.ensures('terminating signals stop the server, others do not', ('C19', 'C26'), srunning(n, sv) == And(srunning(o, sv), Not(what['stop'])))
            c.ensures('terminating signals do nothing else', ('C09', 'C19'), Implies(what['stop'], quiet))
            c.ensures('signals do nothing on a seat that is not VT-bound', T9, Implies(Not(vt), quiet))
            acked = n['$nrel'] != o['$nrel']
            R = And(what['release'], vt)
            c.ensures('the release is acknowledged once', T9, Implies(R, And(n['$nacq'] == o['$nacq'], Or(n['$nrel'] == o['$nrel'] + 1, And(Not(acked), Or(n['$ttyf'], n['$kvt'] == -1))))))
            c.ensures('the current VT becomes unknown', ('C09', 'C08'), Implies(R, scur(n, seat) == -1))
            c.ensures('no client is active when the release is acknowledged', ('C09', 'C01'), Implies(And(R, acked), forall([x], Implies(own(o, x) == clients(seat), Select(n['$snap_state'], x) != S.ACTIVE), [own(o, x)])))
            c.ensures('the devices of the holder are revoked when the release is acknowledged', ('C09', 'C02'), Implies(And(R, acked, a != NULL), forall([x], Implies(
                own(o, x) == devs(a), Or(Not(Select(n['$snap_priv'], dfd(o, x))), Select(n['$snap_ref'], dfd(o, x)))), [own(o, x)])))
            c.ensures('an active holder is asked to disable', ('C09', 'C07'), Implies(And(R, a != NULL, cstate(o, a) == S.ACTIVE), And(cstate(n, a) == S.PENDING, Or(n['$sendf'], Select(n['$nev'], conn(a)) == Select(o['$nev'], conn(a)) + 1))))
            Q = And(what['acquire'], vt)
            b = sactive(n, seat)
            c.ensures('the acquisition is acknowledged once', T9, Implies(Q, And(n['$nrel'] == o['$nrel'], Or(n['$nacq'] == o['$nacq'] + 1, And(n['$nacq'] == o['$nacq'], Or(n['$ttyf'], n['$kvt'] == -1))))))
            c.ensures('the current VT is the one the kernel reports', T9, Implies(Q, Or(scur(n, seat) == n['$kvt'], n['$ttyf'])))
            c.ensures('a seat in use keeps its holder', ('C09', 'C01'), Implies(And(Q, a != NULL), And(b == a, n['client.state'] == o['client.state'])))
            c.ensures('a free seat goes to the client of the current VT', ('C09', 'C08'), Implies(And(Q, a == NULL, snext(o, seat) == NULL, scur(n, seat) != -1), forall([x], Implies(
                And(own(o, x) == clients(seat), csession(o, x) == scur(n, seat)), Or(b == x, n['$ttyf'])), [own(o, x)])))
            c.ensures('the holder is a client of the current VT', ('C09', 'C08', 'C01'), Implies(And(Q, a == NULL, b != NULL, snext(o, seat) == NULL), And(csession(o, b) == scur(n, seat), own(n, b) == clients(seat), cstate(n, b) == S.ACTIVE)))
            c.ensures('the seat is released by a release only', ('C09', 'C01'), Implies(Not(Q), b == a))
            c.inv_post(full(c))

    find0 = S.find_function

    def find(name):
        rel, _, nm = name.partition(':')
        if nm.startswith('@signal'):
            fns = S.signal_callbacks.get(int(nm[7:]), [])
            return tu.funcs.get(fns[0]) if len(fns) == 1 else None
        return find0(name)
    S.find_function = find
