"""Contracts of client.c and server.c, and of the connection layer they use (as messages)."""
from .base import *
from .daemon import *
from . import daemon as D_

slen = z3.Function('string_length', Str, BV64)
HDR = bv64(4)
SERVER_ = {1: 0x8001, 2: 0x8002, 3: 0x8003, 4: 0x8004, 5: 0x8009, 6: 0x8008, 7: 0x8007}
ERR = 0xFFFF
MSG_GHOSTS = ('$need', '$op', '$unsent', '$debt', '$left', '$lastop', '$lastval', '$fdq', '$lastfd', '$fdsq', '$wfail')


def b16(v): return z3.BitVecVal(v, 16)


def G(name):
    return lambda s, p: Select(s[name], p)


need, left, debt, unsent, inlen, reqop, lastop, lastval, fdq, wfail = (G('$' + x) for x in ('need', 'left', 'debt', 'unsent', 'inlen', 'reqop', 'lastop', 'lastval', 'fdq', 'wfail'))
es_live, es_data, es_cb = G('$es_live'), G('$es_data'), G('$es_cb')


def srv(s, p):
    return And(p != NULL, kind(s, p) == kindno('server'), ishead(s, sub(p, SEATS)), ishead(s, sub(p, IDLE)))


def listed(s, c):
    return Or(in_seat(s, c), in_idle(s, c))


def top(c):
    return c.eng.inline_stack[0][1] if c.eng.inline_stack else ''


def pointee(c, i):
    """type of the object an argument points to, before its conversion to void *"""
    t = arg_struct(c.call, i)
    if t.is_ptr:
        return t.to, False
    return t, True


def sizeof(c, t):
    return c.eng.frames[-1].fdef.tu.types.sizeof(t)


def field_of(c, p, rec, name):
    return Select(c.st[rec + '.' + name], p)


def register_client(S):
    A_, P_ = S.ACTIVE, S.PENDING
    n = n_
    S.ghost_sorts.update({'$wfail': PB, '$taken': A(Ptr, BV64), '$failno': BV32})
    CB = 'client_handle_connection'

    def cbptr(c):
        return c.eng.fnptr(CB)

    # ------------------------------------------------------------ invariants between events
    def msg(exc):
        def f(s):
            g = kind(s, n) == kindno('client')
            if exc is not None:
                g = And(g, n != exc)
            return forall([n], Implies(g, And(left(s, conn(n)) == 0, debt(s, conn(n)) == 0, need(s, conn(n)) == 0, Not(fdq(s, conn(n))))), [(kind(s, n), left(s, conn(n))), (kind(s, n), debt(s, conn(n))), (kind(s, n), need(s, conn(n))), (kind(s, n), fdq(s, conn(n)))])
        return [('between events every client is at a message boundary and has been answered', ('C12', 'C13', 'core'), f)]

    def mask(exc):
        def f(s):
            g = kind(s, n) == kindno('client')
            if exc is not None:
                g = And(g, n != exc)
            return forall([n], Implies(And(g, unsent(s, conn(n))), And(esrc(s, n) != NULL, (Select(s['$es_mask'], esrc(s, n)) & 4) != 0)), [(kind(s, n), unsent(s, conn(n)))])
        return [('output that could not be sent waits for the socket to become writable', ('C13', 'core'), f)]

    def cs(exc):
        def f(s):
            g = kind(s, n) == kindno('client')
            if exc is not None:
                g = And(g, n != exc)
            return forall([n], Implies(g, And(srv(s, cserver(s, n)), Or(own(s, n) == clients(cseat(s, n)), And(in_idle(s, n), own(s, n) == sub(cserver(s, n), IDLE))))), [(kind(s, n), cserver(s, n)), (kind(s, n), own(s, n))])
        return [('every client is listed by its seat or as idle client of its server', ('C14', 'C15', 'core'), f)]

    S.es_client_cb = lambda c: cbptr(c)

    def es2(cb, exc=None):
        def f(s):
            d = es_data(s, n)
            g = And(es_live(s, n), es_cb(s, n) == cb)
            return forall([n], Implies(g, And(n != NULL, kind(s, d) == kindno('client'), esrc(s, d) == n)), [(es_live(s, n), es_data(s, n))])
        return [('the callback data of a live event source of a client is that client', ('C14', 'C15', 'core'), f)]

    def full(c, exc=None):
        return S.SEAT_INV0 + S.RES() + S.NEED(exc) + msg(exc) + mask(exc) + cs(exc) + es2(cbptr(c))
    S.full_inv = full

    # ------------------------------------------------------------ the connection layer (verified in connection.c)
    @S.contract('connection_put')
    def put(c):
        cn, data, count = c.args
        s, eng = c.old, c.eng
        t, isarr = pointee(c, 1)
        rec = eng.recname(t) if t.is_rec else None
        tp = top(c)
        event = b16(0)
        c.requires('the data is valid', ('C15', 'core'), data != NULL)
        if rec is not None:
            c.requires('no more than the object is written', ('C13', 'C15'), z3.ULE(count, bv64(sizeof(c, t))))
        opc = None
        if rec == 'proto_header':
            opc, size = field_of(c, data, rec, 'opcode'), field_of(c, data, rec, 'size')
            ev = Or(opc == 0x8005, opc == 0x8006)
            r = reqop(s, cn)
            c.requires('a header does not interrupt another message', ('C13',), need(s, cn) == 0)
            c.requires('a whole header is written', ('C13',), count == HDR)
            if tp.startswith('client_send_'):
                c.requires('the event is of the kind asked for', ('C07', 'C13'), opc == (0x8006 if 'enable' in tp else 0x8005))
                c.requires('events have no payload', ('C13',), size == 0)
            else:
                c.requires('a response answers a request that is not answered yet', ('C13',), debt(s, cn) == 1)
                c.requires('the request was consumed before it is answered', ('C12', 'C13'), left(s, cn) == 0)
                c.requires('the response matches the request', ('C13',), Or([And(r == k, opc == v) for k, v in SERVER_.items()] + [
                    And(opc == ERR, Or(r == 3, r == 4, r == 5, r == 6))]))
                c.requires('an error has an error code as payload', ('C13',), Implies(Or(opc == ERR, opc == 0x8003), size == 4))
                c.requires('a descriptor goes with device-opened, and only with it', ('C13', 'C05'), fdq(s, cn) == (opc == 0x8003))
        else:
            c.requires('the payload fits what the header announced', ('C13',), z3.ULE(count, need(s, cn)))
            c.requires('the payload is not empty', ('C13',), count != 0)
            if rec == 'proto_server_error':
                c.requires('the payload matches the header (error)', ('C13',), And(Select(s['$op'], cn) == ERR, count == 4))
                c.requires('the error code is an error', ('C13',), field_of(c, data, rec, 'error_code') != 0)
                c.requires('the error code is the errno of the failure', ('C13',), Or(s['$failno'] == 0, field_of(c, data, rec, 'error_code') == s['$failno']))
            elif rec == 'proto_server_device_opened':
                d = fd_owner(s, Select(s['$fd_dup'], Select(s['$lastfd'], cn)))
                cl = Ptr.sbase(cn)
                c.requires('the payload matches the header (device)', ('C13',), And(Select(s['$op'], cn) == 0x8003, count == 4))
                c.requires('the id is that of the device whose descriptor is sent', ('C13', 'C04'), And(own(s, d) == devs(cl), did(s, d) == field_of(c, data, rec, 'device_id')))
            elif rec == 'proto_server_seat_opened':
                c.requires('the payload matches the header (seat)', ('C13',), And(Select(s['$op'], cn) == 0x8001, count == 2))
                c.requires('the announced name length is what remains', ('C13',), z3.ZeroExt(48, field_of(c, data, rec, 'seat_name_len')) == need(s, cn) - 2)
            else:
                c.requires('the payload matches the header (name)', ('C13',), Select(s['$op'], cn) == 0x8001)
                c.requires('exactly the terminated string is written', ('C13', 'C15'), count == slen(strv(s, data)) + 1)
        for m in ('$need', '$op', '$unsent', '$debt', '$lastop', '$lastval', '$fdq', '$wfail', '$nev', '$lastev'):
            c.modifies_at(m, cn)
        c.modifies('$errno')
        c.post()
        o, nn = c.old, c.new
        ok = c.ret != -1
        c.ensures('', T, Or(c.ret == 0, c.ret == -1))
        c.ensures('', T, Implies(Not(ok), nn['$errno'] != 0))
        c.ensures('', T, unsent(nn, cn) == Or(ok, unsent(o, cn)))
        if tp.startswith('client_send_'):
            c.ensures('', T, wfail(nn, cn) == wfail(o, cn))
        else:
            c.ensures('', T, wfail(nn, cn) == Or(wfail(o, cn), Not(ok)))
        if rec == 'proto_header':
            if tp.startswith('client_send_'):
                vals = dict([('$need', z3.ZeroExt(48, size)), ('$op', opc), ('$debt', debt(o, cn)), ('$lastop', lastop(o, cn)), ('$lastval', lastval(o, cn)), ('$fdq', fdq(o, cn)), ('$nev', Select(o['$nev'], cn) + 1), ('$lastev', opc)])
            else:
                vals = dict([('$need', z3.ZeroExt(48, size)), ('$op', opc), ('$debt', debt(o, cn) - 1), ('$lastop', opc), ('$lastval', lastval(o, cn)), ('$fdq', FALSE), ('$nev', Select(o['$nev'], cn)), ('$lastev', Select(o['$lastev'], cn))])
        else:
            lv = lastval(o, cn)
            if rec == 'proto_server_error':
                lv = field_of(c, data, rec, 'error_code')
            elif rec == 'proto_server_device_opened':
                lv = field_of(c, data, rec, 'device_id')
            vals = dict([('$need', need(o, cn) - count), ('$op', Select(o['$op'], cn)), ('$debt', debt(o, cn)), ('$lastop', lastop(o, cn)), ('$lastval', lv), ('$fdq', fdq(o, cn)), ('$nev', Select(o['$nev'], cn)), ('$lastev', Select(o['$lastev'], cn))])
        for m, v in vals.items():
            c.ensures('', T, Select(nn[m], cn) == If(ok, v, Select(o[m], cn)))

    @S.contract('connection_put_fd')
    def put_fd(c):
        cn, fd = c.args
        s = c.old
        c.requires('the descriptor is open and nobody else closes it', ('C05',), And(fd_open(s, fd), fd_owner(s, fd) == NULL))
        c.requires('one descriptor is queued for a response', ('C13',), Not(fdq(s, cn)))
        c.requires('descriptors answer an open-device request', ('C13',), And(reqop(s, cn) == 3, debt(s, cn) == 1))
        for m in ('$fdq', '$lastfd', '$fdsq', '$wfail'):
            c.modifies_at(m, cn)
        c.modifies('$errno')
        c.modifies_at('$fd_open', fd)
        c.modifies_at('$fd_owner', fd)
        c.post()
        o, nn = c.old, c.new
        ok = c.ret != -1
        c.ensures('', T, Or(c.ret == 0, c.ret == -1))
        c.ensures('', T, fd_open(nn, fd) == Not(ok))
        c.ensures('', T, fd_owner(nn, fd) == NULL)
        c.ensures('', T, Select(nn['$lastfd'], cn) == If(ok, fd, Select(o['$lastfd'], cn)))
        c.ensures('', T, fdq(nn, cn) == ok)
        c.ensures('', T, Select(nn['$fdsq'], cn) == Or(ok, Select(o['$fdsq'], cn)))
        c.ensures('', T, wfail(nn, cn) == Or(wfail(o, cn), Not(ok)))

    @S.contract('connection_flush')
    def flush(c):
        cn, = c.args
        for m in ('$unsent', '$wfail'):
            c.modifies_at(m, cn)
        c.modifies('$errno')
        c.post()
        o, nn = c.old, c.new
        bad = And(c.ret == -1, nn['$errno'] != 11)
        c.ensures('', T, c.ret >= -1)
        c.ensures('', T, Implies(c.ret == -1, nn['$errno'] != 0))
        c.ensures('', T, unsent(nn, cn) == And(unsent(o, cn), c.ret == -1, nn['$errno'] == 11))
        c.ensures('', T, wfail(nn, cn) == (wfail(o, cn) if top(c).startswith('client_send_') else Or(wfail(o, cn), bad)))

    @S.contract('connection_read')
    def read(c):
        cn, = c.args
        c.requires('the input is at a message boundary', ('C12',), left(c.old, cn) == 0)
        for m in ('$inlen', '$stuck', '$taken', '$fdsq', '$eof'):
            c.modifies_at(m, cn)
        c.modifies('$errno')
        c.post()
        o, nn = c.old, c.new
        c.ensures('', T, And(c.ret >= -1, c.ret <= 256))
        c.ensures('', T, inlen(nn, cn) == If(c.ret > 0, c.ret, inlen(o, cn)))
        c.ensures('', T, Select(nn['$taken'], cn) == 0)
        c.ensures('', T, And(Select(nn['$fdsq'], cn), Not(Select(nn['$stuck'], cn))))
        c.ensures('', T, Select(nn['$eof'], cn) == Or(c.ret == 0, And(c.ret == -1, nn['$errno'] != 11)))
        c.ensures('', T, Implies(c.ret == -1, nn['$errno'] != 0))

    @S.contract('connection_pending')
    def pending(c):
        cn, = c.args
        c.post()
        c.ensures('', T, c.ret == z3.ZeroExt(32, inlen(c.old, cn)))

    @S.contract('connection_get')
    def get(c):
        cn, dst, count = c.args
        s, eng = c.old, c.eng
        t, isarr = pointee(c, 1)
        size = sizeof(c, t) if (t.is_rec or t.is_arr) else None
        rec = eng.recname(t) if t.is_rec else None
        if size is None:
            raise ExtractError('connection_get into an object of unknown size')
        c.requires('the destination is large enough', ('C12', 'C15'), z3.ULE(count, bv64(size)))
        if rec == 'proto_header':
            c.requires('a header is only taken at a message boundary', ('C12',), left(s, cn) == 0)
            c.requires('a whole header is taken', ('C12',), count == HDR)
            c.requires('the previous request was answered', ('C13',), debt(s, cn) == 0)
        else:
            c.requires('payload is taken from the current message only', ('C12',), z3.ULE(count, left(s, cn)))
            c.requires('the whole message has arrived', ('C12',), z3.ULE(left(s, cn), z3.ZeroExt(32, inlen(s, cn))))
            if rec is not None:
                c.requires('a whole structure is taken', ('C12',), count == sizeof(c, t))
        for m in ('$inlen', '$left', '$hsize', '$taken', '$stuck', '$reqop', '$debt', '$msgint', '$msgstr'):
            c.modifies_at(m, cn)
        c.modifies('$errno')
        c.post()
        o, nn, st = c.old, c.new, c.st
        n32 = z3.Extract(31, 0, count)
        ok = z3.ULE(count, z3.ZeroExt(32, inlen(o, cn)))
        c.ensures('', T, c.ret == If(ok, n32, bv32(-1)))
        c.ensures('', T, Implies(Not(ok), nn['$errno'] == 11))
        c.ensures('', T, inlen(nn, cn) == If(ok, inlen(o, cn) - n32, inlen(o, cn)))
        c.ensures('', T, Select(nn['$taken'], cn) == If(ok, count, Select(o['$taken'], cn)))
        if rec == 'proto_header':
            eng.touch('$failno')
            eng.nonlocal_writes.add('$failno')
            st['$failno'] = bv32(0)
        same = lambda m: Select(o[m], cn)
        vals = {m: same(m) for m in ('$left', '$hsize', '$reqop', '$debt', '$msgint', '$msgstr', '$stuck')}
        if rec is not None:
            for lv in eng.leaves(dst, t):
                eng.write(lv, If(ok, fresh('msg', eng.sort_of(lv[-1])), eng.read(lv, st)), st)
        if rec == 'proto_header':
            opc, sz = field_of(c, dst, rec, 'opcode'), z3.ZeroExt(48, field_of(c, dst, rec, 'size'))
            vals.update({'$left': sz, '$hsize': sz, '$reqop': opc, '$debt': same('$debt') + 1, '$stuck': FALSE})
            vals_fail = {'$stuck': TRUE}
        else:
            vals['$left'] = same('$left') - count
            vals_fail = {}
            if rec == 'proto_client_close_device':
                vals['$msgint'] = field_of(c, dst, rec, 'device_id')
            elif rec == 'proto_client_switch_session':
                vals['$msgint'] = field_of(c, dst, rec, 'session')
            elif rec is None:
                m_ = fresh('text', Str)
                for mp, v in (('$str', m_), ('$term', z3.ULT(slen(m_), count)), ('$got', count)):
                    eng.touch(mp)
                    eng.note_write(mp, dst)
                    st[mp] = Store(st[mp], dst, If(ok, v, Select(st[mp], dst)))
                vals['$msgstr'] = m_
        for m, v in vals.items():
            c.ensures('', T, Select(nn[m], cn) == If(ok, v, vals_fail.get(m, same(m))))

    @S.contract('connection_restore')
    def restore(c):
        cn, count = c.args
        s = c.old
        c.requires('exactly the header is put back, of a message that is incomplete', ('C12',), And(
            count == HDR, left(s, cn) == Select(s['$hsize'], cn), z3.ULT(z3.ZeroExt(32, inlen(s, cn)), left(s, cn)), debt(s, cn) == 1))
        c.requires('only bytes that were taken are put back', ('C12', 'C16'), z3.ULE(count, Select(s['$taken'], cn)))
        for m in ('$inlen', '$left', '$taken', '$debt', '$stuck'):
            c.modifies_at(m, cn)
        c.post()
        o, nn = c.old, c.new
        c.ensures('', T, inlen(nn, cn) == inlen(o, cn) + z3.Extract(31, 0, count))
        c.ensures('', T, left(nn, cn) == 0)
        c.ensures('', T, Select(nn['$taken'], cn) == Select(o['$taken'], cn) - count)
        c.ensures('', T, debt(nn, cn) == debt(o, cn) - 1)
        c.ensures('', T, Select(nn['$stuck'], cn))

    @S.contract('connection_close_fds')
    def close_fds(c):
        cn, = c.args
        c.modifies_at('$fdsq', cn)
        c.modifies('$errno')
        c.post()
        c.ensures('', T, Not(Select(c.new['$fdsq'], cn)))

    @S.contract('strnlen')
    def strnlen(c):
        p, k = c.args
        s = c.old
        c.requires('only received bytes are examined', ('C12', 'C15'), z3.ULE(k, Select(s['$got'], p)))
        c.post()
        l = slen(strv(s, p))
        c.ensures('', T, c.ret == If(z3.ULT(l, k), l, k))

    @S.contract('strlen')
    def strlen(c):
        p, = c.args
        c.requires('the string is valid', ('C15',), p != NULL)
        c.post()
        c.ensures('', T, c.ret == slen(strv(c.old, p)))
        c.ensures('strings are shorter than 64 KiB', T, z3.ULT(c.ret, bv64(0xfff0)))

    # ------------------------------------------------------------ the poller (verified in poller.c)
    @S.contract('event_source_fd_update')
    def es_update(c):
        e, m = c.args
        s = c.old
        c.requires('the event source is live', ('C14', 'C15'), And(e != NULL, es_live(s, e)))
        c.requires('a client is always read', ('C14', 'C13'), (m & 1) != 0)
        c.modifies_at('$es_mask', e)
        c.modifies('$errno')
        c.post()
        c.ensures('', T, Select(c.new['$es_mask'], e) == m)
        c.ensures('', T, c.ret == 0)

    @S.contract('event_source_fd_destroy')
    def es_destroy(c):
        e, = c.args
        s = c.old
        c.requires('the event source is live', ('C14', 'C15'), And(e != NULL, es_live(s, e)))
        c.modifies_at('$es_live', e)
        c.modifies('$errno')
        c.post()
        c.ensures('', T, Not(es_live(c.new, e)))

    @S.contract('poller_add_fd')
    def add_fd(c):
        p, fd, m, fn, data = c.args
        s = c.old
        c.requires('the poller belongs to a server', ('C15',), kind(s, Ptr.sbase(p) if False else p) != -1)
        c.requires('the descriptor is open', ('C05', 'C15'), fd_open(s, fd))
        c.requires('readability is asked for', ('C14',), (m & 1) != 0)
        c.modifies('$errno', '$es_live', '$es_data', '$es_cb', '$es_mask', '$es_fd')
        c.post()
        o, nn, r = c.old, c.new, c.ret
        c.ensures('', T, Implies(r != NULL, Not(es_live(o, r))))
        c.ensures('', T, Implies(r == NULL, nn['$errno'] != 0))
        for mp, v in (('$es_live', TRUE), ('$es_data', data), ('$es_cb', fn), ('$es_mask', m), ('$es_fd', fd)):
            c.ensures('', T, nn[mp] == If(r == NULL, o[mp], Store(o[mp], r, v)))

    # ------------------------------------------------------------ client.c: events
    def sender(name, enable):
        @S.contract(name)
        def snd(c, enable=enable):
            cl, = c.args
            s = c.old
            c.inv(S.ES)
            c.requires('the client is live', ('C15', 'core'), kind(s, cl) == kindno('client'))
            c.requires('the client has an event source', ('C14', 'C15', 'core'), esrc(s, cl) != NULL)
            c.requires('the client is a member of its seat', ('C01', 'C07'), And(cseat(s, cl) != NULL, own(s, cl) == clients(cseat(s, cl))))
            c.requires('the client holds the seat', ('C01',), sactive(s, cseat(s, cl)) == cl)
            x = bound('x', Ptr)
            if enable:
                c.requires('the client is active', ('C07', 'C01'), cstate(s, cl) == S.ACTIVE)
                c.requires('the last event was not enable', ('C07',), Not(Select(s['$enabled'], cl)))
                c.requires('no other member holds the seat', ('C01',), forall([x], Implies(
                    And(own(s, x) == clients(cseat(s, cl)), x != cl), And(cstate(s, x) != S.ACTIVE, cstate(s, x) != S.PENDING)), [own(s, x)]))
                v = csession(s, cl)
                c.requires('the VT of the client is in graphics mode', ('C10',), Implies(svt(s, cseat(s, cl)), And(
                    Select(s['$vt_gfx'], v), Select(s['$vt_kbdoff'], v), Select(s['$vt_proc'], v))))
            else:
                c.requires('the client has been asked to disable', ('C07',), cstate(s, cl) == S.PENDING)
                c.requires('the last event was enable', ('C07',), Select(s['$enabled'], cl))
                c.requires('all devices of the client are revoked', ('C02',), forall([x], Implies(
                    own(s, x) == devs(cl), Or(Not(fd_priv(s, dfd(s, x))), fd_ref(s, dfd(s, x)))), [own(s, x)]))
            c.requires('no message is half queued', ('C13', 'core'), need(s, conn(cl)) == 0)
            for m in ('$need', '$op', '$unsent', '$nev', '$lastev'):
                c.modifies_at(m, conn(cl))
            c.modifies_at('$es_mask', esrc(s, cl))
            c.modifies('$sendf', '$errno')
            c.post()
            o, nn = c.old, c.new
            cn = conn(cl)
            c.set('$enabled', Store(o['$enabled'], cl, z3.BoolVal(enable)))
            c.ensures('result is 0 or -1', T, Or(c.ret == 0, c.ret == -1))
            if c.mode == 'call':
                c.ensures('', T, nn['$sendf'] == Or(o['$sendf'], c.ret == -1))
            c.ensures('on success exactly one event is queued', ('C07', 'C13', 'core'), Implies(c.ret == 0, Select(nn['$nev'], cn) == Select(o['$nev'], cn) + 1))
            c.ensures('no further event is queued', ('C07', 'core'), Or(Select(nn['$nev'], cn) == Select(o['$nev'], cn) + 1, Select(nn['$nev'], cn) == Select(o['$nev'], cn)))
            c.ensures('the event is of its kind', ('C07', 'core'), Implies(c.ret == 0, Select(nn['$lastev'], cn) == (0x8006 if enable else 0x8005)))
            c.ensures('the event is complete', ('C13', 'core'), need(nn, cn) == 0)
            no_silent(c)
            c.ensures('failure sets an error', ('C13',), Implies(c.ret == -1, nn['$errno'] != 0))
    sender('client_send_enable_seat', True)
    sender('client_send_disable_seat', False)

    # ------------------------------------------------------------ client.c: life of a client
    def kinds_frame(c, *gone):
        """clients, seats and servers stay (but for those named); nothing else appears"""
        x = bound('x', Ptr)
        o, nn = c.old, c.new
        c.ensures('only devices and strings are freed', ('C15', 'core'), forall([x], Implies(And(
            [kind(o, x) != 0, kind(o, x) != kindno('seat_device'), kind(o, x) != kindno('char')] + [x != g for g in gone]), kind(nn, x) == kind(o, x)), [kind(nn, x)]))
        return x

    ALLM = tuple(S.ACT_MAPS) + LIST_MAPS + (
        '$kind', '$fd_path', '$fd_flags', '$fd_dup', '$pown', '$str', '$nopens', '$open_ok', 'seat_device.ref_cnt', 'seat_device.fd', 'seat_device.device_id', 'seat_device.path',
        'seat_device.type', 'seat.next_client', 'client.seat', 'client.session', 'seat.session_cnt', 'seat.cur_vt', '$kvt', '$nswitch', '$switch_to',
        '$byid', '$bypath', '$bysess', '$debt', '$lastop', '$lastval', '$fdq', '$lastfd', '$fdsq', '$wfail', '$failno')
    INMAPS = ('$left', '$inlen', '$taken', '$hsize', '$reqop', '$stuck', '$msgint', '$msgstr')

    def r_seats(o, nn):
        x = bound('x', Ptr)
        return forall([x], Implies(kind(o, x) == kindno('seat'), own(nn, x) == own(o, x)), [(kind(o, x), own(nn, x))])

    def seats_frame(c, tags=('C14', 'core')):
        c.ensures('seats stay on their server', tags, r_seats(c.old, c.new))

    def r_heads(o, nn):
        x = bound('x', Ptr)
        return forall([x], Implies(Or(is_sub_of(x, SEATS), is_sub_of(x, IDLE)), ishead(nn, x) == ishead(o, x)), [ishead(nn, x)])

    def heads_frame(c, tags=('C15', 'core')):
        c.ensures('the lists of servers stay', tags, r_heads(c.old, c.new))

    def r_leak(o, nn):
        return forall([f_], Implies(And(fd_open(nn, f_), fd_owner(nn, f_) == NULL), And(fd_open(o, f_), fd_owner(o, f_) == NULL)), [fd_open(nn, f_)])

    def r_others(cl):
        def f(o, nn):
            x = bound('x', Ptr)
            return forall([x], Implies(And(kind(o, x) == kindno('client'), x != cl), And(
                own(nn, x) == own(o, x), cseat(nn, x) == cseat(o, x), csession(nn, x) == csession(o, x))), [own(nn, x), cseat(nn, x), csession(nn, x)])
        return f

    def r_kinds(cl):
        def f(o, nn):
            x = bound('x', Ptr)
            return forall([x], Implies(And(kind(o, x) != 0, kind(o, x) != kindno('seat_device'), kind(o, x) != kindno('char'), x != cl), kind(nn, x) == kind(o, x)), [kind(nn, x)])
        return f

    S.r_seats, S.r_heads, S.r_leak, S.r_others, S.r_kinds, S.ALLM, S.INMAPS = r_seats, r_heads, r_leak, r_others, r_kinds, ALLM, INMAPS

    @S.contract('client_create')
    def create(c):
        sv, fd = c.args
        s = c.old
        c.inv(full(c))
        c.requires('the server is initialised', ('C15', 'core'), srv(s, sv))
        c.requires('the socket is open and free', ('C05', 'core'), And(fd >= 0, fd_open(s, fd), fd_owner(s, fd) == NULL))
        modifies_lists(c)
        c.modifies('$kind', '$errno', '$enabled', '$need', '$left', '$debt', '$fdq', '$unsent', '$fdsq')
        for f in ('uid', 'gid', 'pid', 'session', 'server', 'state', 'seat', 'event_source'):
            c.modifies('client.' + f)
        c.modifies('connection.fd', 'connection.want_flush')
        c.modifies('connection_buffer.head', 'connection_buffer.tail')
        c.modifies_at('$fd_owner', fd)
        c.post()
        o, r = c.old, c.ret
        ok = r != NULL
        cn = conn(r)
        for m, v in (('$enabled', FALSE),):
            c.set(m, If(ok, Store(c.new[m], r, v), c.new[m]))
        for m, v in (('$need', bv64(0)), ('$left', bv64(0)), ('$debt', z3.IntVal(0)), ('$fdq', FALSE), ('$unsent', FALSE), ('$fdsq', FALSE)):
            c.set(m, If(ok, Store(c.new[m], cn, v), c.new[m]))
        nn = c.new
        x = bound('x', Ptr)
        c.ensures('a new client is allocated', ('C15', 'core'), Implies(ok, And(kind(o, r) == 0, kind(nn, r) == kindno('client'))))
        c.ensures('nothing else is allocated or freed', ('C15', 'core'), If(ok, nn['$kind'] == Store(o['$kind'], r, kindno('client')), forall([x], kind(nn, x) == kind(o, x), [kind(nn, x)])))
        c.ensures('it is new, without seat, session and devices', ('C07', 'C11', 'core'), Implies(ok, And(cstate(nn, r) == S.NEW, cseat(nn, r) == NULL, csession(nn, r) == -1, llen(nn, devs(r)) == 0)))
        c.ensures('it owns the socket', ('C05', 'C14', 'core'), Implies(ok, And(cfd(nn, cn) == fd, fd_owner(nn, fd) == cn)))
        c.ensures('it is an idle client of the server', ('C14', 'core'), Implies(ok, And(own(nn, r) == sub(sv, IDLE), cserver(nn, r) == sv)))
        c.ensures('the server has one idle client more', ('C14', 'core'), Implies(ok, llen(nn, sub(sv, IDLE)) == llen(o, sub(sv, IDLE)) + 1))
        c.ensures('it has no event source yet', ('core',), Implies(ok, esrc(nn, r) == NULL))
        c.ensures('its credentials are those of the peer', ('C14',), Implies(ok, And(Select(nn['client.uid'], r) == Select(o['$peer_uid'], fd), Select(nn['client.gid'], r) == Select(o['$peer_gid'], fd), Select(nn['client.pid'], r) == Select(o['$peer_pid'], fd))))
        c.ensures('on failure the socket stays with the caller', ('C05', 'core'), Implies(Not(ok), And(fd_open(nn, fd), fd_owner(nn, fd) == NULL)))
        for m in LIST_MAPS:
            c.ensures('on failure the lists are unchanged', ('C15', 'core'), Implies(Not(ok), nn[m] == o[m]))
        for f in ('uid', 'gid', 'pid', 'session', 'server', 'state', 'seat', 'event_source'):
            same_where(c, 'client.' + f, lambda k: Or(Not(ok), k != r), ('C14', 'core'))
        for m in ('connection.fd', 'connection.want_flush', '$need', '$left', '$debt', '$fdq', '$unsent', '$fdsq'):
            same_where(c, m, lambda k: Or(Not(ok), k != cn), ('C14', 'core'))
        same_where(c, '$enabled', lambda k: Or(Not(ok), k != r), ('C07', 'core'))
        list_frame(c, [sub(sv, IDLE)], [r, devs(r)])
        seats_frame(c)
        heads_frame(c)
        no_leak(c, fd)
        c.inv_post(full(c))

    @S.contract('getsockopt')
    def getsockopt(c):
        fd, lvl, opt, val, ln = c.args
        s, eng = c.old, c.eng
        c.requires('the descriptor is open', ('C05', 'core'), fd_open(s, fd))
        c.requires('the peer is asked for its credentials', ('C14',), And(lvl == 1, opt == 17))
        t, _ = pointee(c, 3)
        c.modifies('$errno')
        c.post()
        st = c.st
        if not t.is_rec:
            raise ExtractError('getsockopt into an unknown object')
        rec = eng.recname(t)
        for f in ('uid', 'gid', 'pid'):
            m = rec + '.' + f
            eng.touch(m)
            eng.note_write(m, val)
            st[m] = Store(st[m], val, If(c.ret == -1, fresh('junk', BV32), Select(s['$peer_' + f], fd)))
        c.ensures('', T, Or(c.ret == 0, And(c.ret == -1, c.new['$errno'] != 0)))

    @S.contract('client_destroy')
    def destroy(c):
        cl, = c.args
        s = c.old
        cn = conn(cl)
        c.inv(S.SEAT_INV0 + S.RES(cl) + S.NEED(cl) + msg(cl) + mask(cl) + cs(None) + es2(cbptr(c)))
        c.requires('the client is live', ('C15', 'core'), kind(s, cl) == kindno('client'))
        c.requires('a live event source with the data of the client is the one it knows', ('C14', 'C15', 'core'), TRUE)
        fd = cfd(s, cn)
        c.requires('the socket is closed or owned by the client', ('C05', 'core'), Or(fd == -1, And(fd >= 0, fd_open(s, fd), fd_owner(s, fd) == cn)))
        c.requires('a member has an event source', ('C14', 'core'), Implies(in_seat(s, cl), esrc(s, cl) != NULL))
        c.modifies(*ALLM)
        c.modifies('$es_live')
        c.modifies_at('client.server', cl)
        c.modifies_at('client.event_source', cl)
        c.modifies_at('connection.fd', cn)
        c.post()
        o, nn = c.old, c.new
        x = bound('x', Ptr)
        seat = cseat(o, cl)
        c.ensures('the client is freed', ('C14', 'C15', 'core'), kind(nn, cl) == 0)
        kinds_frame(c, cl)
        c.ensures('nothing is allocated', ('C14', 'C15', 'core'), forall([x], Implies(kind(nn, x) != 0, kind(nn, x) == kind(o, x)), [kind(nn, x)]))
        c.ensures('the socket is closed, and with it nothing but devices of the client', ('C05', 'C14', 'core'), forall([f_], fd_open(nn, f_) == And(
            fd_open(o, f_), Or(fd == -1, f_ != fd), own(o, fd_owner(o, f_)) != devs(cl)), [fd_open(nn, f_)]))
        same_where(c, '$fd_owner', lambda k: fd_open(nn, k), ('C05', 'core'))
        c.ensures('its event source is removed, and no other', ('C14', 'core'), forall([x], es_live(nn, x) == And(es_live(o, x), Or(esrc(o, cl) == NULL, x != esrc(o, cl))), [es_live(nn, x)]))
        c.ensures('it leaves the list it was on, and no other client moves', ('C14', 'core'), forall([x], Implies(kind(o, x) == kindno('client'), own(nn, x) == If(x == cl, NULL, own(o, x))), [own(nn, x)]))
        seats_frame(c)
        heads_frame(c)
        c.ensures('other clients keep their seat', ('C14', 'core'), forall([x], Implies(And(x != cl, kind(o, x) == kindno('client')), And(cseat(nn, x) == cseat(o, x), csession(nn, x) == csession(o, x))), [cseat(nn, x)]))
        c.ensures('no seat queues or enables it', ('C14', 'core'), forall([x], Implies(kind(nn, x) == kindno('seat'), And(sactive(nn, x) != cl, snext(nn, x) != cl)), [sactive(nn, x)]))
        c.ensures('the list of idle clients it was on is one shorter', ('C14', 'core'), Implies(seat == NULL, llen(nn, own(o, cl)) == llen(o, own(o, cl)) - 1))
        c.ensures('the lists of servers change no further', ('C14', 'core'), forall([x], Implies(And(Or(is_sub_of(x, SEATS), is_sub_of(x, IDLE)), x != own(o, cl)), llen(nn, x) == llen(o, x)), [llen(nn, x)]))
        c.ensures('a client that did not hold its seat leaves all seats as they are', ('C14', 'C01', 'core'), Implies(Or(seat == NULL, sactive(o, seat) != cl), forall([x], Implies(kind(o, x) == kindno('seat'), And(sactive(nn, x) == sactive(o, x), Or(snext(nn, x) == snext(o, x), snext(o, x) == cl))), [sactive(nn, x)])))
        c.ensures('a client that did not hold its seat changes nobody', ('C14', 'core'), Implies(Or(seat == NULL, sactive(o, seat) != cl), forall([x], Implies(x != cl, And(cstate(nn, x) == cstate(o, x), Select(nn['$nev'], conn(x)) == Select(o['$nev'], conn(x)))), [cstate(nn, x)])))
        no_leak(c)
        c.inv_post(full(c))

    # ------------------------------------------------------------ client.c: requests
    def serving(c, cl, op=None):
        s = c.old
        cn = conn(cl)
        c.inv(S.SEAT_INV0 + S.RES() + S.NEED() + msg(cl) + mask(cl) + cs(None) + es2(cbptr(c)))
        c.requires('the client is live', ('C15', 'core'), kind(s, cl) == kindno('client'))
        c.requires('the client has an event source', ('C14', 'C15', 'core'), esrc(s, cl) != NULL)
        c.requires('one request is unanswered', ('C13', 'core'), And(debt(s, cn) == 1, need(s, cn) == 0, Not(fdq(s, cn))))
        c.requires('the client is listed', ('C14', 'core'), Or(And(own(s, cl) == clients(cseat(s, cl)), kind(s, cseat(s, cl)) == kindno('seat')), And(in_idle(s, cl), cseat(s, cl) == NULL)))
        c.requires('nothing failed yet', ('C13', 'core'), s['$failno'] == 0)
        if op is not None:
            c.requires('the request is of this kind, and consumed', ('C12', 'core'), And(reqop(s, cn) == op, left(s, cn) == 0))

    def served(c, cl):
        """what holds after a request was handled"""
        o, nn = c.old, c.new
        cn = conn(cl)
        ok = c.ret != -1
        x = bound('x', Ptr)
        kinds_frame(c)
        c.ensures('clients, seats and servers are not created', ('C15', 'core'), forall([x], Implies(And(kind(o, x) == 0, kind(nn, x) != 0), Or(kind(nn, x) == kindno('seat_device'), kind(nn, x) == kindno('char'))), [kind(nn, x)]))
        seats_frame(c)
        heads_frame(c)
        c.ensures('an accepted request is answered exactly once, completely', ('C13', 'core'), Implies(ok, And(debt(nn, cn) == 0, need(nn, cn) == 0, Not(fdq(nn, cn)))))
        c.ensures('a failure to queue output is fatal', ('C14', 'core'), Implies(And(wfail(nn, cn), Not(wfail(o, cn))), Not(ok)))
        for m in ('$debt', '$fdq'):
            same_where(c, m, lambda k: k != cn, ('C13', 'core'))
        c.ensures('other clients stay where they are', ('C14', 'core'), r_others(cl)(o, nn))
        no_leak(c)
        c.inv_post(S.SEAT_INV0 + S.RES() + S.NEED(cl) + msg(cl) + mask(cl) + cs(None) + es2(cbptr(c)))

    def quiet(c, cl):
        """no client changes state, no event is sent, no device or list is touched"""
        o, nn = c.old, c.new
        return And([nn[m] == o[m] for m in LIST_MAPS + ('$kind', 'client.state', 'seat.active_client', 'seat.next_client', 'client.seat', 'client.session', '$nev', '$fd_priv', '$fd_open', 'seat_device.ref_cnt', 'seat_device.active', '$nopens', '$nswitch')])

    C_ = 'struct client *'

    def handler(name, op, sig, f):
        @S.contract(name, rel='seatd/client.c', sig=sig)
        def hd(c, f=f, op=op):
            cl = c.args[0]
            serving(c, cl, op)
            f(c, cl, 'pre')
            c.modifies(*ALLM)
            c.post()
            served(c, cl)
            effects(c, cl, op)
        return hd

    def effects(c, cl, op, arg=None, left_in=None):
        """the effect of each request, as seen from outside"""
        o, nn = c.old, c.new
        cn = conn(cl)
        ok = c.ret != -1
        s0, seat = cseat(o, cl), cseat(o, cl)
        member = s0 != NULL
        x = bound('x', Ptr)
        arg = c.args[1] if arg is None and len(c.args) > 1 else arg
        err = lastop(nn, cn) == ERR
        if op == 1:
            c.ensures('open-seat: the client joins a seat it was not on', ('C07', 'C11', 'C13', 'core'), Implies(ok, And(s0 == NULL, csession(o, cl) == -1, cseat(nn, cl) != NULL, own(nn, cl) == clients(cseat(nn, cl)), lastop(nn, cn) == 0x8001)))
            c.ensures('open-seat: the client is enabled if the seat is free', ('C07', 'C08', 'core'), Implies(And(ok, sactive(o, cseat(nn, cl)) == NULL, Not(nn['$ttyf'])), And(cstate(nn, cl) == A_, sactive(nn, cseat(nn, cl)) == cl)))
            c.ensures('open-seat: nobody loses a seat', ('C01', 'core'), forall([x], Implies(And(kind(o, x) == kindno('seat'), sactive(o, x) != NULL), sactive(nn, x) == sactive(o, x)), [sactive(nn, x)]))
        if op == 2:
            c.ensures('close-seat: the client leaves its seat', ('C07', 'C13', 'core'), Implies(ok, And(member, cseat(nn, cl) == NULL, cstate(nn, cl) == S.CLOSED, lastop(nn, cn) == 0x8002, llen(nn, devs(cl)) == 0)))
        if op in (3, 4, 5, 6):
            c.ensures('requests of clients without a seat are protocol errors', ('C12', 'C15', 'core'), Implies(Not(member), Not(ok)))
            c.ensures('the client stays on its seat', ('C07', 'core'), Implies(member, And(cseat(nn, cl) == s0, own(nn, cl) == clients(s0))))
        if op == 3:
            cp = canon(arg if arg.sort().eq(Str) else strv(o, arg))
            lid = lastval(nn, cn)
            inv_id = Select(Select(nn['$byid'], devs(cl)), lid)
            c.ensures('open-device: answered with a device or an error', ('C13', 'core'), Implies(ok, Or(err, lastop(nn, cn) == 0x8003)))
            c.ensures('open-device: only for the active client', ('C03', 'core'), Implies(And(ok, Not(err)), And(cstate(o, cl) == A_, sactive(o, s0) == cl)))
            c.ensures('open-device: the id is that of a device of the client for the canonical path', ('C04', 'C13'), Implies(And(ok, Not(err)), And(
                own(nn, inv_id) == devs(cl), did(nn, inv_id) == lid, strv(nn, dpath(nn, inv_id)) == cp)))
            c.ensures('open-device: an inactive client gets EPERM and nothing happens', ('C03', 'C13'), Implies(And(ok, cstate(o, cl) != A_), And(err, lastval(nn, cn) == 1, nn['$nopens'] == o['$nopens'])))
            c.ensures('open-device: nothing unsafe is opened', ('C03', 'core'), Implies(o['$open_ok'], nn['$open_ok']))
            c.ensures('open-device: an error leaves the devices as they were', ('C03', 'C04'), Implies(And(ok, err), And(forall([x], (own(nn, x) == devs(cl)) == (own(o, x) == devs(cl)), [own(nn, x)]),
                                                                                                               forall([x], Implies(own(o, x) == devs(cl), dref(nn, x) == dref(o, x)), [dref(nn, x)]))))
        if op == 4:
            d = Select(Select(o['$byid'], devs(cl)), arg)
            has = And(own(o, d) == devs(cl), did(o, d) == arg, arg != 0)
            c.ensures('close-device: answered with closed exactly if the client held the id', ('C04', 'C13'), Implies(ok, If(has, lastop(nn, cn) == 0x8004, err)))
            c.ensures('close-device: an unknown id is EBADF and changes nothing', ('C04', 'C13'), Implies(And(ok, err), And(lastval(nn, cn) == 9, quiet(c, cl))))
            c.ensures('close-device: one reference less', ('C04',), Implies(And(ok, has), If(dref(o, d) > 1, And(own(nn, d) == devs(cl), dref(nn, d) == dref(o, d) - 1), own(nn, d) == NULL)))
        if op == 5:
            c.ensures('disable-seat: accepted exactly while asked to disable', ('C07', 'C13'), Implies(And(ok, member), If(cstate(o, cl) == P_, lastop(nn, cn) == 0x8009, And(err, quiet(c, cl)))))
            c.ensures('disable-seat: the seat is handed on', ('C08', 'C07', 'core'), Implies(And(ok, member, cstate(o, cl) == P_), If(sactive(nn, s0) == cl, cstate(nn, cl) == A_, cstate(nn, cl) == S.DISABLED)))
            c.ensures('disable-seat: a queued client gets the seat', ('C08', 'C06', 'core'), Implies(And(ok, member, cstate(o, cl) == P_, snext(o, s0) != NULL), Or(sactive(nn, s0) == snext(o, s0), nn['$ttyf'])))
        if op == 6:
            c.ensures('switch-session: only the active client', ('C06', 'C13'), Implies(And(ok, member, cstate(o, cl) != A_), And(err, lastval(nn, cn) == 1, quiet(c, cl))))
            c.ensures('switch-session: positive sessions only', ('C06', 'C13'), Implies(And(ok, member, cstate(o, cl) == A_, arg <= 0), And(err, lastval(nn, cn) == 22, quiet(c, cl))))
            c.ensures('switch-session: the own session, or a second request, succeeds without effect', ('C06', 'C13'), Implies(And(ok, member, cstate(o, cl) == A_, arg > 0, Or(arg == csession(o, cl), snext(o, s0) != NULL)), And(
                lastop(nn, cn) == 0x8008, quiet(c, cl))))
            c.ensures('switch-session: a queued client is the one with the session', ('C06', 'core'), Implies(And(ok, member, snext(nn, s0) != NULL, snext(o, s0) == NULL), And(
                csession(nn, snext(nn, s0)) == arg, lastop(nn, cn) == 0x8008, cstate(nn, cl) == P_)))
            c.ensures('switch-session: the kernel is asked for exactly the session', ('C06',), Implies(And(ok, member, nn['$nswitch'] != o['$nswitch']), And(nn['$switch_to'] == arg, lastop(nn, cn) == 0x8008, svt(o, s0), nn['$nswitch'] == o['$nswitch'] + 1)))
            c.ensures('switch-session: success has an effect', ('C06',), Implies(And(ok, member, cstate(o, cl) == A_, arg > 0, arg != csession(o, cl), snext(o, s0) == NULL, Not(err)), If(svt(o, s0), nn['$nswitch'] == o['$nswitch'] + 1, snext(nn, s0) != NULL)))
        if op == 7:
            c.ensures('ping: answered with pong', ('C13',), Implies(ok, lastop(nn, cn) == 0x8007))
            c.ensures('ping: nothing else happens', ('C13', 'C12'), quiet(c, cl))

    def nothing(c, cl, w):
        pass

    def devpath(c, cl, w):
        p = c.args[1]
        s = c.old
        c.requires('the path is that of the message, terminated exactly at its end', ('C12',), And(
            Select(s['$term'], p), strv(s, p) == Select(s['$msgstr'], conn(cl)), slen(strv(s, p)) + 1 == Select(s['$got'], p), z3.ULE(Select(s['$got'], p), bv64(256))))
        c.requires('the path is a terminated string', ('C12', 'C15', 'core'), And(p != NULL, Select(s['$term'], p)))

    def msgarg(c, cl, w):
        c.requires('the argument is that of the message', ('C12',), c.args[1] == Select(c.old['$msgint'], conn(cl)))
    handler('handle_open_seat', 1, (C_,), nothing)
    handler('handle_close_seat', 2, (C_,), nothing)
    handler('handle_open_device', 3, (C_, 'char *'), devpath)
    handler('handle_close_device', 4, (C_, 'int'), msgarg)
    handler('handle_disable_seat', 5, (C_,), nothing)
    handler('handle_switch_session', 6, (C_, 'int'), msgarg)
    handler('handle_ping', 7, (C_,), nothing)

    @S.contract('client_handle_opcode', rel='seatd/client.c', sig=(C_, 'unsigned short', 'unsigned long'))
    def opcode(c):
        cl, op, size = c.args
        s = c.old
        cn = conn(cl)
        serving(c, cl)
        c.requires('the arguments are those of the header', ('C12', 'core'), And(op == reqop(s, cn), size == left(s, cn), size == Select(s['$hsize'], cn)))
        c.requires('the whole message has arrived', ('C12', 'core'), z3.ULE(size, z3.ZeroExt(32, inlen(s, cn))))
        c.modifies(*ALLM)
        for m in INMAPS:
            c.modifies_at(m, cn)
        c.modifies('$term', '$got')
        c.post()
        o, nn = c.old, c.new
        ok = c.ret != -1
        served(c, cl)
        c.ensures('an accepted message is consumed completely', ('C12', 'core'), Implies(ok, left(nn, cn) == 0))
        c.ensures('exactly the message is consumed', ('C12', 'core'), Implies(ok, z3.ZeroExt(32, inlen(nn, cn)) == z3.ZeroExt(32, inlen(o, cn)) - size))
        c.ensures('output that could not be sent waits for the socket', ('C13', 'core'), Implies(ok, announced(nn, cl)))
        c.ensures('an unknown opcode is a protocol error', ('C12', 'core'), Implies(Or(op == 0, z3.UGT(op, 7)), And(Not(ok), quiet(c, cl))))
        for k, want in ((1, 0), (2, 0), (5, 0), (7, 0), (4, 4), (6, 4)):
            c.ensures('a size that does not fit the opcode is a protocol error (%d)' % k, ('C12', 'core'), Implies(And(op == k, size != want), And(Not(ok), quiet(c, cl))))
        ms = Select(nn['$msgstr'], cn)
        c.ensures('a device path is terminated exactly at its end and at most 256 bytes', ('C12',), Implies(And(op == 3, Or(ok, Not(quiet(c, cl)))), And(
            z3.UGE(size, bv64(3)), z3.ULE(size, bv64(258)), slen(ms) + 1 == size - 2)))

        for k in range(1, 8):
            g = Guarded(c, op == k)
            g.args = c.args
            effects(g, cl, k, arg=ms if k == 3 else Select(nn['$msgint'], cn))
        c.ensures('other connections are not read', ('C12', 'core'), TRUE)

    @S.contract('client_handle_connection')
    def handle_connection(c):
        fd, mk, cl = c.args
        s = c.old
        cn = conn(cl)
        c.inv(full(c))
        c.keeps('other clients and seats stay', ('C14', 'core'), r_kinds(cl))
        c.keeps('other clients stay where they are', ('C14', 'core'), r_others(cl))
        c.keeps('the lists of servers stay', ('C15', 'core'), r_heads)
        c.keeps('seats stay on their server', ('C14', 'core'), r_seats)
        c.keeps('no descriptor is leaked', ('C05',), r_leak)
        for nm, f in (('left', lambda s: And(left(s, cn) == 0, debt(s, cn) == 0, need(s, cn) == 0, Not(fdq(s, cn)))), ('announced', lambda s: announced(s, cl)), ('wfail', lambda s: Implies(wfail(s, cn), wfail(c.old, cn))),
                      ('failure', lambda s: Implies(Select(s['$eof'], cn), Select(c.old['$eof'], cn))), ('client', lambda s: And(kind(s, cl) == kindno('client'), esrc(s, cl) == esrc(c.old, cl), cfd(s, cn) == cfd(c.old, cn))),
                      ('socket', lambda s: And(fd_open(s, cfd(c.old, cn)), fd_owner(s, cfd(c.old, cn)) == cn)), ('source', lambda s: And(es_live(s, esrc(s, cl)), es_data(s, esrc(s, cl)) == cl))):
            c.loop_inv(nm, lambda o, s, f=f: f(s))
        c.requires('the data of the event source is a live client', ('C15', 'core'), And(kind(s, cl) == kindno('client'), esrc(s, cl) != NULL))
        c.modifies(*ALLM)
        for m in INMAPS + ('$eof',):
            c.modifies(m)
        c.modifies('$term', '$got', '$es_live')
        c.modifies_at('client.server', cl)
        c.modifies_at('client.event_source', cl)
        c.modifies_at('connection.fd', cn)
        c.post()
        o, nn = c.old, c.new
        x = bound('x', Ptr)
        dead = kind(nn, cl) != kindno('client')
        c.ensures('the result tells whether the client was destroyed', ('C14',), (c.ret == -1) == dead)
        c.ensures('an error or hangup destroys the client', ('C14',), Implies((mk & (8 | 16)) != 0, dead))
        if c.mode == 'exit':
            rd = (mk & 1) != 0
            c.ensures('end of file and read errors destroy the client', ('C14',), Implies(And(rd, nn['$eof'] != o['$eof'], Select(nn['$eof'], cn)), dead))
            c.ensures('write errors destroy the client', ('C14',), Implies(And(Select(nn['$wfail'], cn), Not(Select(o['$wfail'], cn))), dead))
            c.ensures('every complete request is handled', ('C12',), Implies(And(Not(dead), nn['$inlen'] != o['$inlen']), Select(nn['$stuck'], cn)))
        c.ensures('a destroyed client is gone completely', ('C14', 'C05'), Implies(dead, And(kind(nn, cl) == 0, own(nn, cl) == NULL, Not(fd_open(nn, cfd(o, cn))), Not(es_live(nn, esrc(o, cl))))))
        c.ensure_kept()
        c.inv_post(full(c))
