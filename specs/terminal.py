"""Contracts of the terminal and device primitives (terminal.c, drm.c, evdev.c, hidraw.c, wscons.c)."""
import subprocess
from .base import *

S64 = BV64
fmt_int = z3.Function('format_int', Str, BV32, Str)        # text of a format with one %d
pfx = z3.Function('prefix', Str, BV64, Str)                # the first n bytes of a string

KDSETMODE, KDSKBMODE, VT_GETSTATE, VT_SETMODE, VT_RELDISP, VT_ACTIVATE = 0x4B3A, 0x4B45, 0x5603, 0x5602, 0x5605, 0x5606
DRM_SET_MASTER, DRM_DROP_MASTER, EVIOCREVOKE, HIDIOCREVOKE = 0x641e, 0x641f, 0x40044591, 0x4004480D
K_UNICODE, K_OFF, KD_TEXT, KD_GRAPHICS, VT_AUTO, VT_PROCESS, VT_ACKACQ = 3, 4, 0, 1, 0, 1, 2
T29 = ('C29',)


def has_prefix(s, lit):
    n = bv64(len(lit))
    return pfx(s, n) == pfx(strconst(lit), n)


def hidraw_supported():
    r = subprocess.run(['clang', '-E', '-dM', '-x', 'c', '-'], input='#include <linux/hidraw.h>\n', capture_output=True, text=True)
    return ' HIDIOCREVOKE ' in r.stdout


class TermSpecs(Specs):
    errno_rule = False
    kinds = []

    def __init__(self, program):
        super().__init__(program)
        self.ghost_sorts.update({'$nio': IntS, '$io_fd': BV32, '$io_req': BV64, '$io_arg': BV64, '$io_ret': BV32, '$io_errno': BV32, '$vt_active': BV32,
                                 '$m_mode': BV32, '$m_relsig': BV32, '$m_acqsig': BV32, '$m_waitv': BV32, '$nopen': IntS, '$open_path': Str, '$open_flags': BV32, '$open_ret': BV32})
        self.hid = hidraw_supported()
        register(self)

    def valid_other(self, eng, st, rec, p):
        return p != NULL


def register(S):
    IO = ('$nio', '$io_fd', '$io_req', '$io_arg', '$io_ret', '$io_errno', '$m_mode', '$m_relsig', '$m_acqsig', '$m_waitv')

    @S.contract('_logf')
    def logf(c):
        c.post()
        return bv32(0)

    @S.contract('strerror')
    def strerror(c):
        c.post()
        return fresh('strerror', Ptr)

    @S.contract('ioctl')
    def ioctl(c):
        fd, req = c.args[:2]
        arg = c.args[2] if len(c.args) > 2 else None
        eng = c.eng
        c.modifies('$errno', *IO)
        before = c.st.copy()
        c.post()
        o, n, st = c.old, c.new, c.st
        if req.size() == 32:
            req = z3.SignExt(32, req)
        rec = None
        if arg is None:
            a64 = bv64(0)
        elif arg.sort().eq(Ptr):
            from .daemon import arg_struct
            t = arg_struct(c.call, 2)
            t = t.to if t.is_ptr else t
            rec = eng.recname(t) if t.is_rec else None
            a64 = If(arg == NULL, bv64(0), bv64(1))
        else:
            a64 = arg if arg.size() == 64 else z3.SignExt(64 - arg.size(), arg)
        lo = lambda v: z3.Extract(31, 0, v)
        c.ensures('', T, And(n['$nio'] == o['$nio'] + 1, n['$io_fd'] == fd, lo(n['$io_req']) == lo(req), n['$io_arg'] == a64, n['$io_ret'] == c.ret))
        c.ensures('', T, And(c.ret >= -1, Implies(c.ret == -1, n['$errno'] != 0), Implies(c.ret != -1, n['$errno'] == o['$errno']), n['$io_errno'] == n['$errno']))
        if rec == 'vt_mode':
            for f in ('mode', 'relsig', 'acqsig', 'waitv'):
                v = Select(o['vt_mode.' + f], arg)
                w = v.size()
                c.ensures('', T, n['$m_' + f] == (z3.SignExt(32 - w, v) if f in ('relsig', 'acqsig') else z3.ZeroExt(32 - w, v)) if w < 32 else n['$m_' + f] == v)
        elif rec == 'vt_stat':
            for lv in eng.leaves(arg, t):
                eng.write(lv, fresh('stat', eng.sort_of(lv[-1])), st)
            v = Select(st['vt_stat.v_active'], arg)
            eng.assume(st, Implies(c.ret != -1, st['$vt_active'] == z3.ZeroExt(16, v)) if v.size() == 16 else TRUE)

    @S.contract('open')
    def open_(c):
        p, fl = c.args[:2]
        c.modifies('$errno', '$nopen', '$open_path', '$open_flags', '$open_ret')
        c.post()
        o, n = c.old, c.new
        c.ensures('', T, And(n['$nopen'] == o['$nopen'] + 1, n['$open_path'] == Select(o['$str'], p), n['$open_flags'] == fl, n['$open_ret'] == c.ret, c.ret >= -1, Implies(c.ret == -1, n['$errno'] != 0)))

    @S.contract('snprintf')
    def snprintf(c):
        buf, size, f = c.args[:3]
        c.requires('the buffer is as large as said', ('C15', 'C29'), z3.ULE(size, bv64(c.eng.objlen.get(c.eng_obj(buf), 0))) if hasattr(c, 'eng_obj') else buflen_ok(c, buf, size))
        c.modifies('$errno')
        c.modifies_at('$str', buf)
        c.post()
        o, n = c.old, c.new
        if len(c.args) == 4 and c.args[3].sort().eq(BV32):
            v = c.args[3]
            fits = And(v >= 0, v <= 9999999, z3.UGE(size, bv64(16)))
            c.ensures('', T, Implies(And(c.ret >= 0, fits), Select(n['$str'], buf) == fmt_int(Select(o['$str'], f), v)))
            c.ensures('', T, And(c.ret >= -1, Implies(c.ret == -1, n['$errno'] != 0)))

    def buflen_ok(c, buf, size):
        b = buf.arg(0) if z3.is_app(buf) and buf.decl().eq(Ptr.elt) else buf
        if z3.is_app(b) and b.decl().eq(Ptr.obj) and z3.is_int_value(b.arg(0)):
            ln = c.eng.objlen.get(b.arg(0).as_long())
            if ln is not None:
                return z3.ULE(size, bv64(ln))
        return FALSE

    def prefix_cmp(c):
        a, b, k = c.args
        c.requires('both strings are valid', ('C15',), And(a != NULL, b != NULL))
        c.post()
        s = c.old
        c.ensures('', T, (c.ret == 0) == (pfx(Select(s['$str'], a), k) == pfx(Select(s['$str'], b), k)))
    S.contract('strncmp')(prefix_cmp)

    @S.contract('strlen')
    def strlen(c):
        c.post()
        c.ensures('', T, Or([And(Select(c.old['$str'], c.args[0]) == strconst(l), c.ret == len(l)) for l in PREFIXES] + [And([Select(c.old['$str'], c.args[0]) != strconst(l) for l in PREFIXES])]))

    PREFIXES = ['/dev/dri/', '/dev/input/event', '/dev/hidraw']

    def request(name, req, arg=None, extra=None, ret='pass'):
        @S.contract(name)
        def f(c):
            fd = c.args[0]
            c.modifies('$errno', '$vt_active', *IO)
            for fl in ('v_active', 'v_signal', 'v_state'):
                pass
            c.post()
            o, n = c.old, c.new
            lo = lambda v: z3.Extract(31, 0, v)
            c.ensures('exactly one request is made', T29, n['$nio'] == o['$nio'] + 1)
            c.ensures('on the descriptor given', T29, n['$io_fd'] == fd)
            c.ensures('it is the right request', T29, lo(n['$io_req']) == bv32(req))
            if arg is not None:
                a = arg(c)
                c.ensures('with the right argument', T29, n['$io_arg'] == (bv64(a) if isinstance(a, int) else a))
            if extra:
                extra(c)
            if ret == 'pass':
                c.ensures('failure is reported exactly if the kernel refused', T29, (c.ret == -1) == (n['$io_ret'] == -1))
                c.ensures('the result is -1 or not negative', T29, c.ret >= -1)
                c.ensures('the reason of a failure is kept', T29, Implies(c.ret == -1, n['$errno'] == n['$io_errno']))
        return f

    def en(c):
        e = c.args[1]
        return e if z3.is_bool(e) else e != 0

    def switching(c):
        n, e = c.new, en(c)
        c.ensures('process switching is turned on or off as asked', T29, n['$m_mode'] == If(e, bv32(VT_PROCESS), bv32(VT_AUTO)))
        c.ensures('releases are signalled by SIGUSR1', T29, n['$m_relsig'] == If(e, bv32(10), bv32(0)))
        c.ensures('acquisitions are signalled by SIGUSR2', T29, n['$m_acqsig'] == If(e, bv32(12), bv32(0)))
        c.ensures('switching does not wait', T29, n['$m_waitv'] == 0)

    def active(c):
        n = c.new
        c.ensures('failure is reported exactly if the kernel refused', T29, Implies(n['$io_ret'] == -1, c.ret == -1))
        c.ensures('the result is the active VT', T29, Implies(n['$io_ret'] != -1, c.ret == n['$vt_active']))
    ck = lambda a, b: (lambda c: If(en(c), bv64(a), bv64(b)))
    request('terminal_set_process_switching', VT_SETMODE, None, switching)
    request('terminal_set_keyboard', KDSKBMODE, ck(K_UNICODE, K_OFF))
    request('terminal_set_graphics', KDSETMODE, ck(KD_GRAPHICS, KD_TEXT))
    request('terminal_switch_vt', VT_ACTIVATE, lambda c: z3.SignExt(32, c.args[1]))
    request('terminal_ack_release', VT_RELDISP, lambda c: 1)
    request('terminal_ack_acquire', VT_RELDISP, lambda c: VT_ACKACQ)
    request('terminal_current_vt', VT_GETSTATE, None, active, None)
    request('drm_set_master', DRM_SET_MASTER, lambda c: 0)
    request('drm_drop_master', DRM_DROP_MASTER, lambda c: 0)
    request('evdev_revoke', EVIOCREVOKE, lambda c: 0)
    if S.hid:
        request('hidraw_revoke', HIDIOCREVOKE, lambda c: 0)
    else:
        @S.contract('hidraw_revoke')
        def hidraw_revoke(c):
            c.post()
            c.ensures('without kernel support nothing is asked of the kernel', T29, And(c.new['$nio'] == c.old['$nio'], c.ret == 0))

    @S.contract('terminal_open')
    def terminal_open(c):
        vt, = c.args
        c.modifies('$errno', '$nopen', '$open_path', '$open_flags', '$open_ret')
        c.modifies('$str')
        c.post()
        o, n = c.old, c.new
        tried = n['$nopen'] != o['$nopen']
        c.ensures('at most one file is opened', T29, Or(Not(tried), n['$nopen'] == o['$nopen'] + 1))
        c.ensures('there are no negative terminals', T29, Implies(vt < 0, And(Not(tried), c.ret == -1, n['$errno'] != 0)))
        c.ensures('the terminal opened is the one of the VT', T29, Implies(And(tried, vt <= 9999999), n['$open_path'] == fmt_int(strconst('/dev/tty%d'), vt)))
        c.ensures('it is opened read-write and never becomes the controlling terminal', T29, Implies(tried, And((n['$open_flags'] & 3) == 2, (n['$open_flags'] & 0o400) != 0, (n['$open_flags'] & ~bv32(2 | 0o400 | 0o2000000)) == 0)))
        c.ensures('the result is the descriptor opened, or -1', T29, c.ret == If(tried, n['$open_ret'], bv32(-1)))
        c.ensures('failure has a reason', T29, Implies(c.ret == -1, n['$errno'] != 0))

    def classifier(name, lit):
        @S.contract(name)
        def f(c):
            p, = c.args
            c.requires('the path is valid', ('C15',), p != NULL)
            c.modifies('$str')
            c.post()
            s = Select(c.old['$str'], p)
            c.ensures('true exactly for paths with the prefix', T29, (c.ret != 0) == (has_prefix(s, lit) if lit else FALSE))
    classifier('path_is_drm', '/dev/dri/')
    classifier('path_is_evdev', '/dev/input/event')
    classifier('path_is_hidraw', '/dev/hidraw' if S.hid else None)
    classifier('path_is_wscons', None)
