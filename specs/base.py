"""Specification base: memory kinds, linked lists as ghost sequences, registry of contracts."""
import z3
from vcg.logic import *
from vcg.ctype import *
from vcg.cast import ExtractError
from vcg.contract import CC, Contract

A = z3.ArraySort
PP, PI, PB = A(Ptr, Ptr), A(Ptr, IntS), A(Ptr, BoolS)
P32 = A(Ptr, BV32)
FB, FP, F32 = A(BV32, BoolS), A(BV32, Ptr), A(BV32, BV32)
T = ('core',)

n_, m_, h_ = bound('n', Ptr), bound('m', Ptr), bound('h', Ptr)
f_ = bound('f', BV32)

NEXT, PREV = 'linked_list.next', 'linked_list.prev'


class Specs:
    errno_rule = False
    var_heads = null_walkers = tail_frames = counters = True     # kinds of candidate loop invariants
    """one instance per engine; `program` is the parsed source"""
    kinds = []                 # records that exist as objects of their own (malloc, global or local)

    def __init__(self, program):
        self.prog = program
        self.contracts = {}
        self.indirects = {}
        self.ghost_sorts = {
            '$kind': PI, '$own': PP, '$idx': PI, '$len': PI, '$ishead': PB, '$at': A(Ptr, A(IntS, Ptr)),
            '$errno': BV32, '$str': A(Ptr, Str), '$alen': PI,
        }
        self.store_hooks = {}
        self.havoc_hooks = {}
        self.read_hooks = {}
        self._places = {}
        self.unroll = {}
        register_core(self)

    # ---- registry
    def contract(self, *names, **kw):
        def deco(fn):
            for nme in names:
                self.contracts[nme] = Contract(nme, fn, **kw)
            return fn
        return deco

    def indirect(self, *keys):
        def deco(fn):
            for k in keys:
                self.indirects[k] = fn
            return fn
        return deco

    # functions inlined although they have a contract, by the file of the caller
    inline_in = {}
    bounds_tags = ()

    def find_function(self, name):
        """a function under contract, by name; 'file.c:name' for one that is static"""
        if ':' in name:
            rel, nm = name.split(':')
            tu = self.prog.tu_by_rel.get(rel)
            return tu.funcs.get(nm) if tu else None
        return self.prog.public.get(name)

    def contract_for(self, name, tu):
        if name in self.inline_in.get(tu.rel, ()):
            return None
        c = self.contracts.get(name)
        if c is not None and c.rel is not None:
            # the contract of a static function: only if it still is what the contract was written for
            fd = tu.funcs.get(name) if tu.rel == c.rel else None
            if fd is None or not self.same_signature(fd, c.sig):
                return None
        return c

    def same_signature(self, fd, sig):
        got = [p['type'].get('desugaredQualType', p['type']['qualType']) for p in fd.params]
        return sig is None or [g.replace('const ', '').replace(' ', '') for g in got] == [g.replace(' ', '') for g in sig]

    def enum(self, name):
        for t in self.prog.tus:
            if name in t.enumnames:
                return bv32(t.enumnames[name])
        raise ExtractError('no enumerator %s' % name)

    def indirect_for(self, key):
        fn = self.indirects.get(key)
        if fn is None:
            return None

        def run(call):
            cc = CC(call.eng, 'call', call.args, call.st, '*' + key, call.rt, call)
            r = fn(cc)
            return r if r is not None else cc.ret
        return run

    # ---- hooks used by the engine / verifier
    def frame_exempt(self, m):
        return m == '$errno' or m.startswith('deref.') and False

    def frame_tags(self, m):
        return T

    def entry_facts(self, eng, st, args, types):
        """arguments do not point to locals of the function that is called"""
        for a in args:
            if a.sort().eq(Ptr):
                p = a
                for _ in range(2):
                    eng.fact(Implies(Ptr.is_obj(p), Ptr.oid(p) > 0))
                    p = If(Ptr.is_elt(p), Ptr.ebase(p), If(Ptr.is_sub(p), Ptr.sbase(p), p))
                eng.fact(Implies(Ptr.is_obj(p), Ptr.oid(p) > 0))

    def on_entry(self, eng, st, fdef, args):
        pass

    def on_local_object(self, eng, st, o, t, name):
        if t.is_rec:
            k = eng.recname(t)
            if k in self.kinds:
                st.maps['$kind'] = Store(st['$kind'], o, kindno(k))

    def on_array_init(self, eng, st, a, t, init):
        pass

    def on_string_init(self, eng, st, a, t, s):
        p = Ptr.elt(a, z3.IntVal(0))
        eng.touch('$str')
        eng.note_write('$str', p)
        st['$str'] = Store(st['$str'], p, strconst(s))

    def loop_mode(self, eng, fdef, node):
        return self.unroll.get(fdef.name)

    def valid_scalar(self, eng, st, p, t):
        return None

    def array_valid(self, eng, st, b, pos, i, it):
        return None

    # ---- memory
    def places(self, rec):
        """[(kind record, [field names with non-zero offset])] where an object of type rec can live"""
        r = self._places.get(rec)
        if r is None:
            r = []
            for k in self.kinds:
                self._walk(k, [], rec, r, k)
            self._places[rec] = r
        return r

    def _fields(self, rec):
        for tu in self.prog.tus:
            for pre in ('struct ', 'union '):
                fs = tu.types.records.get(pre + rec)
                if fs:
                    return fs
        return []

    def _walk(self, rec, path, want, out, k):
        if rec == want:
            out.append((k, list(path)))
        fs = self._fields(rec)
        for i, (fn, ft) in enumerate(fs):
            if ft.is_rec:
                rn = ft.name.split(' ', 1)[-1]
                self._walk(rn, path if i == 0 else path + [rec + '.' + fn], want, out, k)

    def valid_at(self, st, rec, p):
        ds = []
        for k, path in self.places(rec):
            cs, q = [], p
            for fn in reversed(path):
                if z3.is_app(q) and q.decl().eq(Ptr.sub):
                    cs.append(z3.BoolVal(q.arg(1).as_long() == FIELDS.id(fn)) if z3.is_int_value(q.arg(1)) else q.arg(1) == FIELDS.id(fn))
                    q = q.arg(0)
                elif z3.is_app(q) and q.decl().eq(Ptr.obj):
                    cs.append(FALSE)
                    break
                else:
                    cs.append(is_sub_of(q, fn))
                    q = Ptr.sbase(q)
            if any(z3.is_false(c) for c in cs):
                continue
            ds.append(And(cs + [Select(st['$kind'], q) == kindno(k)]))
        return Or(ds) if ds else None

    def valid(self, eng, st, rec, p):
        v = self.valid_at(st, rec, p)
        return v if v is not None else self.valid_other(eng, st, rec, p)

    def valid_other(self, eng, st, rec, p):
        return p != NULL

    def heads_of(self, rec):
        """paths of embedded list heads inside an object of kind rec (those used as list heads)"""
        out = []

        def walk(r, path):
            for i, (fn, ft) in enumerate(self._fields(r)):
                if ft.is_rec:
                    rn = ft.name.split(' ', 1)[-1]
                    p2 = path if i == 0 else path + [r + '.' + fn]
                    if rn == 'linked_list':
                        out.append(p2)
                    walk(rn, p2)
        walk(rec, [])
        return out

    def local_records(self, eng):
        out = []
        for key, o in eng.localaddr.items():
            nm, t = eng.varnames.get(key, ('?', None))
            if t is not None and t.is_rec:
                out.append((o, eng.recname(t), nm))
        return out

    def frame_guards(self, ctx, m, dom, heads):
        e0 = ctx.entry
        out = []
        if dom.eq(Ptr):
            out.append(('at live objects', lambda k: kind(e0, k) != 0))
            for desc, h in heads:
                if m in (NEXT, PREV, '$idx'):
                    out.append(('at list members outside %s' % desc, lambda k, h=h: And(Or(own(e0, k) != NULL, ishead(e0, k)), own(e0, k) != h, k != h)))
                if m in (NEXT, PREV) or m.startswith('$'):
                    out.append(('outside %s' % desc, lambda k, h=h: And(own(e0, k) != h, k != h)))
                else:
                    out.append(('outside %s' % desc, lambda k, h=h: own(e0, k) != h))
        return out

    def visit_preds(self, ctx, h, ints):
        return []

    def extra_heads(self, ctx, ptrs):
        return []

    def extra_candidates(self, ctx, heads, ptrs, ints, base):
        return []

    # ---- loop candidates: overridden by specs
    def loop_candidates(self, ctx):
        return list_candidates(self, ctx)


def register_core(S):
    @S.contract('__assert_fail')
    def assert_fail(c):
        c.requires('no assertion fails', ('C15', 'core'), FALSE)
        c.eng.kill(c.st)
        return bv32(0)

    @S.contract('abort')
    def abort_(c):
        c.requires('abort is never reached', ('C15', 'core'), FALSE)
        c.eng.kill(c.st)
        return bv32(0)


def at_path(p, path):
    for f in path:
        p = sub(p, f)
    return p


# --------------------------------------------------------------------------- lists

def own(s, n): return Select(s['$own'], n)
def idx(s, n): return Select(s['$idx'], n)
def llen(s, h): return Select(s['$len'], h)
def ishead(s, h): return Select(s['$ishead'], h)
def nxt(s, n): return Select(s[NEXT], n)
def prv(s, n): return Select(s[PREV], n)
def at(s, h, i): return Select(Select(s['$at'], h), i)
def kind(s, p): return Select(s['$kind'], p)


def LW1(s):
    o = own(s, n_)
    return forall([n_], Implies(o != NULL, And(
        ishead(s, o), idx(s, n_) >= 1, idx(s, n_) <= llen(s, o), Not(ishead(s, n_)), n_ != NULL,
        If(idx(s, n_) == llen(s, o), nxt(s, n_) == o,
           And(own(s, nxt(s, n_)) == o, idx(s, nxt(s, n_)) == idx(s, n_) + 1)),
        nxt(s, n_) != NULL, prv(s, nxt(s, n_)) == n_, at(s, o, idx(s, n_)) == n_)), [(nxt(s, n_), own(s, n_))])


def LW2(s):
    o = own(s, n_)
    return forall([n_], Implies(o != NULL, And(
        ishead(s, o), idx(s, n_) >= 1, idx(s, n_) <= llen(s, o),
        If(idx(s, n_) == 1, prv(s, n_) == o,
           And(own(s, prv(s, n_)) == o, idx(s, prv(s, n_)) == idx(s, n_) - 1)),
        prv(s, n_) != NULL, nxt(s, prv(s, n_)) == n_)), [(prv(s, n_), own(s, n_))])


def LW3(s):
    h = h_
    return forall([h], Implies(ishead(s, h), And(
        llen(s, h) >= 0, nxt(s, h) != NULL, prv(s, h) != NULL, h != NULL,
        prv(s, nxt(s, h)) == h, nxt(s, prv(s, h)) == h,
        If(llen(s, h) == 0, And(nxt(s, h) == h, prv(s, h) == h),
           And(own(s, nxt(s, h)) == h, idx(s, nxt(s, h)) == 1,
               own(s, prv(s, h)) == h, idx(s, prv(s, h)) == llen(s, h))))), [(ishead(s, h), nxt(s, h)), (ishead(s, h), prv(s, h))])


def LW5(s):
    return forall([h_], Implies(ishead(s, h_), own(s, h_) == NULL), [(ishead(s, h_), own(s, h_))])


def LW6(s):
    return forall([h_], Implies(ishead(s, h_), llen(s, h_) >= 0), [(ishead(s, h_), llen(s, h_))])


def LW4(s):
    # position is injective (inverse map), usable without next/prev terms
    return forall([n_], Implies(own(s, n_) != NULL, And(
        at(s, own(s, n_), idx(s, n_)) == n_, idx(s, n_) >= 1, idx(s, n_) <= llen(s, own(s, n_)),
        ishead(s, own(s, n_)))), [(idx(s, n_), own(s, n_))])


LW = [('every list is well formed (forward)', ('C30', 'C15', 'core'), LW1),
      ('every list is well formed (backward)', ('C30', 'C15', 'core'), LW2),
      ('every list head is well formed', ('C30', 'C15', 'core'), LW3),
      ('list positions are distinct', ('C30', 'core'), LW4),
      ('a list head is no list element', ('C30', 'core'), LW5),
      ('the length of a list is not negative', ('C30', 'core'), LW6)]


def valid_list_fn(specs):
    def LV(s):
        v = specs.valid_at(s, 'linked_list', n_)
        return forall([n_], Implies(own(s, n_) != NULL, And(v, ishead(s, own(s, n_)), idx(s, n_) >= 1, idx(s, n_) <= llen(s, own(s, n_)))), [own(s, n_)])

    def LVh(s):
        v = specs.valid_at(s, 'linked_list', h_)
        return forall([h_], Implies(ishead(s, h_), v), [ishead(s, h_)])
    return [('every list element is live memory', ('C15', 'C30', 'core'), LV),
            ('every list head is live memory', ('C15', 'C30', 'core'), LVh)]


def list_of(s, p):
    """the head of the list p belongs to (p itself if it is a head)"""
    return If(ishead(s, p), p, own(s, p))


def pos_of(s, p):
    return If(ishead(s, p), z3.IntVal(0), idx(s, p))


def def_shift_insert(s_old, h, p, elem):
    def mk_idx(new):
        return [forall([n_], Select(new, n_) == If(n_ == elem, p + 1,
                       If(And(own(s_old, n_) == h, idx(s_old, n_) > p), idx(s_old, n_) + 1, idx(s_old, n_))),
                       [Select(new, n_)])]
    return mk_idx


i_ = bound('i', IntS)


def register_lists(S):
    lv = valid_list_fn(S)
    S.LL = LW + lv
    TL = ('C30', 'core')

    @S.contract('linked_list_init')
    def ll_init(c):
        (l,) = c.args
        s = c.old
        c.inv(S.LL)
        c.requires('the argument is memory for a list', ('C15', 'core'), S.valid_at(s, 'linked_list', l))
        c.requires('the list is not an element of a list', ('C15', 'core'), own(s, l) == NULL)
        c.requires('the list is not in use', ('C15', 'core'), Implies(ishead(s, l), llen(s, l) == 0))
        c.modifies_at(NEXT, l)
        c.modifies_at(PREV, l)
        c.post()
        o, n = c.old, c.new
        c.set('$ishead', Store(o['$ishead'], l, TRUE))
        c.set('$len', Store(o['$len'], l, z3.IntVal(0)))
        c.ensures('next is the list itself', TL, nxt(n, l) == l)
        c.ensures('prev is the list itself', TL, prv(n, l) == l)
        c.inv_post(S.LL)

    @S.contract('linked_list_empty')
    def ll_empty(c):
        (l,) = c.args
        c.inv(S.LL)
        c.requires('the argument is a list head', ('C15', 'core'), ishead(c.old, l))
        c.post()
        c.ensures('true exactly for a list without elements', TL, c.ret == (llen(c.old, l) == 0))

    @S.contract('linked_list_insert')
    def ll_insert(c):
        l, e = c.args
        s = c.old
        c.inv(S.LL)
        c.requires('the position is a list head or a list element', ('C15', 'core'), Or(ishead(s, l), own(s, l) != NULL))
        c.requires('the element is memory for a list', ('C15', 'core'), S.valid_at(s, 'linked_list', e))
        c.requires('the element is detached', ('C15', 'core'), And(own(s, e) == NULL, prv(s, e) == nxt(s, e), e != l, Implies(ishead(s, e), llen(s, e) == 0)))
        c.modifies(NEXT, PREV)
        c.post()
        o, n = c.old, c.new
        h, p = c.let('h', list_of(o, l)), c.let('p', pos_of(o, l))
        on = c.let('on', nxt(o, l))
        c.set('$own', Store(o['$own'], e, h))
        c.set('$ishead', Store(o['$ishead'], e, FALSE))
        c.set('$len', Store(o['$len'], h, llen(o, h) + 1))

        def mk_idx(new):
            return [forall([n_], Select(new, n_) == If(n_ == e, p + 1,
                           If(And(own(o, n_) == h, idx(o, n_) > p), idx(o, n_) + 1, idx(o, n_))), [Select(new, n_)])]

        def mk_at(new):
            return [forall([i_], Select(Select(new, h), i_) == If(i_ == p + 1, e, If(i_ > p + 1, at(o, h, i_ - 1), at(o, h, i_))),
                           [Select(Select(new, h), i_)]),
                    forall([h_], Implies(h_ != h, Select(new, h_) == Select(o['$at'], h_)), [Select(new, h_)])]
        c.define('$idx', mk_idx)
        c.define('$at', mk_at)
        c.ensures('the element follows the position and precedes its old successor', TL,
                  n[NEXT] == Store(Store(o[NEXT], e, on), l, e))
        c.ensures('backward links match', TL, n[PREV] == Store(Store(o[PREV], e, l), on, e))
        c.inv_post(S.LL)

    @S.contract('linked_list_remove')
    def ll_remove(c):
        (e,) = c.args
        s = c.old
        c.inv(S.LL)
        c.requires('the argument is a list element or an empty list', ('C15', 'core'),
                   Or(own(s, e) != NULL, And(ishead(s, e), llen(s, e) == 0)))
        c.modifies(NEXT, PREV)
        c.post()
        o, n = c.old, c.new
        h, p = c.let('h', own(o, e)), c.let('p', idx(o, e))
        c.set('$own', Store(o['$own'], e, NULL))
        c.set('$ishead', Store(o['$ishead'], e, FALSE))
        c.set('$len', If(h == NULL, o['$len'], Store(o['$len'], h, llen(o, h) - 1)))

        def mk_idx(new):
            return [forall([n_], Select(new, n_) == If(And(h != NULL, own(o, n_) == h, idx(o, n_) > p), idx(o, n_) - 1, idx(o, n_)),
                           [Select(new, n_)])]

        def mk_at(new):
            return [forall([i_], Implies(h != NULL, Select(Select(new, h), i_) == If(i_ >= p, at(o, h, i_ + 1), at(o, h, i_))),
                           [Select(Select(new, h), i_)]),
                    forall([h_], Implies(Or(h_ != h, h == NULL), Select(new, h_) == Select(o['$at'], h_)), [Select(new, h_)])]
        c.define('$idx', mk_idx)
        c.define('$at', mk_at)
        c.ensures('the neighbours are linked to each other, the element is detached (next)', TL,
                  n[NEXT] == Store(Store(o[NEXT], prv(o, e), nxt(o, e)), e, NULL))
        c.ensures('the neighbours are linked to each other, the element is detached (prev)', TL,
                  n[PREV] == Store(Store(o[PREV], nxt(o, e), prv(o, e)), e, NULL))
        c.inv_post(S.LL)

    @S.contract('linked_list_take')
    def ll_take(c):
        t, src = c.args
        s = c.old
        c.inv(S.LL)
        c.requires('both arguments are different list heads', ('C15', 'core'), And(ishead(s, t), ishead(s, src), t != src))
        c.modifies(NEXT, PREV)
        c.post()
        o, n = c.old, c.new
        k = llen(o, src)

        def mk_own(new):
            return [forall([n_], Select(new, n_) == If(own(o, n_) == src, t, own(o, n_)), [Select(new, n_)]),
                    forall([n_], Select(new, n_) == If(own(o, n_) == src, t, own(o, n_)), [own(o, n_)])]

        def mk_idx(new):
            return [forall([n_], Select(new, n_) == If(own(o, n_) == t, idx(o, n_) + k, idx(o, n_)), [Select(new, n_)])]

        def mk_at(new):
            return [forall([i_], Select(Select(new, t), i_) == If(i_ <= k, at(o, src, i_), at(o, t, i_ - k)),
                           [Select(Select(new, t), i_)]),
                    forall([h_], Implies(h_ != t, Select(new, h_) == Select(o['$at'], h_)), [Select(new, h_)])]
        c.define('$own', mk_own)
        c.set('$len', Store(Store(o['$len'], t, llen(o, t) + k), src, z3.IntVal(0)))
        c.define('$idx', mk_idx)
        c.define('$at', mk_at)
        j = bound('j', Ptr)
        c.ensures('links of other lists are untouched', TL, forall([j], Implies(
            And(own(o, j) != src, own(o, j) != t, j != t, j != src), And(nxt(n, j) == nxt(o, j), prv(n, j) == prv(o, j))),
            [nxt(n, j), prv(n, j)]))
        c.inv_post(S.LL)


def list_candidates(S, ctx):
    """generic invariant candidates for list loops"""
    eng = ctx.eng
    e0 = ctx.entry
    out = []

    def add(desc, fn, parent=None):
        out.append((desc, fn, parent))
        return len(out) - 1

    ptrs, ints, mods = [], [], set(ctx.modvars)
    for key, name, t in ctx.locals():
        if t.is_ptr and t.to.is_rec:
            ptrs.append((key, name, eng.recname(t.to)))
        elif t.is_int and t.w >= 32:
            ints.append((key, name, t))
    # list heads in scope
    heads, seen = [], set()

    def add_head(desc, term):
        if term.get_id() not in seen:
            seen.add(term.get_id())
            heads.append((desc, term))
    for key, name, rec in ptrs:
        if key in mods:
            continue
        p = e0.vars[key]
        if rec == 'linked_list' and S.var_heads:
            add_head(name, p)
        for path in S.heads_of(rec):
            if path:
                add_head(name + '.' + path[-1], at_path(p, path))
    for o, rec, name in S.local_records(eng):
        for path in S.heads_of(rec):
            if path:
                add_head(name + '.' + path[-1], at_path(o, path))
    for desc, h in S.extra_heads(ctx, ptrs):
        add_head(desc, h)
    for desc, h in heads:
        add('%s is a list head' % desc, lambda s, h=h: ishead(s, h))
    # where the pointers are
    movers = []
    for key, name, rec in ptrs:
        if key not in mods:
            continue
        for desc, h in heads:
            add('%s walks %s' % (name, desc), lambda s, h=h, key=key: Or(s.vars[key] == h, own(s, s.vars[key]) == h))
            movers.append((key, name, desc, h))
            if S.null_walkers: add('%s is null or in %s' % (name, desc), lambda s, h=h, key=key: Or(s.vars[key] == NULL, own(s, s.vars[key]) == h))
        add('%s is unchanged' % name, lambda s, key=key: s.vars[key] == e0.vars[key])
    # invariants of the function
    for nm, fn in eng.fn_inv:
        add('[inv] ' + nm, fn)
    # frames
    hl = [h for _, h in heads]
    for m in ctx.modmaps:
        if m.startswith('glob.') or m.startswith('deref.') and False:
            pass
        srt = e0[m].sort()
        f1 = add('%s is unchanged' % m, lambda s, m=m: s[m] == e0[m])
        if not z3.is_array(e0[m]):
            if z3.is_bool(e0[m]):
                add('%s stays true' % m, lambda s, m=m: Implies(e0[m], s[m]), f1)
                add('%s stays false' % m, lambda s, m=m: Implies(s[m], e0[m]), f1)
            continue
        dom = srt.domain()
        guards = S.frame_guards(ctx, m, dom, heads)
        par = f1
        for gd, g in guards:
            k = bound('k', dom)
            add('%s is unchanged %s' % (m, gd), lambda s, m=m, k=k, g=g: forall([k], Implies(g(k), Select(s[m], k) == Select(e0[m], k)), [Select(s[m], k)]), par)
        if dom.eq(Ptr):
            la, got = [], set()
            for a in list(eng.local_writes.get(m, ())) + list(eng.alloc_writes.get(m, ())):
                if a.get_id() not in got:
                    got.add(a.get_id())
                    add('%s is unchanged at a local object' % m, lambda s, m=m, a=a: Select(s[m], a) == Select(e0[m], a), f1)
    # visited / unvisited
    x = bound('x', Ptr)
    for key, name, desc, h in movers:
        def visited(s, x, key=key, h=h):
            v = s.vars[key]
            return And(own(s, x) == h, idx(s, x) >= 1, Or(v == h, idx(s, x) < idx(s, v)))

        def unvisited(s, x, key=key, h=h):
            v = s.vars[key]
            return And(own(s, x) == h, idx(s, x) >= 1, v != h, idx(s, x) >= idx(s, v))
        for pd, P in S.visit_preds(ctx, h, ints):
            add('every element of %s before %s: %s' % (desc, name, pd),
                lambda s, P=P, visited=visited: forall([x], Implies(visited(s, x), P(s, x)), [own(s, x)]))
        for m in ctx.modmaps:
            mp = e0[m]
            if S.tail_frames and z3.is_array(mp) and mp.sort().domain().eq(Ptr) and not m.startswith('$') and m not in (NEXT, PREV):
                add('%s is unchanged from %s on' % (m, name), lambda s, m=m, unvisited=unvisited: forall([x], Implies(
                    unvisited(s, x), Select(s[m], x) == Select(e0[m], x)), [own(s, x)]))
        for key2, iname, t in ints:
            if key2 in mods and S.counters:
                def cnt(s, key=key, key2=key2, h=h, t=t):
                    v = s.vars[key]
                    c = toBV(If(v == h, llen(s, h), idx(s, v) - 1))
                    if t.w == 32:
                        c = z3.Extract(31, 0, c)
                    return s.vars[key2] == e0.vars[key2] + c
                add('%s counts the elements before %s' % (iname, name), cnt)
    for key2, iname, t in ints:
        if key2 in mods:
            add('%s does not decrease' % iname, lambda s, key2=key2, t=t: s.vars[key2] >= e0.vars[key2] if t.signed else z3.UGE(s.vars[key2], e0.vars[key2]))
            add('%s is unchanged' % iname, lambda s, key2=key2: s.vars[key2] == e0.vars[key2])
    out += S.extra_candidates(ctx, heads, ptrs, ints, len(out))
    return out
