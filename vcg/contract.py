"""Contracts: one Python function describes requires / modifies / ensures; it is run in three modes.

call   the callee's contract applied at a call site: requires are obligations, ensures are assumptions
entry  the function under verification, start: requires are assumptions
exit   the function under verification, at each return: ensures (and the frame) are obligations
"""
import z3
from .logic import *
from .ctype import *
from .cast import ExtractError
from .engine import State, PC, Frame, Engine


class _StopEntry(Exception):
    pass


class CC:
    """contract context"""
    def __init__(self, eng, mode, args, st, name, rett, call=None):
        self.eng, self.mode, self.args, self.name, self.rett, self.call = eng, mode, args, name, rett, call
        self.st = st
        self.mods = {}       # map -> None (whole) or list of keys
        self.keepn = {}
        self.kept = []
        self.ret = None
        self.old = eng.entry if mode == 'exit' else (st.copy() if mode == 'call' else st)
        self.new = None
        self.posted = False
        self.loc = call.loc if call is not None else None
        self.local_ok = set()

    # -- before post
    def requires(self, name, tags, f):
        if callable(f):
            f = f(self.old)
        if self.mode == 'call':
            self.eng.prove(self.st, f, '%s: requires %s' % (self.name, name), tags, self.loc)
        elif self.mode == 'entry':
            self.eng.assume(self.st, f)

    def assuming(self, name, f):
        """an unchecked assumption about the initial state (listed in the evidence)"""
        if self.mode == 'entry':
            self.eng.assumptions.add('%s: %s' % (self.name, name))
            self.eng.assume(self.st, f)

    def inv(self, clauses, tagfilter=None):
        if self.mode == 'entry':
            self.eng.fn_inv = [(nm, fn) for nm, _, fn in clauses]
        for nm, tags, fn in clauses:
            self.requires('[inv] ' + nm, tags, fn)

    def loop_inv(self, name, f):
        """a candidate invariant of the loops of the function: f(old, state)"""
        if self.mode == 'entry':
            old = self.old
            self.eng.fn_inv = self.eng.fn_inv + [(name, lambda s: f(old, s))]

    def keeps(self, name, tags, f):
        """a relation between the state before and after: ensured at the end, and an invariant of the loops"""
        self.loop_inv(name, f)
        self.kept.append((name, tags, f))

    def ensure_kept(self):
        for name, tags, f in self.kept:
            self.ensures(name, tags, f(self.old, self.new))

    def modifies(self, *maps):
        for m in maps:
            self.mods[m] = None

    def modifies_at(self, m, *keys):
        if m in self.mods and self.mods[m] is None:
            return
        self.mods.setdefault(m, []).extend(keys)

    def post(self):
        """everything after this describes the final state"""
        self.posted = True
        if self.mode == 'entry':
            raise _StopEntry()
        if self.mode == 'call':
            st = self.st
            self.old = st.copy()
            eng = self.eng
            for m, keys in self.mods.items():
                if keys is None:
                    srt = self.old[m].sort()
                    eng.touch(m)
                    eng.nonlocal_writes.add(m)
                    st.maps[m] = fresh(m, srt)
                    eng.const_facts(st.maps[m], m)
                    # memory of the caller's own locals is not reachable by the callee unless passed to it
                    for a in self._locals(m):
                        eng.fact(Select(st.maps[m], a) == Select(self.old[m], a))
                else:
                    cur = st[m]
                    for k in keys:
                        eng.note_write(m, k)
                        cur = Store(cur, k, fresh(m.replace('.', '_'), cur.sort().range()))
                    st[m] = cur
            self.new = st
            if eng.specs.errno_rule and '$errno' in self.mods:
                eng.fact(Or(st['$errno'] == self.old['$errno'], st['$errno'] != 0))
            if self.rett is not None and not self.rett.is_void and not self.rett.is_rec:
                self.ret = fresh('ret_' + self.name, eng.sort_of(self.rett))
        else:
            self.old = self.eng.entry
            self.new = self.st
            if self.eng.specs.errno_rule and '$errno' in self.mods:
                self.ensures('errno is never set to zero', ('C13', 'core'), Or(self.new['$errno'] == self.old['$errno'], self.new['$errno'] != 0))

    def _locals(self, m):
        if m in ('linked_list.next', 'linked_list.prev'):
            # a local list is reachable through the links of its elements
            return
        roots = set()
        for a in self.args:
            r = _root(a)
            if r is not None:
                roots.add(r.get_id())
        seen = set()
        for a in self.eng.local_writes.get(m, ()):
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            r = _root(a)
            if r is not None and r.get_id() in roots:
                continue
            yield a

    # -- after post
    def ensures(self, name, tags, f):
        assert self.posted
        if callable(f):
            f = f()
        if f is None:
            return
        if self.mode == 'call':
            self.eng.assume(self.st, f)
        else:
            self.eng.prove(self.st, f, '%s: ensures %s' % (self.name, name), tags, self.loc, assume=True)

    def inv_post(self, clauses):
        for nm, tags, fn in clauses:
            self.ensures('[inv] ' + nm, tags, fn(self.new))

    def define(self, m, mk):
        """ghost code at the end of the function: the new value of ghost map m, given by mk(newmap) -> facts"""
        st = self.st
        if self.mode == 'call' and m not in self.mods:
            self.old_save = None
        self.eng.touch(m)
        self.eng.nonlocal_writes.add(m)
        self.mods.setdefault(m, None)
        st.maps[m] = fresh(m, self.old[m].sort())
        for f in mk(st.maps[m]):
            self.eng.assume(st, f)

    def set(self, m, val):
        """ghost assignment at the end of the function (both modes)"""
        self.mods.setdefault(m, None)
        self.eng.nonlocal_writes.add(m)
        self.st[m] = val

    def let(self, name, term):
        v = fresh(name, term.sort())
        self.eng.fact(v == term)
        return v

    def only_exit(self):
        return self.mode == 'exit'


def _root(p):
    if not (z3.is_app(p) and p.sort().eq(Ptr)):
        return None
    while z3.is_app(p) and (p.decl().eq(Ptr.sub) or p.decl().eq(Ptr.elt)):
        p = p.arg(0)
    if z3.is_app(p) and p.decl().eq(Ptr.obj):
        return p
    return None


class Contract:
    def __init__(self, name, fn, external=False, rel=None, sig=None):
        self.name, self.fn, self.external, self.rel, self.sig = name, fn, external, rel, sig

    def apply(self, call):
        cc = CC(call.eng, 'call', call.args, call.st, self.name, call.rt, call)
        r = self.fn(cc)
        if r is not None:
            return r
        return cc.ret


def verify_function(eng, fdef, contract, only=None):
    """generate every obligation of fdef against its contract"""
    eng.inst += 1
    fr = Frame(fdef, eng.inst)
    eng.frames = [fr]
    eng.cur_tu = fdef.tu
    st = State(eng, {}, {}, PC(z3.Const('pc0', BoolS), frozenset()))
    eng.fact(st.pc.b)
    ptypes = [eng.ctype(p) for p in fdef.params]
    args = []
    for p, t in zip(fdef.params, ptypes):
        args.append(z3.Const('arg_%s' % p.get('name', '?'), eng.sort_of(t)))
    eng.specs.entry_facts(eng, st, args, ptypes)
    eng.bind_params(fdef, fr, args, st)
    eng.params = args
    cc = CC(eng, 'entry', args, st, fdef.name, fdef.rettype)
    try:
        contract.fn(cc)
    except _StopEntry:
        pass
    mods0 = dict(cc.mods)
    eng.entry = st.copy()
    eng.inline_stack.append((fdef.tu.rel, fdef.name))
    eng.local_writes = {}
    eng.nonlocal_writes = set()
    eng.fn_contract = cc
    eng.specs.on_entry(eng, st, fdef, args)
    end = eng.stmt(fdef.body, st)
    eng.check_gotos(fr)
    rets = list(zip(fr.returns, list(eng.retlocs)))
    if end is not None:
        rets.append(((end, None), fdef.tu.rel + ': end of ' + fdef.name))
    nonlocal_written = set(eng.nonlocal_writes)
    local_written = {k: list(v) for k, v in eng.local_writes.items()}
    for (s, v), loc in rets:
        eng.cur_loc = loc
        eng.covers.append((loc, s.pc.b))
        c2 = CC(eng, 'exit', args, s, fdef.name, fdef.rettype)
        c2.loc = loc
        c2.ret = v if v is not None else (None if fdef.rettype.is_void else fresh('noret', eng.sort_of(fdef.rettype)))
        body_state = s.copy()
        contract.fn(c2)
        # frame: maps written by the body but not listed
        for m in sorted(nonlocal_written):
            if m in c2.mods and c2.mods[m] is None:
                continue
            if eng.specs.frame_exempt(m):
                continue
            o, n = eng.entry[m], body_state[m]
            if o.eq(n):
                continue
            if not z3.is_array(o):
                eng.prove(s, o == n, '%s: modifies nothing else (%s)' % (fdef.name, m), eng.specs.frame_tags(m), loc)
                continue
            k = fresh('frame', o.sort().domain())
            hyp = [k != x for x in c2.mods.get(m, [])]
            if o.sort().domain().eq(Ptr):
                hyp += [k != a for a in local_written.get(m, [])]
                hyp += [k != a for a in eng.alloc_writes.get(m, [])]
            g = Implies(And(hyp) if hyp else TRUE, Select(n, k) == Select(o, k))
            eng.prove(s, g, '%s: modifies nothing else (%s)' % (fdef.name, m), eng.specs.frame_tags(m), loc)
        for m in sorted(local_written):
            pass
    eng.inline_stack.pop()
    return eng
