"""Symbolic execution of one function under contract; produces facts and obligations."""
import z3
from .logic import *
from .ctype import *
from .cast import ExtractError, _off

MASKW = {}


class Dead(Exception):
    pass


class PC:
    __slots__ = ('b', 'anc')
    def __init__(self, b, anc):
        self.b = b
        self.anc = anc | {b.get_id()}


class State:
    __slots__ = ('vars', 'maps', 'pc', 'eng')

    def __init__(self, eng, vars, maps, pc):
        self.eng, self.vars, self.maps, self.pc = eng, vars, maps, pc

    def copy(self):
        return State(self.eng, dict(self.vars), dict(self.maps), self.pc)

    def take(self, o):
        self.vars, self.maps, self.pc = o.vars, o.maps, o.pc

    def __getitem__(self, name):
        m = self.maps.get(name)
        if m is None:
            m = self.eng.initial_map(name)
            # must be the same initial symbol on every path
        return m

    def __setitem__(self, name, val):
        self.eng.touch(name)
        self[name]
        nm = fresh(name, val.sort())
        self.eng.fact(nm == val)
        self.maps[name] = nm

    def store(self, name, key, val):
        self.eng.note_write(name, key)
        self[name] = Store(self[name], key, val)

    def havoc(self, name):
        self.eng.touch(name)
        self.maps[name] = fresh(name, self[name].sort())
        self.eng.after_havoc(self, name)
        return self.maps[name]


class Obligation:
    __slots__ = ('pos', 'pc', 'goal', 'name', 'tags', 'loc', 'cand', 'kind')
    def __init__(self, pos, pc, goal, name, tags, loc, cand=None, kind='obl'):
        self.pos, self.pc, self.goal, self.name = pos, pc, goal, name
        self.tags, self.loc, self.cand, self.kind = tags, loc, cand, kind


class Frame:
    def __init__(self, fdef, inst):
        self.fdef, self.inst = fdef, inst
        self.returns = []
        self.gotos = {}
        self.done_labels = set()
        self.brk = []
        self.cont = []


class Call:
    """what a contract sees"""
    def __init__(self, eng, name, args, argtypes, st, loc):
        self.eng, self.name, self.args, self.argtypes, self.st, self.loc = eng, name, args, argtypes, st, loc
        self.argnodes = None


class Engine:
    def __init__(self, program, specs):
        self.prog, self.specs = program, specs
        self.facts = []
        self.obls = []
        self.touched = [set()]
        self.init_maps = {}
        self.asserted = {}
        self.inst = 0
        self.objn = 0
        self.frames = []
        self.dry = 0
        self.cands = []          # (indicator, description)
        self.cur_loc = None
        self.strlits = {}
        self.lit_seen = []
        self.gobj = {}
        self.addr_cache = {}
        self.inline_stack = []
        self.notes = set()
        self.const_done = {}
        self.called_contracts = set()
        self.inlined = set()
        self.loopno = 0
        self.entry = None
        self.covers = []
        self.local_objs = []
        self.max_inline = 14
        self.keep = []
        self.localaddr = {}
        self.objlen = {}
        self.varnames = {}
        self.retlocs = []
        self.local_writes = {}   # map -> list of local addresses written
        self.nonlocal_writes = set()
        self.field_types = {}
        self.glob_types = {}
        self.const_vals = {}
        self._gat = {}
        self.cur_tu = None
        self.fn_candidates = []
        self.alloc_objs = []
        self.alloc_writes = {}
        self.assumptions = set()
        self.fn_inv = []
        self.params = []

    # ---------------------------------------------------------------- basics
    def fact(self, f):
        self.facts.append(f)

    def assume(self, st, f):
        self.facts.append(Implies(st.pc.b, f))

    def touch(self, name):
        for s in self.touched:
            s.add(name)

    def note_alloc(self, name, addr):
        self.alloc_writes.setdefault(name, []).append(addr)

    def note_write(self, name, addr):
        if self.is_local(addr):
            self.local_writes.setdefault(name, []).append(addr)
        else:
            self.nonlocal_writes.add(name)

    def newpc(self, st, cond):
        b = fresh('pc', BoolS)
        self.keep.append(b)
        self.fact(b == And(st.pc.b, cond))
        return PC(b, st.pc.anc)

    def prove(self, st, goal, name, tags, loc=None, assume=True):
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(goal):
            if not self.dry:
                self.obls.append(Obligation(len(self.facts), st.pc.b, goal, name, tags, loc or self.cur_loc, kind='trivial'))
            return
        key = (goal.get_id(), name)
        self.keep.append(goal)
        ids = self.asserted.setdefault(key, [])
        for pcid, g in ids:
            if pcid in st.pc.anc and g.eq(goal):
                return
        ids.append((st.pc.b.get_id(), goal))
        if not self.dry:
            self.obls.append(Obligation(len(self.facts), st.pc.b, goal, name, tags, loc or self.cur_loc))
        if assume:
            self.assume(st, goal)

    def map_sort(self, name):
        s = self.specs.ghost_sorts.get(name)
        if s is not None:
            return s
        if name.startswith('deref.'):
            return z3.ArraySort(Ptr, Ptr if name[6:] == 'ptr' else BoolS if name[6:] == 'bool' else z3.BitVecSort(int(name[7:])))
        t = self.field_types.get(name)
        if t is None and name.startswith('glob.'):
            t = self.glob_types.get(name)
            if t is None:
                rel, _, var = name[5:].rpartition(':')
                for tu in self.prog.tus:
                    d = tu.gname.get(var)
                    if d is not None and (not rel or tu.rel == rel):
                        t = self.glob_types[name] = tu.types.parse(d['type'].get('desugaredQualType') or d['type']['qualType'])
                        break
                else:
                    raise ExtractError('no global variable %s' % name)
            return self.sort_of(t)
        if t is None and '.' in name:
            rec, fld = name.rsplit('.', 1)
            for tu in self.prog.tus:
                for k in ('struct ' + rec, 'union ' + rec):
                    for fn_, ft in tu.types.records.get(k, []):
                        if fn_ == fld:
                            self.field_types[name] = t = ft
            if t is None:
                raise ExtractError('no field %s in the program' % name)
        return z3.ArraySort(Ptr, self.sort_of(t))


    def initial_map(self, name):
        m = self.init_maps.get(name)
        if m is None:
            m = self.init_maps[name] = z3.Const(name + '@0', self.map_sort(name))
            self.const_facts(m, name)
        return m

    def const_facts(self, m, name):
        for addr, val in self.const_vals.get(name, ()):
            self.facts.append(Select(m, addr) == val)

    def after_havoc(self, st, name):
        self.const_facts(st.maps[name], name)
        h = self.specs.havoc_hooks.get(name)
        if h:
            h(self, st)


    def sort_of(self, t):
        if t.is_bool: return BoolS
        if t.is_int: return z3.BitVecSort(t.w)
        if t.is_ptr or t.is_func or t.is_arr: return Ptr
        raise ExtractError('no sort for %r' % t)

    def default(self, t):
        if t.is_bool: return FALSE
        if t.is_int: return z3.BitVecVal(0, t.w)
        return NULL

    # ---------------------------------------------------------------- types
    def ctype(self, node):
        ty = node['type']
        tt = self.frames[-1].fdef.tu.types if self.frames else self.cur_tu.types
        try:
            return tt.parse(ty.get('desugaredQualType', ty['qualType']))
        except ValueError:
            return tt.parse(ty['qualType'])

    def recname(self, t):
        n = t.name
        return n.split(' ', 1)[1] if ' ' in n and '(' not in n else n

    def fields_of(self, t):
        tt = self.frames[-1].fdef.tu.types if self.frames else self.cur_tu.types
        fs = tt.records.get(t.name)
        if fs is None:
            fs = self.prog.all_records.get(t.name)
        if fs is None:
            raise ExtractError('incomplete record %s' % t.name)
        return fs

    # ---------------------------------------------------------------- states
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        b = fresh('pcm', BoolS)
        self.keep.append(b)
        self.fact(b == Or([s.pc.b for s in states]))
        anc = set(states[0].pc.anc)
        for s in states[1:]:
            anc &= s.pc.anc
        out = State(self, {}, {}, PC(b, frozenset(anc)))
        keys = set()
        for s in states: keys |= s.maps.keys()
        for k in sorted(keys):
            vals = [s[k] for s in states]
            if all(v.eq(vals[0]) for v in vals[1:]):
                out.maps[k] = vals[0]
            else:
                nv = fresh(k, vals[0].sort())
                for s, v in zip(states, vals):
                    self.fact(Implies(s.pc.b, nv == v))
                out.maps[k] = nv
        vkeys = set(states[0].vars)
        for s in states[1:]: vkeys &= s.vars.keys()
        for k in vkeys:
            vals = [s.vars[k] for s in states]
            if all(v.eq(vals[0]) for v in vals[1:]):
                out.vars[k] = vals[0]
            else:
                nv = fresh('v', vals[0].sort())
                for s, v in zip(states, vals):
                    self.fact(Implies(s.pc.b, nv == v))
                out.vars[k] = nv
        return out

    def fork(self, st, cond):
        """-> (state where cond, state where not cond); either may be None if syntactically impossible"""
        cond = z3.simplify(cond)
        if z3.is_true(cond): return st, None
        if z3.is_false(cond): return None, st
        t, f = st.copy(), st.copy()
        t.pc = self.newpc(st, cond)
        f.pc = self.newpc(st, Not(cond))
        return t, f

    # ---------------------------------------------------------------- objects
    def newobj(self, kind=None):
        self.objn += 1
        return Ptr.obj(z3.IntVal(-self.objn))

    def strlit(self, s):
        if s not in self.strlits:
            p = self.newobj()
            self.strlits[s] = p
        return self.strlits[s]

    def literal_fact(self, p, s, st):
        """the value of a literal (message texts are of no interest)"""
        if '$str' not in self.specs.ghost_sorts or ' ' in s:
            return
        v = strconst(s)
        self.facts.append(Select(st['$str'], p) == v)
        if s not in self.lit_seen:
            for t in self.lit_seen:
                self.facts.append(v != strconst(t))
            self.lit_seen.append(s)
            self.const_vals.setdefault('$str', []).append((p, v))

    def strlit_ptr(self, s):
        p = self.strlit(s)
        return p

    def global_obj(self, tu, decl):
        name = decl['name']
        static = decl.get('storageClass') == 'static'
        key = (tu.rel if static else '', name)
        if key not in self.gobj:
            self.objn += 1
            self.gobj[key] = Ptr.obj(z3.IntVal(-self.objn))
            t = tu.types.parse(decl['type'].get('desugaredQualType') or decl['type']['qualType'])
            if t.is_arr and t.n:
                self.objlen[-self.objn] = t.n
        return self.gobj[key]

    def fnptr(self, name):
        return Ptr.fn(z3.IntVal(FIELDS.id('fn:' + name)))

    # ---------------------------------------------------------------- address-taken analysis
    def addr_taken(self, fdef):
        r = self.addr_cache.get(id(fdef))
        if r is not None:
            return r
        r = set()

        def strip(n):
            while n.get('kind') in ('ParenExpr',):
                n = n['inner'][0]
            return n

        def walk(n):
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                c = strip(n['inner'][0])
                if c.get('kind') == 'DeclRefExpr':
                    r.add(c['referencedDecl']['id'])
            for c in n.get('inner', []) or []:
                if isinstance(c, dict):
                    walk(c)
        walk(fdef.body)
        self.addr_cache[id(fdef)] = r
        return r

    # ---------------------------------------------------------------- lvalues
    def loc(self, node):
        rng = node.get('range', {}).get('begin') or node.get('loc')
        off = _off(rng)
        fdef = self.frames[-1].fdef if self.frames else None
        if off is None or fdef is None:
            return self.cur_loc
        return '%s:%d (%s)' % (fdef.tu.rel, fdef.tu.line_of(off), fdef.name)

    def lval(self, n, st):
        k = n['kind']
        if k == 'ParenExpr':
            return self.lval(n['inner'][0], st)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            t = self.ctype(n)
            key = (self.frames[-1].inst, rd['id'])
            if key in self.localaddr:
                a = self.localaddr[key]
                if t.is_rec or t.is_arr:
                    return ('agg', a, t)
                return ('mem', a, t)
            if key in st.vars:
                return ('var', key, t)
            tu = self.frames[-1].fdef.tu
            if rd['id'] in tu.globals:
                decl = tu.gname[tu.globals[rd['id']]['name']]
                return self.glob_lval(tu, decl, t)
            if rd['kind'] == 'FunctionDecl':
                return ('fn', rd['name'], t)
            # local that is not live on this path (declared after a label we jumped over): fresh
            if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
                st.vars[key] = fresh(rd['name'], self.sort_of(t))
                return ('var', key, t)
            raise ExtractError('unknown variable %s' % rd.get('name'))
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow'):
                p = self.rval(base, st)
                bt = self.ctype(base).to
                self.check_valid(st, p, bt, n)
            else:
                lv = self.lval(base, st)
                bt = lv[2]
                if lv[0] != 'agg':
                    raise ExtractError('member of non-aggregate')
                p = lv[1]
            return self.member(p, bt, n['name'], self.ctype(n))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            inner = n['inner'][0]
            c = inner
            while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                c = c['inner'][0]
            if c['kind'] == 'CallExpr' and self.callee_name(c) == '__errno_location':
                return ('ghost', '$errno', INT)
            p = self.rval(inner, st)
            t = self.ctype(n)
            return self.deref(st, p, t, n)
        if k == 'UnaryOperator' and n['opcode'] == '__extension__':
            return self.lval(n['inner'][0], st)
        if k == 'ArraySubscriptExpr':
            p = self.rval(n['inner'][0], st)
            pt = self.ctype(n['inner'][0])
            i = self.rval(n['inner'][1], st)
            it = self.ctype(n['inner'][1])
            if not pt.is_ptr:
                p, i, pt, it = i, p, it, pt
            t = self.ctype(n)
            a = self.index(st, p, i, it, n)
            if t.is_rec or t.is_arr:
                return ('agg', a, t)
            return ('mem', a, t)
        if k == 'StringLiteral':
            return ('agg', self.strlit(self.strval(n)), self.ctype(n))
        if k == 'PredefinedExpr':
            return ('agg', self.strlit('__func__'), self.ctype(n))
        if k == 'CompoundLiteralExpr':
            t = self.ctype(n)
            a = self.newobj()
            self.init_at(a, t, n['inner'][0], st)
            return ('agg', a, t)
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp':
            return self.lval(n['inner'][0], st)
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue':
            # aggregate rvalue
            return self.lval(n['inner'][0], st)
        if k == 'CallExpr':
            t = self.ctype(n)
            if t.is_rec:
                a = self.newobj()
                self.call(n, st)
                return ('agg', a, t)
        if k == 'ConditionalOperator':
            t = self.ctype(n)
            if t.is_rec:
                raise ExtractError('aggregate ?: unsupported')
        raise ExtractError('unsupported lvalue %s at %s' % (k, self.loc(n)))

    def glob_lval(self, tu, decl, t):
        a = self.global_obj(tu, decl)
        if t.is_rec or t.is_arr:
            return ('agg', a, t)
        if self.glob_addr_taken(tu, decl):
            return ('mem', a, t)
        static = decl.get('storageClass') == 'static'
        name = 'glob.%s' % decl['name'] if not static else 'glob.%s:%s' % (tu.rel, decl['name'])
        self.glob_types[name] = t
        return ('ghost', name, t)

    def glob_addr_taken(self, tu, decl):
        key = (tu.rel, decl['name'])
        if key not in self._gat:
            ids = set()
            for f in tu.funcs.values():
                ids |= self.addr_taken(f)
            names = {tu.globals[i]['name'] for i in ids if i in tu.globals}
            self._gat[key] = decl['name'] in names
        return self._gat[key]

    def member(self, p, rect, fname, ft):
        rn = self.recname(rect)
        name = rn + '.' + fname
        fs = self.fields_of(rect)
        first = fs[0][0] == fname
        for fn_, t_ in fs:
            if fn_ == fname:
                ft = t_
        self.field_types[name] = ft
        if ft.is_rec or ft.is_arr:
            a = p if (first and ft.is_rec) else sub(p, name)
            return ('agg', a, ft)
        return ('fld', name, p, ft)

    def deref(self, st, p, t, n):
        if t.is_rec or t.is_arr:
            if t.is_rec:
                self.check_valid(st, p, t, n)
            return ('agg', p, t)
        # syntactic pointer to a leaf field
        if z3.is_app(p) and p.decl().eq(Ptr.sub) and z3.is_int_value(p.arg(1)):
            name = FIELDS.names[p.arg(1).as_long() - 1]
            ft = self.field_types.get(name)
            if ft is not None and not (ft.is_rec or ft.is_arr):
                if ft.is_bool != t.is_bool or (ft.is_int and t.is_int and ft.w != t.w):
                    self.prove(st, FALSE, 'access through a pointer has the size of the object (%s)' % name, ('C15', 'C31'), self.loc(n))
                return ('fld', name, p.arg(0), ft)
        self.check_deref(st, p, t, n)
        return ('mem', p, t)

    def index(self, st, p, i, it, n):
        """address of p[i]"""
        ii = self.index_int(i, it)
        if z3.is_app(p) and p.decl().eq(Ptr.elt):
            b = p.arg(0)
            pos = z3.simplify(p.arg(1) + ii)
        else:
            b, pos = p, ii
        self.bounds(st, b, pos, i, it, n)
        return Ptr.elt(b, pos)

    def index_int(self, i, it):
        i = z3.simplify(i)
        if z3.is_bv_value(i):
            return z3.IntVal(i.as_signed_long() if it.signed else i.as_long())
        f = getattr(self.specs, 'index_fn', None)
        if f is not None:
            return f(self, i, it)
        return z3.BV2Int(i, is_signed=it.signed)

    def bounds(self, st, b, pos, i, it, n):
        sz = None
        if z3.is_app(b) and b.decl().eq(Ptr.obj) and z3.is_int_value(b.arg(0)):
            sz = self.objlen.get(b.arg(0).as_long())
        if z3.is_app(b) and b.decl().eq(Ptr.sub) and z3.is_int_value(b.arg(1)):
            ft = self.field_types.get(FIELDS.names[b.arg(1).as_long() - 1])
            if ft is not None and ft.is_arr:
                sz = ft.n
        if sz is not None:
            if z3.is_int_value(pos):
                g = z3.BoolVal(0 <= pos.as_long() < sz)
            elif z3.is_bv(i) and not it.signed:
                g = And(pos >= 0, pos < sz) if not pos.eq(z3.BV2Int(i)) else z3.ULT(i, sz)
            else:
                g = And(pos >= 0, pos < sz)
            self.prove(st, g, 'array index within bounds', ('C15', 'bounds') + self.specs.bounds_tags, self.loc(n))
        else:
            g = self.specs.array_valid(self, st, b, pos, i, it)
            if g is not None:
                self.prove(st, g, 'array index within bounds', ('C15', 'bounds') + self.specs.bounds_tags, self.loc(n))

    def is_local(self, p):
        while z3.is_app(p) and (p.decl().eq(Ptr.sub) or p.decl().eq(Ptr.elt)):
            p = p.arg(0)
        return z3.is_app(p) and p.decl().eq(Ptr.obj) and z3.is_int_value(p.arg(0))

    def check_valid(self, st, p, t, n):
        if not t.is_rec or self.is_local(p):
            return
        # already part of a checked object: sub(x, known field) with x checked earlier is handled by formula
        f = self.specs.valid(self, st, self.recname(t), p)
        if f is not None:
            self.prove(st, f, 'valid pointer to %s' % self.recname(t), ('C15', 'valid'), self.loc(n))

    def check_deref(self, st, p, t, n):
        if self.is_local(p):
            return
        f = self.specs.valid_scalar(self, st, p, t)
        if f is not None:
            self.prove(st, f, 'valid pointer', ('C15', 'valid'), self.loc(n))

    def mapkey(self, t):
        if t.is_bool: return 'deref.bool'
        if t.is_int: return 'deref.b%d' % t.w
        return 'deref.ptr'

    def read(self, lv, st):
        k = lv[0]
        if k == 'var': return st.vars[lv[1]]
        if k == 'fld':
            h = self.specs.read_hooks.get(lv[1])
            if h:
                h(self, st, lv[2])
            return Select(st[lv[1]], lv[2])
        if k == 'mem': return Select(st[self.mapkey(lv[2])], lv[1])
        if k == 'ghost': return st[lv[1]]
        if k == 'agg': return lv[1]
        if k == 'fn': return self.fnptr(lv[1])
        raise ExtractError('read ' + k)

    def write(self, lv, val, st):
        k = lv[0]
        if k == 'var':
            st.vars[lv[1]] = val
            self.touched_var(lv[1])
        elif k == 'fld':
            h = self.specs.store_hooks.get(lv[1])
            if h:
                h(self, st, lv[2], val)
            st.store(lv[1], lv[2], val)
        elif k == 'mem':
            h = self.specs.store_hooks.get(self.mapkey(lv[2]))
            if h:
                h(self, st, lv[1], val)
            st.store(self.mapkey(lv[2]), lv[1], val)
        elif k == 'ghost':
            self.nonlocal_writes.add(lv[1])
            st[lv[1]] = val
        else:
            raise ExtractError('write ' + k)

    def touched_var(self, key):
        for s in self.touched:
            s.add(key)

    def addr(self, lv):
        k = lv[0]
        if k == 'agg': return lv[1]
        if k == 'mem': return lv[1]
        if k == 'fld': return sub(lv[2], lv[1])
        if k == 'fn': return self.fnptr(lv[1])
        if k == 'ghost' and lv[1].startswith('glob.'):
            raise ExtractError('address of global %s' % lv[1])
        raise ExtractError('address of ' + k)

    def strval(self, n):
        v = n.get('value', '""')
        return v[v.index('"') + 1:-1]

    # ---------------------------------------------------------------- aggregates
    def leaves(self, a, t):
        """all scalar leaves of an aggregate: list of lvalues (arrays of scalars are skipped, returned separately)"""
        if t.is_rec:
            out = []
            for fn_, ft in self.fields_of(t):
                lv = self.member(a, t, fn_, ft)
                if lv[0] == 'agg':
                    out += self.leaves(lv[1], lv[2])
                else:
                    out.append(lv)
            return out
        return []

    def copy_agg(self, dst, src, t, st):
        vals = []
        for lv_s, lv_d in zip(self.leaves(src, t), self.leaves(dst, t)):
            vals.append((lv_d, self.read(lv_s, st)))
        for lv, v in vals:
            self.write(lv, v, st)

    def init_at(self, a, t, init, st):
        """initialise the object at address a of type t from an initialiser expression"""
        k = init['kind']
        if k == 'InitListExpr':
            if t.is_rec:
                fs = self.fields_of(t)
                inner = init.get('inner', []) or []
                if 'field' in init:          # union
                    fname = init['field']['name']
                    for fn_, ft in fs:
                        if fn_ == fname:
                            lv = self.member(a, t, fn_, ft)
                            self.init_lv(lv, ft, inner[0], st)
                    return
                for (fn_, ft), e in zip(fs, inner):
                    self.init_lv(self.member(a, t, fn_, ft), ft, e, st)
                return
            if t.is_arr:
                inner = init.get('inner') or []
                if not inner and 'array_filler' in init:
                    inner = [e for e in init['array_filler'] if e['kind'] != 'ImplicitValueInitExpr']
                n = 0
                for e in inner:
                    ea = Ptr.elt(a, z3.IntVal(n))
                    n += 1
                    lv = ('agg', ea, t.elem) if (t.elem.is_rec or t.elem.is_arr) else ('mem', ea, t.elem)
                    self.init_lv(lv, t.elem, e, st)
                self.specs.on_array_init(self, st, a, t, init)
                return
        if k == 'ImplicitValueInitExpr':
            if t.is_rec:
                for lv in self.leaves(a, t):
                    self.write(lv, self.default(lv[-1]), st)
            else:
                self.specs.on_array_init(self, st, a, t, init)
            return
        if k == 'StringLiteral' and t.is_arr:
            self.specs.on_string_init(self, st, a, t, self.strval(init))
            return
        if t.is_rec:
            lv = self.lval(init, st)
            self.copy_agg(a, lv[1], t, st)
            return
        raise ExtractError('unsupported initialiser %s at %s' % (k, self.loc(init)))

    def init_lv(self, lv, t, e, st):
        if lv[0] == 'agg':
            self.init_at(lv[1], lv[2], e, st)
        elif e['kind'] == 'ImplicitValueInitExpr':
            self.write(lv, self.default(t), st)
        else:
            if e['kind'] == 'InitListExpr':
                e = e['inner'][0]
            self.write(lv, self.rval(e, st), st)

    # ---------------------------------------------------------------- rvalues
    def b2i(self, b, w=32):
        return If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

    def cast(self, v, ft, tt):
        if tt.is_void: return v
        if tt.is_bool:
            if ft.is_bool: return v
            if ft.is_int: return v != 0
            return v != NULL
        if tt.is_int:
            if ft.is_bool: return self.b2i(v, tt.w)
            if ft.is_int:
                if tt.w == ft.w: return v
                if tt.w < ft.w: return z3.Extract(tt.w - 1, 0, v)
                return z3.SignExt(tt.w - ft.w, v) if ft.signed else z3.ZeroExt(tt.w - ft.w, v)
            return fresh('ptoi', z3.BitVecSort(tt.w))
        if tt.is_ptr:
            if ft.is_ptr or ft.is_func or ft.is_arr: return v
            if ft.is_int:
                vv = z3.simplify(v)
                if z3.is_bv_value(vv):
                    if vv.as_long() == 0: return NULL
                    return Ptr.fn(z3.IntVal(-vv.as_long()))
                return fresh('itop', Ptr)
        raise ExtractError('cast %r -> %r' % (ft, tt))

    def truth(self, n, st):
        """C truth value as z3 Bool (evaluates side effects into st)"""
        k = n['kind']
        if k == 'ParenExpr':
            return self.truth(n['inner'][0], st)
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean', 'IntegralCast', 'NoOp'):
            c = n['inner'][0]
            if n['castKind'] in ('IntegralToBoolean', 'PointerToBoolean'):
                return self.truth(c, st)
            tt, ft = self.ctype(n), self.ctype(c)
            if tt.is_int and (ft.is_bool or (ft.is_int and tt.w >= ft.w)):
                return self.truth(c, st)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return Not(self.truth(n['inner'][0], st))
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('==', '!=', '<', '>', '<=', '>='):
                a = self.rval(n['inner'][0], st)
                b = self.rval(n['inner'][1], st)
                return self.compare(op, a, b, self.ctype(n['inner'][0]))
            if op in ('&&', '||'):
                a = self.truth(n['inner'][0], st)
                t, f = self.fork(st, a)
                if op == '&&':
                    if t is None:
                        return FALSE
                    b = self.truth(n['inner'][1], t)
                    res, other = And(a, b), f
                    if f is None:
                        st.take(t)
                        return b
                    if self.same(t, f):
                        return res
                    m = self.merge([t, f])
                    st.take(m)
                    return And(t.pc.b, b)
                else:
                    if f is None:
                        return TRUE
                    b = self.truth(n['inner'][1], f)
                    if t is None:
                        st.take(f)
                        return b
                    if self.same(t, f):
                        return Or(a, b)
                    m = self.merge([t, f])
                    st.take(m)
                    return Or(t.pc.b, And(f.pc.b, b))
        v = self.rval(n, st)
        t = self.ctype(n)
        return self.cast(v, t, BOOL)

    def same(self, a, b):
        def eqd(x, y):
            for k in x.keys() | y.keys():
                if k not in x or k not in y:
                    # lazily created initial maps are equal anyway
                    xv = x.get(k); yv = y.get(k)
                    v = xv if xv is not None else yv
                    if isinstance(k, str):
                        if not v.eq(self.initial_map(k)):
                            return False
                        continue
                    continue
                if not x[k].eq(y[k]):
                    return False
            return True
        return eqd(a.maps, b.maps) and eqd(a.vars, b.vars)

    def compare(self, op, a, b, t):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if z3.is_bv(a):
            s = t.signed
            return {'<': (lambda: a < b) if s else (lambda: z3.ULT(a, b)),
                    '>': (lambda: a > b) if s else (lambda: z3.UGT(a, b)),
                    '<=': (lambda: a <= b) if s else (lambda: z3.ULE(a, b)),
                    '>=': (lambda: a >= b) if s else (lambda: z3.UGE(a, b))}[op]()
        raise ExtractError('pointer ordering')

    def arith(self, op, a, b, t, n, st, bt=None):
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op in ('/', '%'):
            self.prove(st, b != 0, 'no division by zero', ('C15',), self.loc(n))
            if op == '/': return (a / b) if t.signed else z3.UDiv(a, b)
            return z3.SRem(a, b) if t.signed else z3.URem(a, b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op in ('<<', '>>'):
            if b.size() < a.size(): b = z3.ZeroExt(a.size() - b.size(), b)
            elif b.size() > a.size(): b = z3.Extract(a.size() - 1, 0, b)
            if op == '<<': return a << b
            return (a >> b) if t.signed else z3.LShR(a, b)
        raise ExtractError('operator ' + op)

    def rval(self, n, st):
        k = n['kind']
        if k == 'ParenExpr' or k == 'ConstantExpr':
            return self.rval(n['inner'][0], st)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            ck = n['castKind']
            c = n['inner'][0]
            if ck == 'LValueToRValue':
                return self.read(self.lval(c, st), st)
            if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
                lv = self.lval(c, st)
                return self.addr(lv)
            if ck == 'ArrayToPointerDecay':
                lv = self.lval(c, st)
                cc = c
                while cc['kind'] == 'ParenExpr': cc = cc['inner'][0]
                if cc['kind'] in ('StringLiteral', 'PredefinedExpr'):
                    if cc['kind'] == 'StringLiteral':
                        self.literal_fact(lv[1], self.strval(cc), st)
                    return lv[1]
                return Ptr.elt(lv[1], z3.IntVal(0))
            if ck == 'NullToPointer':
                return NULL
            if ck == 'ToVoid':
                ct = self.ctype(c)
                if not (ct.is_rec):
                    self.rval(c, st)
                return bv32(0)
            if ck == 'NoOp':
                t = self.ctype(n)
                if t.is_rec:
                    return self.lval(c, st)[1]
                return self.rval(c, st)
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                return self.truth(c, st)
            ft, tt = self.ctype(c), self.ctype(n)
            if isinstance(tt, Float) or isinstance(ft, Float):
                self.rval(c, st)
                return fresh('fl', BV64)
            return self.cast(self.rval(c, st), ft, tt)
        if k == 'IntegerLiteral':
            t = self.ctype(n)
            return z3.BitVecVal(int(n['value']), t.w)
        if k == 'CharacterLiteral':
            return z3.BitVecVal(int(n['value']), self.ctype(n).w)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            if rd['kind'] == 'EnumConstantDecl':
                v = self.frames[-1].fdef.tu.enums[rd['id']]
                return z3.BitVecVal(v, self.ctype(n).w)
            if rd['kind'] == 'FunctionDecl':
                return self.fnptr(rd['name'])
            lv = self.lval(n, st)
            return self.read(lv, st)
        if k in ('MemberExpr', 'ArraySubscriptExpr', 'StringLiteral', 'CompoundLiteralExpr'):
            return self.read(self.lval(n, st), st)
        if k == 'UnaryOperator':
            op = n['opcode']
            c = n['inner'][0]
            if op == '&':
                cc = c
                while cc['kind'] == 'ParenExpr': cc = cc['inner'][0]
                if cc['kind'] == 'ArraySubscriptExpr':
                    # forming an address one past the end is allowed: no bounds obligation
                    p = self.rval(cc['inner'][0], st)
                    i = self.rval(cc['inner'][1], st)
                    it = self.ctype(cc['inner'][1])
                    return self.padd(p, i, it)
                return self.addr(self.lval(c, st))
            if op == '*':
                return self.read(self.lval(n, st), st)
            if op == '!':
                return self.b2i(Not(self.truth(c, st)))
            if op in ('++', '--'):
                lv = self.lval(c, st)
                old = self.read(lv, st)
                t = self.ctype(c)
                if t.is_ptr:
                    new = self.padd(old, bv32(1 if op == '++' else -1), INT)
                elif t.is_bool:
                    new = TRUE if op == '++' else Not(old)
                else:
                    new = old + 1 if op == '++' else old - 1
                self.write(lv, new, st)
                return old if n.get('isPostfix') else new
            if op == '__extension__':
                return self.rval(c, st)
            v = self.rval(c, st)
            if op == '-': return -v
            if op == '~': return ~v
            if op == '+': return v
            raise ExtractError('unary ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            l, r = n['inner']
            if op == '=':
                lt = self.ctype(l)
                if lt.is_rec:
                    rl = self.lval(r, st)
                    ll = self.lval(l, st)
                    self.copy_agg(ll[1], rl[1], lt, st)
                    return ll[1]
                v = self.rval(r, st)
                lv = self.lval(l, st)
                self.cur_loc = self.loc(n)
                self.write(lv, v, st)
                return v
            if op == ',':
                self.rval(l, st)
                return self.rval(r, st)
            if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                return self.b2i(self.truth(n, st))
            a = self.rval(l, st)
            b = self.rval(r, st)
            lt, rt = self.ctype(l), self.ctype(r)
            if lt.is_ptr or rt.is_ptr:
                if lt.is_ptr and rt.is_ptr:
                    return fresh('ptrdiff', BV64)
                if lt.is_ptr:
                    return self.padd(a, b if op == '+' else -b, rt)
                return self.padd(b, a, lt)
            return self.arith(op, a, b, lt, n, st)
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            l, r = n['inner']
            lv = self.lval(l, st)
            lt = self.ctype(l)
            b = self.rval(r, st)
            rt = self.ctype(r)
            old = self.read(lv, st)
            if lt.is_ptr:
                new = self.padd(old, b if op == '+' else -b, rt)
            else:
                tt = self.frames[-1].fdef.tu.types
                ct = tt.parse(n['computeLHSType'].get('desugaredQualType', n['computeLHSType']['qualType']))
                new = self.cast(self.arith(op, self.cast(old, lt, ct), b, ct, n, st), ct, lt)
            self.cur_loc = self.loc(n)
            self.write(lv, new, st)
            return new
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            cv = self.truth(c, st)
            t, f = self.fork(st, cv)
            if t is None:
                v = self.rval(b, f)
                st.take(f)
                return v
            if f is None:
                v = self.rval(a, t)
                st.take(t)
                return v
            va = self.rval(a, t)
            vb = self.rval(b, f)
            if t.pc is not None and self.same(t, f):
                return If(cv, va, vb)
            tpc = t.pc.b
            m = self.merge([t, f])
            st.take(m)
            return If(tpc, va, vb)
        if k == 'CallExpr':
            return self.call(n, st)
        if k == 'UnaryExprOrTypeTraitExpr':
            tt = self.frames[-1].fdef.tu.types if self.frames else self.cur_tu.types
            if 'argType' in n:
                at = n['argType']
                t = tt.parse(at.get('desugaredQualType', at['qualType']))
            else:
                t = self.ctype(n['inner'][0])
            v = tt.sizeof(t) if n.get('name') == 'sizeof' else tt.align(t)
            return z3.BitVecVal(v, 64)
        if k == 'StmtExpr':
            body = n['inner'][0]
            r = self.stmt(body, st)
            if r is None:
                self.kill(st)
            elif r is not st:
                st.take(r)
            return bv32(0)
        if k == 'OffsetOfExpr':
            return fresh('offsetof', BV64)
        if k == 'VAArgExpr':
            return fresh('vaarg', self.sort_of(self.ctype(n)))
        if k == 'ImplicitValueInitExpr':
            return self.default(self.ctype(n))
        if k == 'InitListExpr':
            return self.rval(n['inner'][0], st)
        if k == 'PredefinedExpr':
            return self.strlit('__func__')
        raise ExtractError('unsupported expression %s at %s' % (k, self.loc(n)))

    def kill(self, st):
        st.pc = PC(FALSE, st.pc.anc)

    def padd(self, p, i, it):
        ii = z3.simplify(self.index_int(i, it))
        if z3.is_app(p) and p.decl().eq(Ptr.elt):
            return Ptr.elt(p.arg(0), z3.simplify(p.arg(1) + ii))
        if z3.is_int_value(ii) and ii.as_long() == 0 and False:
            return p
        return Ptr.elt(p, ii)

    # ---------------------------------------------------------------- calls
    def callee_name(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            c = c['inner'][0]
        if c['kind'] == 'UnaryOperator' and c['opcode'] in ('*', '&'):
            return None
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] == 'FunctionDecl':
            return c['referencedDecl']['name']
        return None

    def call(self, n, st):
        name = self.callee_name(n)
        argn = n['inner'][1:]
        loc = self.loc(n)
        if name is None:
            return self.indirect(n, argn, st, loc)
        if name in ('__builtin_va_start', '__builtin_va_end', '__builtin_va_copy'):
            hook = getattr(self.specs, 'va_hook', None)
            if hook:
                hook(self, st, name)
            return bv32(0)
        if name == '__builtin_expect':
            v = self.rval(argn[0], st)
            self.rval(argn[1], st)
            return v
        if name == '__errno_location':
            raise ExtractError('__errno_location')
        args, types = [], []
        for a in argn:
            t = self.ctype(a)
            if t.is_rec:
                args.append(self.lval(a, st)[1])
            else:
                args.append(self.rval(a, st))
            types.append(t)
        self.cur_loc = loc
        rt = self.ctype(n)
        return self.apply(name, args, types, rt, st, loc, argn)

    def apply(self, name, args, types, rt, st, loc, argn=None):
        tu = self.frames[-1].fdef.tu
        c = self.specs.contract_for(name, tu)
        if c is not None:
            call = Call(self, name, args, types, st, loc)
            call.argnodes = argn
            call.rt = rt
            self.called_contracts.add(name)
            v = c.apply(call)
            return v if v is not None else (bv32(0) if rt.is_void else self.freshret(name, rt))
        fdef = self.prog.find(tu, name)
        if fdef is not None:
            return self.inline(fdef, args, types, st, loc)
        return self.default_extern(name, args, types, rt, st, loc)

    def freshret(self, name, rt):
        if rt.is_void: return bv32(0)
        if rt.is_rec: return self.newobj()
        if isinstance(rt, Float): return fresh('fl', BV64)
        return fresh('ret_' + name, self.sort_of(rt))

    def default_extern(self, name, args, types, rt, st, loc):
        self.notes.add('external function %s has no contract: arbitrary result, may change errno and its pointer arguments' % name)
        st['$errno'] = fresh('errno', BV32)
        for a, t in zip(args, types):
            if t.is_ptr and t.to.is_rec and self.is_local(a):
                try:
                    for lv in self.leaves(a, t.to):
                        self.write(lv, fresh('ext', self.sort_of(lv[-1])), st)
                except ExtractError:
                    pass
            elif t.is_ptr and (t.to.is_int or t.to.is_bool or t.to.is_ptr) and self.is_local(a):
                self.write(('mem', a, t.to), fresh('ext', self.sort_of(t.to)), st)
        return self.freshret(name, rt)

    def indirect(self, n, argn, st, loc):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') or (c['kind'] == 'UnaryOperator' and c['opcode'] == '*'):
            c = c['inner'][0]
        key = None
        extra = None
        if c['kind'] == 'MemberExpr':
            lv = self.lval(c, st)
            if lv[0] == 'fld':
                key, extra = lv[1], lv[2]
                fv = self.read(lv, st)
        if key is None:
            lv = self.lval(c, st)
            fv = self.read(lv, st)
            key = lv[1] if lv[0] == 'ghost' else 'fnptr'
            if key == 'fnptr':
                # a copy of a field that holds a function pointer
                o = self.field_origin(fv)
                if o is not None and self.specs.indirects.get(o[0]):
                    key, extra = o
        args, types = [], []
        for a in argn:
            args.append(self.rval(a, st))
            types.append(self.ctype(a))
        self.cur_loc = loc
        rt = self.ctype(n)
        con = self.specs.indirect_for(key)
        if con is None:
            raise ExtractError('no contract for indirect call through %s at %s' % (key, loc))
        call = Call(self, key, args, types, st, loc)
        call.argnodes, call.rt = argn, rt
        call.fnval, call.fnobj = fv, extra
        self.called_contracts.add('*' + key)
        v = con(call)
        return v if v is not None else (bv32(0) if rt.is_void else self.freshret(key, rt))

    def field_origin(self, v):
        if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT):
            return None
        m = v.arg(0)
        while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
            m = m.arg(0)
        if not z3.is_const(m):
            return None
        return m.decl().name().split('@')[0].split('!')[0], v.arg(1)

    def inline(self, fdef, args, types, st, loc):
        if (fdef.tu.rel, fdef.name) in self.inline_stack or len(self.inline_stack) > self.max_inline:
            raise ExtractError('recursive function %s without contract at %s' % (fdef.name, loc))
        self.inlined.add(fdef.name)
        self.inline_stack.append((fdef.tu.rel, fdef.name))
        self.inst += 1
        fr = Frame(fdef, self.inst)
        self.frames.append(fr)
        try:
            ptypes = [self.ctype(p) for p in fdef.params]
            self.bind_params(fdef, fr, [self.cast(a, t, pt) if (pt.is_int or pt.is_bool) else a
                                        for a, t, pt in zip(args, types, ptypes)], st)
            end = self.stmt(fdef.body, st)
            rets = list(fr.returns)
            if end is not None:
                rets.append((end, None))
            self.check_gotos(fr)
        finally:
            self.frames.pop()
            self.inline_stack.pop()
        if not rets:
            self.kill(st)
            return self.freshret(fdef.name, fdef.rettype)
        isvoid = fdef.rettype.is_void
        rk = ('ret', fr.inst)
        ss = []
        for s, v in rets:
            if not isvoid:
                s.vars[rk] = v if v is not None else fresh('noret', self.sort_of(fdef.rettype))
            ss.append(s)
        m = self.merge(ss)
        for k in [k for k in m.vars if k[0] == fr.inst]:
            del m.vars[k]
        st.take(m)
        if isvoid:
            return bv32(0)
        return st.vars.pop(rk)

    def check_gotos(self, fr):
        for lab, lst in fr.gotos.items():
            if lst:
                raise ExtractError('backward goto in %s' % fr.fdef.name)

    def bind_params(self, fdef, fr, args, st):
        at = self.addr_taken(fdef)
        for p, a in zip(fdef.params, args):
            key = (fr.inst, p['id'])
            t = self.ctype(p)
            if p['id'] in at:
                o = self.newobj()
                self.localaddr[key] = o
                self.write(('mem', o, t), a, st)
            else:
                st.vars[key] = a
        self.varnames.update({(fr.inst, p['id']): (p.get('name'), self.ctype(p)) for p in fdef.params})

    # ---------------------------------------------------------------- statements
    def has_label(self, n):
        c = n.get('_hl')
        if c is None:
            c = n.get('kind') in ('LabelStmt',) or any(isinstance(x, dict) and self.has_label(x) for x in n.get('inner', []) or [])
            n['_hl'] = c
        return c

    def stmt(self, n, st):
        """execute statement; returns fall-through state or None"""
        if st is None and not self.has_label(n):
            return None
        k = n.get('kind')
        if st is not None and z3.is_false(st.pc.b):
            st = None
            if not self.has_label(n):
                return None
        m = getattr(self, 's_' + k, None) if k else (lambda n, s: s)
        if m is None:
            # expression statement
            if st is None:
                return None
            self.cur_loc = self.loc(n)
            if k == 'ConditionalOperator':
                self.cond_stmt(n, st)
            else:
                self.rval_or_agg(n, st)
            if z3.is_false(st.pc.b):
                return None
            return st
        return m(n, st)

    def rval_or_agg(self, n, st):
        return self.rval(n, st)

    def cond_stmt(self, n, st):
        c, a, b = n['inner']
        cv = self.truth(c, st)
        t, f = self.fork(st, cv)
        out = []
        for s, e in ((t, a), (f, b)):
            if s is not None:
                self.rval(e, s)
                if not z3.is_false(s.pc.b):
                    out.append(s)
        m = self.merge(out)
        if m is None:
            self.kill(st)
        else:
            st.take(m)

    def s_CompoundStmt(self, n, st):
        for c in n.get('inner', []) or []:
            st = self.stmt(c, st)
        return st

    def s_NullStmt(self, n, st):
        return st

    def s_DeclStmt(self, n, st):
        if st is None:
            return None
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                continue
            self.cur_loc = self.loc(d)
            t = self.ctype(d)
            key = (self.frames[-1].inst, d['id'])
            self.varnames[key] = (d['name'], t)
            init = None
            for c in d.get('inner', []) or []:
                if isinstance(c, dict) and c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')):
                    init = c
            if d.get('storageClass') == 'static' and not d['type']['qualType'].startswith('const '):
                raise ExtractError('static local %s' % d['name'])
            if t.is_rec or t.is_arr or d['id'] in self.addr_taken(self.frames[-1].fdef):
                o = self.newobj()
                if t.is_arr:
                    self.objlen[o.arg(0).as_long()] = t.n
                self.localaddr[key] = o
                self.specs.on_local_object(self, st, o, t, d['name'])
                if t.is_rec or t.is_arr:
                    if init is not None:
                        self.init_at(o, t, init, st)
                elif init is not None:
                    self.write(('mem', o, t), self.rval(init, st), st)
            else:
                st.vars[key] = self.rval(init, st) if init is not None else fresh('uninit_' + d['name'], self.sort_of(t))
                self.touched_var(key)
        return st if not z3.is_false(st.pc.b) else None

    def branch(self, n, st):
        """precise control flow for a condition: (true-state, false-state)"""
        k = n['kind']
        if k == 'ParenExpr':
            return self.branch(n['inner'][0], st)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            t, f = self.branch(n['inner'][0], st)
            return f, t
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'IntegralToBoolean':
            return self.branch(n['inner'][0], st)
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            l, r = n['inner']
            if not self.has_call(r) and not self.has_call(l):
                c = self.truth(n, st)
                return self.fork(st, c)
            t, f = self.branch(l, st)
            if n['opcode'] == '&&':
                if t is None:
                    return None, f
                t2, f2 = self.branch(r, t)
                return t2, self.merge([f, f2])
            if f is None:
                return t, None
            t2, f2 = self.branch(r, f)
            return self.merge([t, t2]), f2
        c = self.truth(n, st)
        if z3.is_false(st.pc.b):
            return None, None
        return self.fork(st, c)

    def has_call(self, n):
        c = n.get('_hc')
        if c is None:
            c = n.get('kind') in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr') or (n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=') or any(
                isinstance(x, dict) and self.has_call(x) for x in n.get('inner', []) or [])
            n['_hc'] = c
        return c

    def s_IfStmt(self, n, st):
        inner = n['inner']
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        if st is None:
            a = self.stmt(then, None)
            b = self.stmt(els, None) if els else None
            return self.merge([a, b])
        self.cur_loc = self.loc(n)
        t, f = self.branch(cond, st)
        a = self.stmt(then, t)
        b = self.stmt(els, f) if els is not None else f
        return self.merge([a, b])

    def s_ReturnStmt(self, n, st):
        if st is None:
            return None
        v = None
        if n.get('inner'):
            self.cur_loc = self.loc(n)
            t = self.ctype(n['inner'][0])
            if t.is_void:
                self.rval(n['inner'][0], st)
            elif t.is_rec:
                raise ExtractError('aggregate return')
            elif self.frames[-1].fdef.rettype.is_bool:
                v = self.truth(n['inner'][0], st)
            else:
                v = self.rval(n['inner'][0], st)
        if z3.is_false(st.pc.b):
            return None
        self.frames[-1].returns.append((st, v))
        if len(self.frames) == 1:
            self.retlocs.append(self.loc(n))
        return None

    def s_GotoStmt(self, n, st):
        if st is None:
            return None
        lab = n['targetLabelDeclId']
        self.frames[-1].gotos.setdefault(lab, []).append(st)
        if lab in self.frames[-1].done_labels:
            raise ExtractError('backward goto at %s' % self.loc(n))
        return None

    def s_LabelStmt(self, n, st):
        fr = self.frames[-1]
        lab = n['declId']
        pend = fr.gotos.pop(lab, [])
        fr.done_labels.add(lab)
        st = self.merge([st] + pend)
        if n.get('inner'):
            return self.stmt(n['inner'][0], st)
        return st

    def s_BreakStmt(self, n, st):
        if st is not None:
            self.frames[-1].brk[-1].append(st)
        return None

    def s_ContinueStmt(self, n, st):
        if st is not None:
            self.frames[-1].cont[-1].append(st)
        return None

    def s_CaseStmt(self, n, st):
        raise ExtractError('case outside switch body')

    def s_SwitchStmt(self, n, st):
        if st is None:
            return None
        cond, body = n['inner'][0], n['inner'][-1]
        cv = self.rval(cond, st)
        # gather labels
        vals = []

        def case_of(c):
            labs = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    ce = c['inner'][0]
                    v = self.rval(ce, st)
                    labs.append(v)
                    c = c['inner'][-1]
                else:
                    labs.append(None)
                    c = c['inner'][0]
            return labs, c
        items = []
        for c in body.get('inner', []) or []:
            labs, s = case_of(c)
            items.append((labs, s))
            vals += [v for v in labs if v is not None]
        fr = self.frames[-1]
        fr.brk.append([])
        has_default = any(None in labs for labs, _ in items)
        cur = None
        for labs, s in items:
            if labs:
                conds = []
                for v in labs:
                    if v is None:
                        conds.append(And([cv != w for w in vals]) if vals else TRUE)
                    else:
                        conds.append(cv == v)
                e = st.copy()
                c = z3.simplify(Or(conds)) if len(conds) > 1 else z3.simplify(conds[0])
                if z3.is_false(c):
                    e = None
                elif not z3.is_true(c):
                    e.pc = self.newpc(st, c)
                cur = self.merge([cur, e])
            cur = self.stmt(s, cur)
        outs = fr.brk.pop()
        if cur is not None:
            outs.append(cur)
        if not has_default:
            e = st.copy()
            c = z3.simplify(And([cv != w for w in vals])) if vals else TRUE
            if not z3.is_false(c):
                e.pc = self.newpc(st, c)
                outs.append(e)
        return self.merge(outs)

    def s_WhileStmt(self, n, st):
        if st is None: return None
        return self.loop(n, st, n['inner'][0], n['inner'][-1], None)

    def s_ForStmt(self, n, st):
        if st is None: return None
        init, _, cond, inc, body = n['inner']
        if init.get('kind'):
            st = self.stmt(init, st)
        return self.loop(n, st, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)

    def s_DoStmt(self, n, st):
        if st is None: return None
        return self.loop(n, st, n['inner'][1], n['inner'][0], None, do=True)

    # ---------------------------------------------------------------- loops
    def loop_iter(self, st, cond, body, inc, do):
        """one iteration from the loop head; returns (exit states, back-edge state)"""
        fr = self.frames[-1]
        exits = []
        if not do and cond is not None:
            t, f = self.branch(cond, st)
            if f is not None: exits.append(f)
        else:
            t = st
        fr.brk.append([])
        fr.cont.append([])
        e = self.stmt(body, t)
        conts = fr.cont.pop()
        exits += fr.brk.pop()
        e = self.merge([e] + conts)
        if e is not None and do:
            t, f = self.branch(cond, e)
            if f is not None: exits.append(f)
            e = t
        if e is not None and inc is not None:
            e = self.stmt(inc, e)
        return exits, e

    def loop(self, n, st, cond, body, inc, do=False):
        mode = self.specs.loop_mode(self, self.frames[-1].fdef, n)
        if mode:
            return self.unroll(n, st, cond, body, inc, do, mode)
        # 1. dry run: what does the body modify
        fr = self.frames[-1]
        nf, no = len(self.facts), len(self.obls)
        saved = dict(self.asserted)
        saved = {k: list(v) for k, v in self.asserted.items()}
        nr, gk = len(fr.returns), {k: len(v) for k, v in fr.gotos.items()}
        dl = set(fr.done_labels)
        rl = len(self.retlocs)
        nc = len(self.cands)
        la = dict(self.localaddr)
        self.touched.append(set())
        self.dry += 1
        probe = st.copy()
        ln = self.loopno
        self.loop_iter(probe, cond, body, inc, do)
        self.loopno = ln
        self.dry -= 1
        mod = self.touched.pop()
        del self.facts[nf:]
        del self.obls[no:]
        del self.cands[nc:]
        self.asserted = saved
        del fr.returns[nr:]
        del self.retlocs[rl:]
        for k in list(fr.gotos):
            del fr.gotos[k][gk.get(k, 0):]
        fr.done_labels = dl
        self.localaddr = la
        self.loopno += 1
        myloop = self.loopno
        # 2. havoc
        entry = st.copy()
        head = st.copy()
        hb = fresh('pcloop', BoolS)
        self.keep.append(hb)
        # the head is reached whenever the loop is entered; arbitrary iteration
        self.fact(Implies(hb, st.pc.b))
        head.pc = PC(hb, st.pc.anc)
        modmaps = sorted(x for x in mod if isinstance(x, str))
        modvars = [x for x in mod if not isinstance(x, str) and x in st.vars]
        for m in modmaps:
            self.touch(m)
            head.maps[m] = fresh(m, head[m].sort())
            self.const_facts(head.maps[m], m)
        for v in sorted(modvars):
            self.touched_var(v)
            head.vars[v] = fresh('l_' + str(self.varnames.get(v, ('v',))[0]), st.vars[v].sort())
        # entry version with the same pc for evaluation of candidates on entry
        ctx = LoopCtx(self, entry, head, modmaps, modvars, myloop, self.loc(n))
        cands = self.specs.loop_candidates(ctx)
        inds = []
        local_ids = []
        for cand in cands:
            desc, fn = cand[:2]
            par = cand[2] if len(cand) > 2 else None
            local_ids.append(None)
            ind = z3.Const('ind!%d!%d' % (myloop, len(inds)), BoolS)
            try:
                f_entry = fn(entry)
                f_head = fn(head)
            except ExtractError:
                continue
            cid = len(self.cands)
            self.cands.append((ind, desc, self.loc(n), local_ids[par] if par is not None else None))
            local_ids[-1] = cid
            inds.append((cid, fn, desc, f_entry, f_head, ind))
        if not self.dry:
            for cid, fn, desc, fe, fh, ind in inds:
                if z3.is_true(z3.simplify(fe) if not z3.is_quantifier(fe) else fe): continue
                self.obls.append(Obligation(len(self.facts), entry.pc.b, fe, 'inv-init: ' + desc, (), self.loc(n), cand=cid, kind='inv'))
        for cid, fn, desc, fe, fh, ind in inds:
            self.facts.append(Implies(And(ind, hb), fh))
        start = head.copy()
        exits, back = self.loop_iter(head, cond, body, inc, do)
        if back is not None and not self.dry:
            for cid, fn, desc, fe, fh, ind in inds:
                g = fn(back)
                if g.eq(fh): continue
                self.obls.append(Obligation(len(self.facts), back.pc.b, g, 'inv-pres: ' + desc, (), self.loc(n), cand=cid, kind='inv'))
        # forget cached assertions made inside the loop? their pc has hb as ancestor only -> harmless
        out = self.merge(exits)
        return out

    def unroll(self, n, st, cond, body, inc, do, k):
        exits = []
        cur = st
        for i in range(k + 1):
            if cur is None:
                break
            ex, cur = self.loop_iter(cur, cond, body, inc, do)
            exits += ex
        if cur is not None:
            self.prove(cur, FALSE, 'loop unwound completely after %d iterations' % k, ('unwind',), self.loc(n))
        return self.merge(exits)


class LoopCtx:
    def __init__(self, eng, entry, head, modmaps, modvars, no, loc):
        self.eng, self.entry, self.head, self.modmaps, self.modvars, self.no, self.loc = eng, entry, head, modmaps, modvars, no, loc

    def locals(self):
        """(key, name, ctype) of scalar locals of all active frames visible in both states"""
        out = []
        for k in self.entry.vars:
            if k in self.head.vars and k in self.eng.varnames:
                nm, t = self.eng.varnames[k]
                out.append((k, nm, t))
        return out
