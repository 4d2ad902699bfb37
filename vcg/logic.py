"""Sorts and helpers shared by the engine and the specifications."""
import sys
import z3

Ptr = z3.Datatype('Ptr')
Ptr.declare('null')
Ptr.declare('obj', ('oid', z3.IntSort()))
Ptr.declare('sub', ('sbase', Ptr), ('sfld', z3.IntSort()))
Ptr.declare('elt', ('ebase', Ptr), ('eidx', z3.IntSort()))
Ptr.declare('fn', ('fid', z3.IntSort()))
Ptr = Ptr.create()
NULL = Ptr.null
Str = z3.DeclareSort('Str')
BV32 = z3.BitVecSort(32)
BV64 = z3.BitVecSort(64)
IntS = z3.IntSort()
BoolS = z3.BoolSort()

And, Or, Not, Implies, If, ForAll, Select, Store = (z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Select,
                                                    z3.Store)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def bv32(n): return z3.BitVecVal(n, 32)
def bv64(n): return z3.BitVecVal(n, 64)


_n = [0]
def fresh(name, sort):
    _n[0] += 1
    return z3.Const('%s!%d' % (name, _n[0]), sort)


def reset_fresh():
    _n[0] = 0


def bound(name, sort):
    return z3.Const('?' + name, sort)


def forall(vs, body, pats, qid=None):
    """universal quantifier with explicit triggers (pats: list of terms or tuples of terms)"""
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
    f = sys._getframe(1)
    while f.f_code.co_name in ('<lambda>', 'every', 'same_where', 'forall'):
        f = f.f_back
    return z3.ForAll(vs, body, patterns=ps, qid=qid or '%s_%d' % (f.f_code.co_name, f.f_lineno))


# number of list elements as a 64-bit machine word: uninterpreted, used only for counting
toBV = z3.Function('toBV', IntS, BV64)


class Fields:
    """numbering of embedded fields (sub-objects and leaf addresses)"""
    def __init__(self):
        self.ids = {}
        self.names = []

    def id(self, name):
        if name not in self.ids:
            self.ids[name] = len(self.names) + 1
            self.names.append(name)
        return self.ids[name]


FIELDS = Fields()
KINDS = Fields()


def sub(base, fieldname):
    return Ptr.sub(base, z3.IntVal(FIELDS.id(fieldname)))


def is_sub_of(p, fieldname):
    return And(Ptr.is_sub(p), Ptr.sfld(p) == FIELDS.id(fieldname))


def kindno(name):
    return z3.IntVal(KINDS.id(name))


_strs = {}
def strconst(s):
    """the abstract value of a literal string"""
    if s not in _strs:
        _strs[s] = z3.Const('str"%s"' % s, Str)
    return _strs[s]
