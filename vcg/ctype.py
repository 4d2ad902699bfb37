"""C types as printed by clang, parsed into small immutable objects."""
import re
from functools import lru_cache


class CType:
    __slots__ = ()
    is_int = is_ptr = is_rec = is_arr = is_void = is_func = is_bool = False


class Void(CType):
    is_void = True
    def __repr__(self): return 'void'


class Int(CType):
    __slots__ = ('w', 'signed')
    is_int = True
    def __init__(self, w, signed): self.w, self.signed = w, signed
    def __repr__(self): return ('i' if self.signed else 'u') + str(self.w)
    def __eq__(self, o): return isinstance(o, Int) and (o.w, o.signed) == (self.w, self.signed)
    def __hash__(self): return hash((self.w, self.signed))


class Bool(CType):
    is_bool = True
    def __repr__(self): return 'bool'


class Float(CType):
    def __repr__(self): return 'float'


class PtrT(CType):
    __slots__ = ('to',)
    is_ptr = True
    def __init__(self, to): self.to = to
    def __repr__(self): return 'ptr(%r)' % (self.to,)


class Arr(CType):
    __slots__ = ('elem', 'n')
    is_arr = True
    def __init__(self, elem, n): self.elem, self.n = elem, n
    def __repr__(self): return '%r[%s]' % (self.elem, self.n)


class Rec(CType):
    __slots__ = ('name',)
    is_rec = True
    def __init__(self, name): self.name = name
    def __repr__(self): return 'rec(%s)' % self.name


class Func(CType):
    __slots__ = ('ret', 'params')
    is_func = True
    def __init__(self, ret, params): self.ret, self.params = ret, params
    def __repr__(self): return 'fn(%r)' % (self.ret,)


VOID, BOOL = Void(), Bool()
CHAR = Int(8, True)
INT, UINT = Int(32, True), Int(32, False)
LONG, ULONG = Int(64, True), Int(64, False)

TOK = re.compile(r'\s*(?:(\(unnamed[^)]*\)|\(anonymous[^)]*\))|([A-Za-z_][A-Za-z_0-9]*)|(\d+)|(\.\.\.)|(.))')
QUAL = {'const', 'volatile', 'restrict', '__restrict', '_Atomic', 'static', 'inline', '__extension__', '_Noreturn'}
BASEW = {'char', 'short', 'int', 'long', 'unsigned', 'signed', 'float', 'double', 'void', '_Bool', 'bool', '__int128'}


class TypeTable:
    """Typedefs and records of one translation unit."""

    def __init__(self):
        self.typedefs = {}
        self.cache = {}
        self.records = {}     # name -> list[(fieldname, CType)] ; kind in self.reckind
        self.reckind = {}

    def parse(self, s):
        t = self.cache.get(s)
        if t is None:
            t = self.cache[s] = self._parse(s)
        return t

    def _parse(self, s):
        s = re.sub(r'__attribute__\(\(.*?\)\)', '', s)
        toks = []
        pos = 0
        while pos < len(s):
            m = TOK.match(s, pos)
            if not m or m.end() == pos:
                break
            pos = m.end()
            if m.group(1): toks.append(('anon', m.group(1)))
            elif m.group(2): toks.append(('id', m.group(2)))
            elif m.group(3): toks.append(('num', int(m.group(3))))
            elif m.group(4): toks.append(('...', '...'))
            elif m.group(5) and not m.group(5).isspace(): toks.append((m.group(5), m.group(5)))
        self_toks = toks
        t, i = self._type(self_toks, 0)
        return t

    def _type(self, T, i):
        base, i = self._base(T, i)
        return self._declarator(T, i, base)

    def _base(self, T, i):
        words = []
        rec = None
        while i < len(T):
            k, v = T[i]
            if k == 'id':
                if v in QUAL:
                    i += 1
                    continue
                if v in ('struct', 'union'):
                    name = T[i + 1][1]
                    rec = Rec(v + ' ' + name)
                    i += 2
                    continue
                if v == 'enum':
                    i += 2
                    rec = UINT
                    continue
                if v in BASEW:
                    words.append(v)
                    i += 1
                    continue
                if not words and rec is None:
                    td = self.typedefs.get(v)
                    if td is None:
                        if v == '__builtin_va_list' or v == 'va_list' or v == '__va_list_tag':
                            rec = Rec('struct __va_list_tag')
                        elif v == '__int128_t' or v == '__uint128_t':
                            rec = Int(128, v == '__int128_t')
                        else:
                            raise ValueError('unknown type name %r' % v)
                    elif re.sub(r'\b(const|volatile)\b', '', td).strip() == v:
                        rec = Rec('struct ' + v)     # typedef of an unnamed record
                    else:
                        rec = self.parse(td)
                    i += 1
                    continue
                break
            break
        if rec is not None:
            return rec, i
        if not words:
            raise ValueError('no base type in %r' % (T,))
        if 'void' in words: return VOID, i
        if '_Bool' in words or 'bool' in words: return BOOL, i
        if 'float' in words or 'double' in words: return Float(), i
        signed = 'unsigned' not in words
        if 'char' in words: return Int(8, signed), i
        if 'short' in words: return Int(16, signed), i
        if '__int128' in words: return Int(128, signed), i
        if words.count('long') >= 1: return Int(64, signed), i
        return Int(32, signed), i

    def _declarator(self, T, i, base):
        # pointers
        while i < len(T) and (T[i][0] == '*' or (T[i][0] == 'id' and T[i][1] in QUAL)):
            if T[i][0] == '*':
                base = PtrT(base)
            i += 1
        # grouping "( * ... )"
        if i < len(T) and T[i][0] == '(' and i + 1 < len(T) and T[i + 1][0] in ('*', '^'):
            depth, j = 1, i + 1
            while depth:
                if T[j][0] == '(': depth += 1
                if T[j][0] == ')': depth -= 1
                j += 1
            inner = T[i + 1:j - 1]
            base, k = self._suffix(T, j, base)
            t, _ = self._declarator(inner, 0, base)
            return t, k
        return self._suffix(T, i, base)

    def _suffix(self, T, i, base):
        dims = []
        while i < len(T):
            if T[i][0] == '[':
                n = None
                i += 1
                while T[i][0] != ']':
                    if T[i][0] == 'num': n = T[i][1]
                    i += 1
                i += 1
                dims.append(n)
            elif T[i][0] == '(':
                # parameter list
                params = []
                i += 1
                while T[i][0] != ')':
                    if T[i][0] == ',':
                        i += 1
                        continue
                    if T[i][0] == '...':
                        params.append('...')
                        i += 1
                        continue
                    p, i = self._type(T, i)
                    params.append(p)
                i += 1
                if len(params) == 1 and isinstance(params[0], Void):
                    params = []
                base = Func(base, tuple(params))
            else:
                break
        for n in reversed(dims):
            base = Arr(base, n)
        return base, i

    # layout --------------------------------------------------------------
    def align(self, t):
        if t.is_bool: return 1
        if t.is_int: return t.w // 8
        if t.is_ptr: return 8
        if t.is_arr: return self.align(t.elem)
        if t.is_rec:
            return max([self.align(ft) for _, ft in self.records.get(t.name, [])] or [1])
        return 8

    def sizeof(self, t):
        if t.is_bool: return 1
        if t.is_int: return t.w // 8
        if t.is_ptr: return 8
        if t.is_void or t.is_func: return 1
        if t.is_arr: return self.sizeof(t.elem) * (t.n or 0)
        if t.is_rec:
            fs = self.records.get(t.name)
            if fs is None:
                raise ValueError('sizeof incomplete %s' % t.name)
            a = self.align(t)
            if self.reckind.get(t.name) == 'union':
                sz = max([self.sizeof(ft) for _, ft in fs] or [0])
            else:
                sz = 0
                for _, ft in fs:
                    fa = self.align(ft)
                    sz = (sz + fa - 1) // fa * fa + self.sizeof(ft)
            return (sz + a - 1) // a * a
        if isinstance(t, Float): return 8
        raise ValueError('sizeof %r' % t)

    def offsetof(self, rec, fname):
        off = 0
        for n, ft in self.records[rec]:
            fa = self.align(ft)
            off = (off + fa - 1) // fa * fa
            if n == fname:
                return off
            off += self.sizeof(ft)
        raise KeyError(fname)
