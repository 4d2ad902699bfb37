"""Contracts of log.c."""
from .base import *
from vcg.cast import FuncDef

T28 = ('C28',)
LEVEL, HANDLER = 'glob.common/log.c:current_log_level', 'glob.common/log.c:current_log_handler'


class LogSpecs(Specs):
    kinds = []

    def __init__(self, program):
        super().__init__(program)
        self.ghost_sorts.update({'$ncall': IntS, '$c_fn': Ptr, '$c_level': BV32, '$c_fmt': Ptr, '$va': IntS, '$nout': IntS, '$nmsg': IntS, '$msg_fmt': Ptr, '$msg_args': Ptr, '$at_errno': BV32})
        tu = program.tu_by_rel.get('common/log.c')
        self.tu = tu
        # the configuration may be kept under other names: it is found by its role, the static variable the setters write
        self.level, self.handler = self.written('libseat_set_log_level'), self.written('libseat_set_log_handler')
        self.others = []
        for name, d in tu.gname.items():
            g = ('glob.%s:%s' % (tu.rel, name)) if d.get('storageClass') == 'static' else 'glob.' + name
            t = tu.types.parse(d['type'].get('desugaredQualType') or d['type']['qualType'])
            if d.get('loc', {}).get('includedFrom') or t.is_rec or t.is_arr or g in (self.level[1], self.handler[1]):
                continue
            if d.get('storageClass') != 'extern':
                self.others.append(g)
        register(self)

    def written(self, fn):
        """the static variable a setter assigns"""
        fd = self.prog.public.get(fn)
        got = []

        def walk(n):
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
                l = n['inner'][0]
                if l.get('kind') == 'DeclRefExpr' and l['referencedDecl']['id'] in fd.tu.globals:
                    got.append(fd.tu.globals[l['referencedDecl']['id']])
            for c in n.get('inner', []) or []:
                if isinstance(c, dict):
                    walk(c)
        if fd is None:
            raise ExtractError('no function %s' % fn)
        walk(fd.body)
        if len({d['name'] for d in got}) != 1:
            raise ExtractError('%s does not set one variable' % fn)
        d = got[0]
        return d, ('glob.%s:%s' % (fd.tu.rel, d['name']) if fd.tu.gname[d['name']].get('storageClass') == 'static' or d.get('storageClass') == 'static' else 'glob.' + d['name'])

    def va_hook(self, eng, st, name):
        eng.touch('$va')
        if name == '__builtin_va_start':
            eng.prove(st, st['$va'] == 0, 'the arguments are taken once at a time', T28, eng.cur_loc)
            st['$va'] = z3.IntVal(1)
        elif name == '__builtin_va_end':
            st['$va'] = z3.IntVal(0)

    def find_function(self, name):
        if name.endswith(':@initial'):
            return FuncDef('@initial', self.tu, {}, [], {'kind': 'CompoundStmt', 'inner': []}, self.tu.types.parse('void'), True, 0)
        if name.endswith(':@default'):
            nm = self.default_handler()
            return self.tu.funcs.get(nm) if nm else None
        return super().find_function(name)

    def default_handler(self):
        n = self.tu.gname[self.handler[0]['name']]
        for c in n.get('inner', []) or []:
            while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator'):
                c = c['inner'][0]
            if c.get('kind') == 'DeclRefExpr':
                return c['referencedDecl']['name']
        return None

    def initial_level(self):
        from .server import const_of
        n = self.tu.gname[self.level[0]['name']]
        for c in n.get('inner', []) or []:
            v = const_of(c, self.tu)
            if v is not None:
                return v
            return None
        return 0


def register(S):
    lv, hd = S.level[1], S.handler[1]
    dflt = S.default_handler()

    @S.contract('@initial')
    def initial(c):
        v = S.initial_level()
        c.post()
        c.ensures('the level is silent at first', T28, z3.BoolVal(v == S.tu.enumnames.get('LIBSEAT_LOG_LEVEL_SILENT', 0)))
        c.ensures('the default handler is installed at first', T28, z3.BoolVal(dflt is not None and dflt in S.tu.funcs))

    def handler_called(c):
        level, fmt = c.args[0], c.args[1]
        s = c.old
        c.requires('the arguments of the caller are passed', T28, s['$va'] == 1)
        c.modifies('$errno', '$ncall', '$c_fn', '$c_level', '$c_fmt')
        c.post()
        o, n = c.old, c.new
        c.ensures('', T, And(n['$ncall'] == o['$ncall'] + 1, n['$c_fn'] == c.call.fnval, n['$c_level'] == level, n['$c_fmt'] == fmt))
    S.indirect(hd)(handler_called)
    S.indirect('fnptr')(handler_called)

    @S.contract('_logf')
    def logf(c):
        level, fmt = c.args[0], c.args[1]
        s = c.old
        c.requires('a handler is installed', T28, s[hd] != NULL)
        c.requires('no arguments are taken', T28, s['$va'] == 0)
        c.modifies('$errno', '$ncall', '$c_fn', '$c_level', '$c_fmt', '$va')
        c.post()
        o, n = c.old, c.new
        on = z3.ULE(level, o[lv])
        c.ensures('errno is kept', T28, n['$errno'] == o['$errno'])
        c.ensures('a message above the level reaches no handler', T28, Implies(Not(on), n['$ncall'] == o['$ncall']))
        c.ensures('a message up to the level reaches the handler once', T28, Implies(on, And(n['$ncall'] == o['$ncall'] + 1, n['$c_fn'] == o[hd])))
        c.ensures('with the level and the format of the caller', T28, Implies(on, And(n['$c_level'] == level, n['$c_fmt'] == fmt)))
        c.ensures('the arguments are released', T28, n['$va'] == 0)
        c.ensures('level and handler are kept', T28, And(n[lv] == o[lv], n[hd] == o[hd]))

    @S.contract('libseat_set_log_handler')
    def set_handler(c):
        h, = c.args
        c.modifies(hd)
        c.post()
        n = c.new
        c.ensures('the handler is installed, or the default one', T28, n[hd] == If(h == NULL, c.eng.fnptr(dflt), h))
        c.ensures('there always is a handler', T28, n[hd] != NULL)

    @S.contract('libseat_set_log_level')
    def set_level(c):
        l, = c.args
        c.modifies(lv)
        c.post()
        c.ensures('the level is the one asked for', T28, c.new[lv] == l)

    # ------------------------------------------------------------ the default handler
    @S.contract('vfprintf')
    def vfprintf(c):
        c.modifies('$errno', '$nmsg', '$msg_fmt', '$msg_args')
        c.post()
        o, n = c.old, c.new
        c.ensures('', T, And(n['$nmsg'] == o['$nmsg'] + 1, n['$msg_fmt'] == c.args[1], n['$msg_args'] == c.args[2]))

    @S.contract('fprintf')
    def fprintf(c):
        c.modifies('$errno', '$nout')
        c.post()

    @S.contract('clock_gettime')
    def clock_gettime(c):
        eng, p = c.eng, c.args[1]
        c.requires('the time is stored in valid memory', ('C15', 'C28'), p != NULL)
        c.modifies('$errno', 'timespec.tv_sec', 'timespec.tv_nsec')
        c.post()

    @S.contract('isatty')
    def isatty(c):
        c.modifies('$errno')
        c.post()

    @S.contract('log_init')
    def log_init(c):
        c.modifies('$errno', 'timespec.tv_sec', 'timespec.tv_nsec', *[g for g in S.others])
        c.post()
        o, n = c.old, c.new
        c.ensures('level and handler are kept', T28, And(n[lv] == o[lv], n[hd] == o[hd]))
        c.ensures('nothing is logged', T28, n['$ncall'] == o['$ncall'])

    if dflt:
        @S.contract(dflt, rel='common/log.c', sig=None)
        def default(c):
            level, fmt, args = c.args
            c.modifies('$errno', '$nmsg', '$msg_fmt', '$msg_args', '$nout', 'timespec.tv_sec', 'timespec.tv_nsec')
            c.post()
            o, n = c.old, c.new
            c.ensures('the message is written once, with its arguments', T28, And(n['$nmsg'] == o['$nmsg'] + 1, n['$msg_fmt'] == fmt, n['$msg_args'] == args))
