"""Mechanical extraction of /repo's functions from clang's AST (JSON)."""
import json, os, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from .ctype import TypeTable, CType, Rec

CLANG = os.environ.get('VCG_CLANG', '/usr/bin/clang-18')

COMMON = ['-std=c11', '-D_XOPEN_SOURCE=700', '-D__BSD_VISIBLE', '-D_NETBSD_SOURCE', '-DSEATD_VERSION="0.9.1"',
          '-DSEATD_DEFAULTPATH="/run/seatd.sock"', '-DSEATD_INSTALLPATH="/usr/local/bin/seatd"', '-DDEBUG']
LIBSEAT = ['-DLIBSEAT=1', '-DSEATD_ENABLED=1', '-DLOGIND_ENABLED=1', '-DHAVE_LIBSYSTEMD=1', '-DBUILTIN_ENABLED=1']


class ExtractError(Exception):
    pass


class FuncDef:
    __slots__ = ('name', 'tu', 'node', 'params', 'body', 'rettype', 'static', 'line', 'file')

    def __init__(self, name, tu, node, params, body, rettype, static, line):
        self.name, self.tu, self.node, self.params, self.body = name, tu, node, params, body
        self.rettype, self.static, self.line = rettype, static, line


class TU:
    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        self.types = TypeTable()
        self.funcs = {}       # name -> FuncDef (definitions in this TU)
        self.globals = {}     # id -> VarDecl node (file scope) ; also by name
        self.gname = {}       # name -> canonical VarDecl (the one with init if any)
        self.enumnames = {}
        self.enums = {}       # EnumConstantDecl id -> value
        self.static_funcs = set()
        self.addr_taken = {}  # functions used as values: name -> list of lines
        self.src = b''

    def line_of(self, off):
        return self.src.count(b'\n', 0, off) + 1


def _off(loc):
    if not loc:
        return None
    if 'offset' in loc:
        return loc['offset']
    for k in ('expansionLoc', 'spellingLoc'):
        if k in loc and 'offset' in loc[k]:
            return loc[k]['offset']
    return None


def load_tu(repo, rel, flags):
    path = os.path.join(repo, rel)
    if not os.path.exists(path):
        raise ExtractError('missing source file %s' % rel)
    cmd = [CLANG, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-w'] + flags + ['-I', os.path.join(repo, 'include'), path]
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (rel, r.stderr.decode(errors='replace')[-2000:]))
    ast = json.loads(r.stdout)
    tu = TU(path, rel)
    tu.src = open(path, 'rb').read()
    T = tu.types
    cur = {'file': None, 'line': 0}

    def record(n):
        kind = n.get('tagUsed', 'struct')
        name = n.get('name')
        loc = n.get('loc', {})
        if not name:
            l = loc.get('expansionLoc', loc)
            key = None
        else:
            key = '%s %s' % (kind, name)
        # nested record decls first
        fields = []
        anon_keys = []
        for c in n.get('inner', []) or []:
            if c['kind'] == 'RecordDecl':
                record(c)
            elif c['kind'] == 'FieldDecl':
                fields.append((c.get('name', ''), c))
        if n.get('completeDefinition'):
            rf = []
            for fname, fc in fields:
                try:
                    ft = T.parse(fc['type'].get('desugaredQualType', fc['type']['qualType']))
                except ValueError:
                    try:
                        ft = T.parse(fc['type']['qualType'])
                    except ValueError:
                        ft = Rec('struct ?')
                rf.append((fname, ft))
            if key is None:
                pend_anon.append((kind, rf, n['id']))
            else:
                T.records[key] = rf
                T.reckind[key] = kind

    pend_anon = []

    def anon_key(tstr):
        i = tstr.find('(unnamed')
        if i < 0:
            i = tstr.find('(anonymous')
        return i >= 0

    def scan_types(n, parent_anon):
        """records and enums anywhere (also local)"""
        k = n.get('kind')
        if k == 'RecordDecl':
            record(n)
        elif k == 'EnumDecl':
            enum(n)
        elif k == 'TypedefDecl':
            T.typedefs[n['name']] = n['type'].get('desugaredQualType', n['type']['qualType'])
        for c in n.get('inner', []) or []:
            if isinstance(c, dict):
                if k == 'RecordDecl' and c.get('kind') == 'RecordDecl':
                    continue
                scan_types(c, None)

    def enum(n):
        val = -1
        for c in n.get('inner', []) or []:
            if c.get('kind') != 'EnumConstantDecl':
                continue
            v = None
            for e in c.get('inner', []) or []:
                v = find_const(e)
            val = val + 1 if v is None else v
            tu.enums[c['id']] = val
            tu.enumnames[c['name']] = val

    def find_const(e):
        if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
            return int(e['value'])
        for c in e.get('inner', []) or []:
            v = find_const(c)
            if v is not None:
                return v
        return None

    def fix_anon_vars(n):
        """bind unnamed record types to the strings used for them"""
        inner = n.get('inner', []) or []
        last = None
        for c in inner:
            if not isinstance(c, dict): continue
            if c.get('kind') == 'RecordDecl' and not c.get('name'):
                last = c
            elif c.get('kind') in ('VarDecl', 'FieldDecl', 'TypedefDecl') and last is not None:
                ts = c['type'].get('desugaredQualType', c['type']['qualType'])
                if anon_key(ts) or (c['kind'] == 'TypedefDecl' and ts == c.get('name')):
                    t = T.parse(ts)
                    while t.is_arr or t.is_ptr:
                        t = t.elem if t.is_arr else t.to
                    for kind, rf, rid in pend_anon:
                        if rid == last['id']:
                            T.records[t.name] = rf
                            T.reckind[t.name] = kind
            fix_anon_vars(c)

    for d in ast['inner']:
        scan_types(d, None)
    fix_anon_vars(ast)

    for d in ast['inner']:
        k = d.get('kind')
        if k == 'VarDecl':
            tu.globals[d['id']] = d
            old = tu.gname.get(d['name'])
            if old is None or d.get('init'):
                tu.gname[d['name']] = d
        elif k == 'FunctionDecl':
            body = None
            params = []
            for c in d.get('inner', []) or []:
                if c.get('kind') == 'ParmVarDecl': params.append(c)
                elif c.get('kind') == 'CompoundStmt': body = c
            if d.get('storageClass') == 'static':
                tu.static_funcs.add(d['name'])
            if body is not None:
                off = _off(d.get('loc'))
                inc = d.get('loc', {}).get('includedFrom') or (d.get('range', {}).get('begin', {}).get('includedFrom'))
                if inc or off is None:
                    continue
                ft = T.parse(d['type'].get('desugaredQualType', d['type']['qualType']))
                tu.funcs[d['name']] = FuncDef(d['name'], tu, d, params, body, ft.ret, d.get('storageClass') == 'static',
                                              tu.line_of(off))
    # functions used as values (not as direct callee)
    def walk(n, callee):
        k = n.get('kind')
        if k == 'DeclRefExpr':
            rd = n.get('referencedDecl', {})
            if rd.get('kind') == 'FunctionDecl' and not callee:
                tu.addr_taken.setdefault(rd['name'], []).append(n)
            return
        inner = n.get('inner', []) or []
        for i, c in enumerate(inner):
            if isinstance(c, dict):
                sub = (k == 'CallExpr' and i == 0) or (callee and k in ('ImplicitCastExpr', 'ParenExpr'))
                walk(c, sub)
    for f in tu.funcs.values():
        walk(f.body, False)
    for g in tu.gname.values():
        walk(g, False)
    return tu


class Program:
    """A set of translation units linked together."""

    def __init__(self, repo, files):
        """files: list of (relpath, flags)"""
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda a: load_tu(repo, a[0], a[1]), files))
        self.public = {}
        for tu in self.tus:
            for f in tu.funcs.values():
                if not f.static:
                    self.public[f.name] = f
        self.tu_by_rel = {t.rel: t for t in self.tus}
        # record definitions visible anywhere (opaque types completed by their defining TU)
        self.all_records = {}
        for t in self.tus:
            for n, fs in t.types.records.items():
                self.all_records.setdefault(n, fs)
        for t in self.tus:
            for n, fs in self.all_records.items():
                if n not in t.types.records:
                    t.types.records[n] = fs
                    for t2 in self.tus:
                        if n in t2.types.reckind:
                            t.types.reckind[n] = t2.types.reckind[n]

    def find(self, tu, name):
        f = tu.funcs.get(name)
        if f is not None:
            return f
        if name in tu.static_funcs:
            return None
        return self.public.get(name)


DAEMON_FILES = ['seatd/seat.c', 'seatd/client.c', 'seatd/server.c', 'seatd/poller.c', 'common/connection.c',
                'common/linked_list.c', 'common/terminal.c', 'common/log.c', 'common/drm.c', 'common/evdev.c',
                'common/hidraw.c', 'common/wscons.c']


def daemon_program(repo):
    return Program(repo, [(f, COMMON) for f in DAEMON_FILES + ['seatd/seatd.c']])


CLIENT_FILES = ['libseat/libseat.c', 'libseat/backend/seatd.c', 'libseat/backend/noop.c', 'common/connection.c', 'common/linked_list.c', 'common/log.c']


def client_program(repo):
    return Program(repo, [(f, COMMON + LIBSEAT) for f in CLIENT_FILES])
