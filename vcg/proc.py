"""One z3 process per obligation (SMT-LIB text, no incremental mode, so that the solver preprocesses the whole query)."""
import subprocess
import z3

SORTDEFS = '''(declare-datatypes ((Ptr 0)) (((null) (obj (oid Int)) (sub (sbase Ptr) (sfld Int)) (elt (ebase Ptr) (eidx Int)) (fn (fid Int)))))
(declare-sort Str 0)
'''


class Texts:
    """the facts of one function as text, serialised once"""
    def __init__(self, facts):
        self.seen, self.keep, self.names, self.decls = set(), [], set(), []
        self.facts = []
        for f in facts:
            self.declare(f)
            self.facts.append('(assert %s)\n' % f.sexpr())

    def declare(self, t):
        stack = [t]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in self.seen:
                continue
            self.seen.add(i)
            self.keep.append(x)
            if z3.is_quantifier(x):
                stack.append(x.body())
                for k in range(x.num_patterns()):
                    stack += list(x.pattern(k).children())
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = d.sexpr()
                    if nm not in self.names:
                        self.names.add(nm)
                        self.decls.append(nm + '\n')
                stack += x.children()

    def query(self, pos, asm, pc, goal, options, core=False):
        for t in list(asm) + [pc] + ([goal] if goal is not None else []):
            self.declare(t)
        parts = ['(set-option :%s %s)\n' % kv for kv in options.items()] + [SORTDEFS] + self.decls + self.facts[:pos]
        if core:
            parts += ['(assert (! %s :named core_%d))\n' % (t.sexpr(), k) for k, t in enumerate(asm)]
        else:
            parts += ['(assert %s)\n' % t.sexpr() for t in asm]
        parts.append('(assert %s)\n' % pc.sexpr())
        if goal is not None:
            parts.append('(assert (not %s))\n' % goal.sexpr())
        parts.append('(check-sat)\n(get-unsat-core)\n' if core else '(check-sat)\n(get-info :reason-unknown)\n')
        return ''.join(parts).replace('(_ int_to_bv ', '(_ int2bv ').replace('(ubv_to_int ', '(bv2nat ')


def oneshot(binary, text, timeout):
    """-> (result, reason)"""
    try:
        p = subprocess.run([binary, '-in', '-smt2', '-t:%d' % int(timeout * 1000), '-T:%d' % int(timeout + 5)], input=text, capture_output=True, text=True, timeout=timeout + 20)
    except (subprocess.TimeoutExpired, OSError) as e:
        return z3.unknown, 'timeout'
    out = p.stdout.split('\n')
    first = out[0].strip() if out else ''
    if first == 'unsat':
        return z3.unsat, ''
    if first == 'sat':
        return z3.sat, ''
    if first.startswith('(error'):
        raise RuntimeError('solver: ' + first)
    why = ' '.join(out[1:])
    return z3.unknown, ('timeout' if first in ('timeout', '') or 'timeout' in why or 'canceled' in why else 'incomplete' if 'incomplete' in why else why.strip()[:60])


def core(binary, text, timeout):
    """-> None, or the indices of the assumptions a refutation used"""
    p = subprocess.run([binary, '-in', '-smt2', '-t:%d' % int(timeout * 1000)], input=text, capture_output=True, text=True)
    out = p.stdout.split('\n')
    if out[0].strip() != 'unsat':
        return None
    return [int(w.strip('()')[5:]) for w in ' '.join(out[1:]).split() if w.strip('()').startswith('core_')]
