"""SMT-LIB 2 emission and the solver portfolio (z3 4.8.12, the newer z3, cvc5). Floats are either uninterpreted ('uf') or IEEE ('fp')."""
import os
import subprocess
import tempfile
import time
from . import terms as t

OPS = {'bvand': 'bvand', 'bvor': 'bvor', 'bvxor': 'bvxor', 'bvshl': 'bvshl', 'bvlshr': 'bvlshr', 'bvashr': 'bvashr',
       'bvudiv': 'bvudiv', 'bvurem': 'bvurem', 'bvsdiv': 'bvsdiv', 'bvsrem': 'bvsrem', 'mul': 'bvmul', 'concat': 'concat',
       'bvult': 'bvult', 'bvule': 'bvule', 'bvslt': 'bvslt', 'bvsle': 'bvsle', '=': '=', 'and': 'and', 'or': 'or', 'not': 'not',
       'ite': 'ite', 'select': 'select', 'store': 'store'}


def sortname(s, fp):
    if s == 0:
        return 'Bool'
    if isinstance(s, int):
        return f'(_ BitVec {s})'
    if s == 'f64':
        return '(_ FloatingPoint 11 53)' if fp else 'F64'
    if s == 'f32':
        return '(_ FloatingPoint 8 24)' if fp else 'F32'
    return f'(Array (_ BitVec 64) {sortname(s[1], fp)})'


def q(name):
    return '|' + name.replace('|', '_') + '|'


# operations left uninterpreted (over the IEEE sorts) in 'mix' mode: every IEEE operation is a function of its operands, so unsat is sound
MIXUF = ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'frem', 'fptrunc')
ABSTRACTABLE = ('mul', 'bvudiv', 'bvurem', 'bvsdiv', 'bvsrem')


def abstractable(x):
    """products and quotients of two unknowns, and quotients by constants that are no powers of two"""
    if x.op not in ABSTRACTABLE or x.sort < 32:
        return False
    if not any(y.op == 'const' for y in x.args):
        return True
    b = x.args[1]
    return x.op != 'mul' and b.op == 'const' and b.val & (b.val - 1) != 0


class Emitter:
    def __init__(self, fp=False, muluf=False):
        self.fp = fp
        self.muluf = muluf
        self.muls = []
        self.lines = []
        self.names = {}
        self.decl = set()
        self.extra = []
        if not fp:
            self.lines.append('(declare-sort F64 0)')
            self.lines.append('(declare-sort F32 0)')

    def declare(self, name, args, sort):
        if name not in self.decl:
            self.decl.add(name)
            self.lines.append(f'(declare-fun {q(name)} ({" ".join(sortname(a, self.fp) for a in args)}) {sortname(sort, self.fp)})')
        return q(name)

    def const(self, x):
        if x.sort == 0:
            return 'true' if x.val else 'false'
        if isinstance(x.sort, int):
            return f'(_ bv{x.val} {x.sort})'
        if self.fp:
            if x.sort == 'f64':
                b = f'{x.val:064b}'
                return f'(fp #b{b[0]} #b{b[1:12]} #b{b[12:]})'
            b = f'{x.val:032b}'
            return f'(fp #b{b[0]} #b{b[1:9]} #b{b[9:]})'
        return self.declare(f'{x.sort}!const!{x.val:x}', (), x.sort)

    def ref(self, x):
        if x.op == 'const':
            return self.const(x)
        return self.names[x.id]

    def emit(self, roots):
        st = [(r, False) for r in roots]
        while st:
            x, done = st.pop()
            if x.id in self.names or x.op == 'const':
                continue
            if not done:
                st.append((x, True))
                for a in x.args:
                    if a.id not in self.names and a.op != 'const':
                        st.append((a, False))
                continue
            self.names[x.id] = self.node(x)

    def node(self, x):
        if x.op == 'var':
            return self.declare(x.val, (), x.sort)
        a = [self.ref(y) for y in x.args]
        op = x.op
        fp = self.fp
        if self.muluf and abstractable(x):
            # sound abstraction: any function of two arguments; products additionally commute
            n = self.declare(f'uf!{op}{x.sort}', (x.sort, x.sort), x.sort)
            if op == 'mul':
                for p, r in self.muls:
                    if r[2] == x.sort:
                        self.extra.append(f'(assert (=> (and (= {a[0]} {r[1]}) (= {a[1]} {r[0]})) (= ({n} {a[0]} {a[1]}) {p})))')
                if len(self.muls) < 24:
                    self.muls.append((f'({n} {a[0]} {a[1]})', (a[0], a[1], x.sort)))
            e = f'({n} {a[0]} {a[1]})'
            b = x.args[1]
            if op in ('bvurem', 'bvsrem') and b.op == 'const' and 0 < b.val < 1 << (x.sort - 1):
                lt = 'bvult' if op == 'bvurem' else 'bvslt'
                self.extra.append(f'(assert ({lt} {e} {a[1]}))')
                if op == 'bvsrem':
                    self.extra.append(f'(assert (bvslt (bvneg {a[1]}) {e}))')
                    self.extra.append(f'(assert (=> (bvsle (_ bv0 {x.sort}) {a[0]}) (bvsle (_ bv0 {x.sort}) {e})))')
        elif op in OPS:
            e = f'({OPS[op]} {" ".join(a)})'
        elif op == 'lin':
            c, cs = x.val
            w = x.sort
            parts = []
            m = (1 << w) - 1
            for k, y in zip(cs, a):
                if k == 1:
                    parts.append(y)
                elif k == m:
                    parts.append(f'(bvneg {y})')
                elif k & (k - 1) == 0:
                    parts.append(f'(bvshl {y} (_ bv{k.bit_length()-1} {w}))')
                else:
                    parts.append(f'(bvmul (_ bv{k} {w}) {y})')
            if c:
                parts.append(f'(_ bv{c} {w})')
            e = parts[0]
            for p in parts[1:]:
                e = f'(bvadd {e} {p})'
        elif op == 'zext':
            e = f'((_ zero_extend {x.sort - x.args[0].sort}) {a[0]})'
        elif op == 'sext':
            e = f'((_ sign_extend {x.sort - x.args[0].sort}) {a[0]})'
        elif op == 'extract':
            e = f'((_ extract {x.val[0]} {x.val[1]}) {a[0]})'
        elif op == 'constarr':
            e = f'((as const {sortname(x.sort, fp)}) {a[0]})'
        elif op == 'uf':
            n = self.declare(x.val + ''.join('_' + str(y.sort) for y in x.args), [y.sort for y in x.args], x.sort)
            e = f'({n} {" ".join(a)})' if a else n
        elif not fp or (fp == 'mix' and op in MIXUF):
            n = f'{op}_{x.sort}_' + '_'.join(str(y.sort) for y in x.args) + (f'_{x.val}' if x.val is not None else '')
            n = self.declare(n, [y.sort for y in x.args], x.sort)
            e = f'({n} {" ".join(a)})'
            if op in ('fadd', 'fmul') and fp == 'mix':
                self.extra.append(f'(assert (= ({n} {a[0]} {a[1]}) ({n} {a[1]} {a[0]})))')
        else:
            e = self.fpnode(x, a)
            if op == 'fabs' and fp == 'mix' and x.args[0].op == 'fsub':
                # |a - b| = |b - a|
                b0, b1 = (self.ref(y) for y in x.args[0].args)
                n = f'fsub_{x.sort}_{x.sort}_{x.sort}'
                self.extra.append(f'(assert (= {e} (fp.abs ({n} {b1} {b0}))))')
        if x.sort == 0 and op == 'not':
            return e
        nm = f'n{x.id}'
        self.lines.append(f'(define-fun {nm} () {sortname(x.sort, fp)} {e})')
        return nm

    def fpnode(self, x, a):
        op = x.op
        rm = 'RNE'
        eb = {'f64': '11 53', 'f32': '8 24'}
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return f'({ {"fadd": "fp.add", "fsub": "fp.sub", "fmul": "fp.mul", "fdiv": "fp.div"}[op]} {rm} {a[0]} {a[1]})'
        if op == 'frem':
            n = self.declare('frem_' + str(x.sort), [y.sort for y in x.args], x.sort)
            return f'({n} {a[0]} {a[1]})'
        if op == 'fsqrt':
            return f'(fp.sqrt {rm} {a[0]})'
        if op == 'fneg':
            return f'(fp.neg {a[0]})'
        if op == 'fabs':
            return f'(fp.abs {a[0]})'
        if op == 'feq':
            return f'(fp.eq {a[0]} {a[1]})'
        if op == 'flt':
            return f'(fp.lt {a[0]} {a[1]})'
        if op == 'fle':
            return f'(fp.leq {a[0]} {a[1]})'
        if op == 'fisnan':
            return f'(fp.isNaN {a[0]})'
        if op == 'frint':
            m = {'floor': 'RTN', 'ceil': 'RTP', 'trunc': 'RTZ', 'round': 'RNA'}[x.val]
            return f'(fp.roundToIntegral {m} {a[0]})'
        if op == 'sitofp':
            return f'((_ to_fp {eb[x.sort]}) {rm} {a[0]})'
        if op == 'uitofp':
            return f'((_ to_fp_unsigned {eb[x.sort]}) {rm} {a[0]})'
        if op == 'fptosi':
            return f'((_ fp.to_sbv {x.sort}) RTZ {a[0]})'
        if op == 'fptoui':
            return f'((_ fp.to_ubv {x.sort}) RTZ {a[0]})'
        if op in ('fpext', 'fptrunc'):
            return f'((_ to_fp {eb[x.sort]}) {rm} {a[0]})'
        if op == 'bitcast':
            if isinstance(x.sort, int):
                n = self.declare(f'bits!{x.id}', (), x.sort)
                self.extra.append(f'(assert (= ((_ to_fp {eb[x.args[0].sort]}) {n}) {a[0]}))')
                return n
            return f'((_ to_fp {eb[x.sort]}) {a[0]})'
        raise NotImplementedError('fp op ' + op)


def has_nonlinear(roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if abstractable(x):
            return True
        st.extend(x.args)
    return False


def has_op(roots, ops):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ops:
            return True
        st.extend(x.args)
    return False


def has_float(roots):
    seen = set()
    st = list(roots)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.sort in ('f64', 'f32') or (isinstance(x.sort, tuple) and x.sort[1] in ('f64', 'f32')):
            return True
        st.extend(x.args)
    return False


def script(assertions, fp=False, getvals=None, logic=None, muluf=False):
    e = Emitter(fp, muluf)
    roots = list(assertions) + [v for v in (getvals or [])]
    e.emit(roots)
    out = []
    if logic:
        out.append(f'(set-logic {logic})')
    out += e.lines + e.extra
    for a in assertions:
        out.append(f'(assert {e.ref(a)})')
    out.append('(check-sat)')
    if getvals:
        for v in getvals:
            out.append(f'(get-value ({e.ref(v)}))')
    return '\n'.join(out) + '\n'


SOLVERS = {
    'z3': lambda f, to: ['z3', f'-T:{to}', f],
    'z3-new': lambda f, to: ['z3-new', f'-T:{to}', f],
    'z3-new-int': lambda f, to: ['z3-new', f'-T:{to}', 'smt.bv.solver=2', f],
    'cvc5': lambda f, to: ['cvc5', f'--tlimit={to*1000}', '--produce-models', '-q', f],
    'cvc5-int': lambda f, to: ['cvc5', f'--tlimit={to*1000}', '--solve-bv-as-int=sum', '--nl-ext-tplanes', '-q', f],
}


def _tmp(text):
    fd, p = tempfile.mkstemp(prefix='fv_', suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    return p


def run_portfolio(files, timeout, satfrom=None):
    """files: {solver: path}. First definite answer wins -> (result, solver, output, seconds)"""
    t0 = time.time()
    ps = {}
    for s, p in files.items():
        try:
            ps[s] = subprocess.Popen(SOLVERS[s.split('#')[0]](p, timeout), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        except OSError:
            pass
    outs = {}
    res = ('unknown', None, '')
    import selectors
    sel = selectors.DefaultSelector()
    for s, p in ps.items():
        sel.register(p.stdout, selectors.EVENT_READ, s)
        outs[s] = ''
    live = set(ps)
    while live:
        left = timeout + 3 - (time.time() - t0)
        if left <= 0:
            break
        for key, _ in sel.select(left):
            s = key.data
            d = os.read(key.fd, 65536).decode(errors='replace')
            if d:
                outs[s] += d
                continue
            sel.unregister(key.fileobj)
            live.discard(s)
            first = outs[s].strip().split('\n')[0].strip() if outs[s].strip() else ''
            if first == 'unsat' or first == 'sat' and (satfrom is None or s.startswith(satfrom)):
                res = (first, s, outs[s])
                live.clear()
                break
            if res[1] is None:
                res = ('unknown', None, (res[2] + f'[{s}: {first[:200]}] '))
    for p in ps.values():
        if p.poll() is None:
            p.kill()
        p.stdout.close()
        p.wait()
    return res + (time.time() - t0,)


def solve(assertions, timeout=20, solvers=('z3-new', 'cvc5', 'z3'), fp=None, getvals=None, muluf=None):
    """fp None: try uninterpreted first; if that is not unsat and floats occur, IEEE semantics.
    Returns (result, backend, model text, seconds)."""
    hf = has_float(assertions)
    total = 0.0
    if muluf is None and has_nonlinear(assertions):
        r = solve(assertions, min(timeout, 12), solvers, False, None, True)
        total += r[3]
        if r[0] == 'unsat':
            return r[0], r[1] + '/mul-uf', r[2], total
    if fp is None and hf:
        r = solve(assertions, min(timeout, 15), solvers, False, None, False)
        total += r[3]
        if r[0] == 'unsat':
            return r[0], r[1] + '/uf', r[2], total
        if has_op(assertions, MIXUF):
            r = solve(assertions, min(timeout, 20), solvers, 'mix', None, False)
            total += r[3]
            if r[0] == 'unsat':
                return r[0], r[1] + '/fp-mix', r[2], total
        r = solve(assertions, timeout, solvers, True, getvals, False)
        return r[0], (r[1] + '/fp' if r[1] else None), r[2], total + r[3]
    txt = script(assertions, fp if fp and hf else False, getvals, None, bool(muluf))
    p = _tmp(txt)
    files = {s: p for s in solvers}
    extra = None
    if 'cvc5' in files or 'cvc5-int' in files:
        extra = _tmp('(set-logic ALL)\n' + txt)
        for s in files:
            if s.startswith('cvc5'):
                files[s] = extra
    try:
        # cvc5 1.1.2 answers sat with models that do not satisfy the query when uninterpreted functions range over floats
        r = run_portfolio(files, timeout, 'z3' if fp and hf else None)
        return r[0], r[1], r[2], r[3] + total
    finally:
        os.unlink(p)
        if extra:
            os.unlink(extra)


def quick_check(pc, facts, timeout=4):
    q = list(pc) + list(facts)
    if has_nonlinear(q):  # products and quotients of unknowns: deciding feasibility exactly seldom pays
        r = solve(q, timeout, ('z3-new',), False, None, True)
        if r[0] == 'unsat':
            return r[0]
        timeout = 1
    return solve(q, timeout, ('z3-new',), False, None, False)[0]
