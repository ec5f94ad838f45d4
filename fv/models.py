"""Semantics of LLVM intrinsics, the few C/C++ runtime functions the code reaches, and the specification DSL primitives.
Everything in this file is part of the trusted base and listed as such in the evidence."""
from . import terms as t
from .terms import T, TRUE, FALSE, bv, and_, or_, not_, eq, ite
from .llvm import Unsupported
from . import exec as X
from .exec import Ptr, Undef, Agg, NULLP, obj_ptr, tysort


def cstr(ex, st, p):
    p = ex.as_ptr(p)
    g, o, f = p.alts[0]
    out = ''
    k = f.val
    while True:
        v = ex.load_const(st, o, k, ('i', 8))
        if v.op != 'const':
            raise Unsupported('symbolic string')
        if v.val == 0:
            return out
        out += chr(v.val)
        k += 1


H = {}
PRE = []


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def pre(*names):
    def d(f):
        for n in names:
            PRE.append((n, f))
        return f
    return d


_cache = {}


def lookup(name):
    if name in _cache:
        return _cache[name]
    r = H.get(name)
    if r is None:
        for p, f in PRE:
            if name.startswith(p):
                r = f
                break
    _cache[name] = r
    return r


def ret(st, v=None):
    return st, v, None


DEAD = (None, None, None)

# ---------------------------------------------------------------- DSL


def _any(sort):
    def f(ex, st, a, ins, name, al):
        nm = cstr(ex, st, a[0])
        v = ex.input(nm, sort)
        return ret(st, v)
    return f


for n, s in (('u64', 64), ('u32', 32), ('u16', 16), ('u8', 8), ('bool', 0), ('f64', 'f64')):
    H['__fv_any_' + n] = _any(s)


@h('__fv_assume')
def _(ex, st, a, ins, name, al):
    c = ex.conc(a[0])
    if c.sort != 0:
        c = t.bv2bool(c)
    if not st.assume(c):
        return DEAD
    return ret(st)


@h('__fv_check')
def _(ex, st, a, ins, name, al):
    c = ex.conc(a[0])
    if c.sort != 0:
        c = t.bv2bool(c)
    if not ex.check(st, c, cstr(ex, st, a[1]), 'check'):
        return DEAD
    return ret(st)


@h('__fv_cover')
def _(ex, st, a, ins, name, al):
    ex.covers.append((cstr(ex, st, a[0]), st.pc))
    return ret(st)


@h('__fv_any_array')
def _(ex, st, a, ins, name, al):
    nm = cstr(ex, st, a[0])
    n, stride = ex.conc(a[1]), ex.conc(a[2])
    if stride.op != 'const':
        raise Unsupported('symbolic stride')
    oid = ex.new_obj(st, t.scale(n, stride.val), 'sym', nm, 'heap')
    o = st.mem[oid]
    if isinstance(o.size, T) and o.size.op == 'const':
        o.size = o.size.val
        o.size = bv(o.size, 64)
    o.stride = stride.val
    o.cols = {}
    ex.arrays.append((nm, oid, n, stride.val))
    return ret(st, obj_ptr(oid))


@h('__fv_thread_private')
def _(ex, st, a, ins, name, al):
    p = ex.as_ptr(a[0])
    ok = all(isinstance(o, int) and ex.get_obj(st, o).kind != 'global' for g, o, f in p.alts)
    return ret(st, TRUE if ok else FALSE)


@h('__fv_havoc')
def _(ex, st, a, ins, name, al):
    p = ex.as_ptr(a[0])
    n = ex.conc(a[1])
    if len(p.alts) != 1 or n.op != 'const' or p.alts[0][2].op != 'const':
        raise Unsupported('havoc')
    g, oid, f = p.alts[0]
    o = ex.own(st, oid)
    ex.align_split(o.cells, f.val, f.val + n.val)
    for k in [k for k in o.cells if f.val <= k < f.val + n.val]:
        del o.cells[k]
    if o.default == 'zero':
        for k in range(n.val):
            o.cells[f.val + k] = (1, t.fresh('havoc', 8))
    return ret(st)


@h('__fv_uf1', '__fv_uf2', '__fv_uf3', '__fv_uf4', '__fv_uf5')
def _(ex, st, a, ins, name, al):
    nm = cstr(ex, st, a[0])
    return ret(st, t.uf('spec_' + nm, [ex.conc(x) for x in a[1:]], 64))


@h('__fv_fuf1', '__fv_fuf2', '__fv_fuf3')
def _(ex, st, a, ins, name, al):
    nm = cstr(ex, st, a[0])
    return ret(st, t.uf('spec_' + nm, [ex.conc(x) for x in a[1:]], 'f64'))


@h('__fv_same_f64')
def _(ex, st, a, ins, name, al):
    return ret(st, eq(ex.conc(a[0]), ex.conc(a[1])))


@h('__fv_is_symbolic')
def _(ex, st, a, ins, name, al):
    return ret(st, TRUE)


# ---------------------------------------------------------------- allocation and exceptions
@h('_Znwm', '_Znam', 'malloc')
def _(ex, st, a, ins, name, al):
    n = ex.conc(a[0])
    if n.op != 'const':
        # symbolic size: the object is an array whose stride is found from the size expression
        c, d = t._lin_parts(n)
        from math import gcd
        g = 0
        for k in list(d.values()) + ([c] if c else []):
            g = gcd(g, abs(t.sgn(k, 64)))
        if g == 0 or g > 4096:
            raise Unsupported('allocation of symbolic size')
        oid = ex.new_obj(st, n, 'undef', 'new', 'heap')
        st.mem[oid].stride = g
        st.mem[oid].cols = {}
        return ret(st, obj_ptr(oid))
    if n.val > (1 << 40):
        raise Unsupported('allocation size')
    oid = ex.new_obj(st, n.val, 'undef', 'new', 'heap')
    return ret(st, obj_ptr(oid))


@h('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(ex, st, a, ins, name, al):
    return H['_Znwm'](ex, st, a[:1], ins, name, al)


@h('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _(ex, st, a, ins, name, al):
    p = ex.as_ptr(a[0])
    for g, o, f in p.alts:
        if isinstance(o, int):
            ob = ex.own(st, o)
            ob.alive = FALSE if len(p.alts) == 1 else t.and_(ob.alive, t.not_(g))
    return ret(st)


@h('__cxa_allocate_exception')
def _(ex, st, a, ins, name, al):
    n = a[0].val if a[0].op == 'const' else 64
    oid = ex.new_obj(st, n, 'undef', 'exception', 'heap')
    return ret(st, obj_ptr(oid))


@h('__cxa_free_exception')
def _(ex, st, a, ins, name, al):
    return ret(st)


@h('__cxa_throw')
def _(ex, st, a, ins, name, al):
    st.exc = (ex.as_ptr(a[0]), ex.as_ptr(a[1]))
    return None, None, st


@h('__cxa_rethrow')
def _(ex, st, a, ins, name, al):
    if not st.caught:
        raise Unsupported('rethrow without exception')
    st.exc = st.caught[-1]
    return None, None, st


@h('__cxa_begin_catch')
def _(ex, st, a, ins, name, al):
    st.caught = st.caught + (st.exc,)
    return ret(st, a[0])


@h('__cxa_end_catch')
def _(ex, st, a, ins, name, al):
    st.caught = st.caught[:-1]
    return ret(st)


@h('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(ex, st, a, ins, name, al):
    p = ex.as_ptr(a[0])
    return ret(st, bv(ex.typeid(ex.gobj[p.alts[0][1]].name), 32))


@h('__cxa_guard_acquire')
def _(ex, st, a, ins, name, al):
    v = ex.load(st, a[0], ('i', 8))
    return ret(st, ite(eq(v, bv(0, 8)), bv(1, 32), bv(0, 32)))


@h('__cxa_guard_release')
def _(ex, st, a, ins, name, al):
    ex.store(st, a[0], bv(1, 8), ('i', 8))
    return ret(st)


@h('__cxa_guard_abort', '__cxa_atexit', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.value',
   'llvm.dbg.declare', 'llvm.dbg.label', 'llvm.experimental.noalias.scope.decl', 'llvm.donothing', 'llvm.sideeffect',
   'llvm.prefetch.p0', 'llvm.stackrestore.p0', 'llvm.stackrestore', 'llvm.dbg.assign')
def _(ex, st, a, ins, name, al):
    return ret(st, bv(0, 32) if name == '__cxa_atexit' else None)


@h('llvm.stacksave', 'llvm.stacksave.p0')
def _(ex, st, a, ins, name, al):
    return ret(st, NULLP)


for nm, tn in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')):
    H[nm] = (lambda tn: lambda ex, st, a, ins, name, al: ex.throw_std(st, tn))(tn)


@pre('_ZNSt12length_errorC', '_ZNSt12out_of_rangeC', '_ZNSt11logic_errorC', '_ZNSt13runtime_errorC', '_ZNSt16invalid_argumentC',
     '_ZNSt12length_errorD', '_ZNSt12out_of_rangeD', '_ZNSt11logic_errorD', '_ZNSt13runtime_errorD', '_ZNSt16invalid_argumentD',
     '_ZNSt9exceptionD', '_ZNSt9exceptionC')
def _(ex, st, a, ins, name, al):
    return ret(st)


@h('_ZSt9terminatev', 'abort', '__clang_call_terminate', '__cxa_pure_virtual', '__cxa_call_unexpected', 'exit', '_ZSt10unexpectedv')
def _(ex, st, a, ins, name, al):
    ex.check(st, FALSE, 'abnormal-termination:' + name, 'safety')
    return DEAD


@h('__assert_fail')
def _(ex, st, a, ins, name, al):
    try:
        msg = cstr(ex, st, a[0])
    except Exception:
        msg = '?'
    ex.check(st, FALSE, 'assertion:' + msg, 'assert')
    return DEAD


UBK = {0: 'add-overflow', 1: 'builtin-unreachable', 3: 'divrem-overflow', 5: 'float-cast-overflow', 10: 'load-invalid-value',
       11: 'missing-return', 12: 'mul-overflow', 13: 'negate-overflow', 16: 'out-of-bounds', 19: 'pointer-overflow', 20: 'shift-out-of-bounds',
       21: 'sub-overflow', 22: 'type-mismatch', 23: 'alignment-assumption', 24: 'vla-bound-not-positive', 18: 'out-of-bounds'}


@h('llvm.ubsantrap')
def _(ex, st, a, ins, name, al):
    ex.check(st, FALSE, 'undefined-behaviour:' + UBK.get(a[0].val, str(a[0].val)), 'ub')
    return DEAD


@h('llvm.trap', 'llvm.debugtrap')
def _(ex, st, a, ins, name, al):
    ex.check(st, FALSE, 'trap', 'ub')
    return DEAD


# ---------------------------------------------------------------- intrinsics
@h('llvm.assume')
def _(ex, st, a, ins, name, al):
    # emitted by clang only for facts of the language; not used to prune paths
    return ret(st)


@pre('llvm.expect.')
def _(ex, st, a, ins, name, al):
    return ret(st, a[0])


@pre('llvm.is.constant')
def _(ex, st, a, ins, name, al):
    return ret(st, FALSE)


@pre('llvm.objectsize')
def _(ex, st, a, ins, name, al):
    return ret(st, bv(-1, ins[2][1]))


@pre('llvm.threadlocal.address')
def _(ex, st, a, ins, name, al):
    return ret(st, a[0])


@pre('llvm.launder.invariant.group', 'llvm.strip.invariant.group', 'llvm.ssa.copy')
def _(ex, st, a, ins, name, al):
    return ret(st, a[0])


@pre('llvm.invariant.')
def _(ex, st, a, ins, name, al):
    return ret(st, NULLP)


@pre('llvm.memcpy.', 'llvm.memmove.')
def _(ex, st, a, ins, name, al):
    ex.memcpy(st, a[0], a[1], ex.conc(a[2]))
    return ret(st)


@h('memcpy', 'memmove')
def _(ex, st, a, ins, name, al):
    ex.memcpy(st, a[0], a[1], ex.conc(a[2]))
    return ret(st, a[0])


@pre('llvm.memset.')
def _(ex, st, a, ins, name, al):
    ex.memset(st, a[0], ex.conc(a[1]), ex.conc(a[2]))
    return ret(st)


@h('memset')
def _(ex, st, a, ins, name, al):
    ex.memset(st, a[0], t.extract(ex.conc(a[1]), 7, 0), ex.conc(a[2]))
    return ret(st, a[0])


def vec(f, *a):
    if isinstance(a[0], Agg):
        return Agg([f(*xs) for xs in zip(*[x.v for x in a])])
    return f(*a)


def _mm(pred):
    def f(ex, st, a, ins, name, al):
        return ret(st, vec(lambda x, y: ite(t.cmp(pred, x, y), x, y), ex.conc(a[0]), ex.conc(a[1])))
    return f


for nm, p in (('umin', 'ult'), ('umax', 'ugt'), ('smin', 'slt'), ('smax', 'sgt')):
    PRE.append((f'llvm.{nm}.', _mm(p)))


@pre('llvm.abs.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    return ret(st, vec(lambda x: ite(t.cmp('slt', x, bv(0, x.sort)), t.neg(x), x), x))


def _ovf(op, signed):
    def f(ex, st, a, ins, name, al):
        x, y = ex.conc(a[0]), ex.conc(a[1])
        w = x.sort
        r = t.binop(op, x, y)
        if op == 'mul':
            if x.op == 'const' or y.op == 'const':
                c, z = (x, y) if x.op == 'const' else (y, x)
                if not signed:
                    o = FALSE if c.val == 0 else t.cmp('ugt', z, bv(((1 << w) - 1) // c.val, w))
                else:
                    k = t.sgn(c.val, w)
                    if k == 0:
                        o = FALSE
                    elif k == -1:
                        o = eq(z, bv(1 << (w - 1), w))
                    else:
                        mx, mn = (1 << (w - 1)) - 1, -(1 << (w - 1))
                        if k > 0:
                            hi, lo = mx // k, -((-mn) // k)
                        else:
                            hi, lo = (-mn) // (-k), -(mx // (-k))
                        o = or_(t.cmp('sgt', z, bv(hi, w)), t.cmp('slt', z, bv(lo, w)))
            else:
                e = t.sext if signed else t.zext
                big = t.mul(e(x, 2 * w), e(y, 2 * w))
                o = not_(eq(e(r, 2 * w), big))
        elif signed:
            z = bv(0, w)
            sx, sy, sr = t.cmp('slt', x, z), t.cmp('slt', y, z), t.cmp('slt', r, z)
            if op == 'add':
                o = and_(eq(sx, sy), not_(eq(sr, sx)))
            else:
                o = and_(not_(eq(sx, sy)), not_(eq(sr, sx)))
        else:
            o = t.cmp('ult', r, x) if op == 'add' else t.cmp('ult', x, y)
        return ret(st, Agg([r, o]))
    return f


for op in ('add', 'sub', 'mul'):
    PRE.append((f'llvm.s{op}.with.overflow.', _ovf(op, True)))
    PRE.append((f'llvm.u{op}.with.overflow.', _ovf(op, False)))


@pre('llvm.usub.sat.')
def _(ex, st, a, ins, name, al):
    return ret(st, vec(lambda x, y: ite(t.cmp('ult', x, y), bv(0, x.sort), t.sub(x, y)), ex.conc(a[0]), ex.conc(a[1])))


@pre('llvm.uadd.sat.')
def _(ex, st, a, ins, name, al):
    def f(x, y):
        r = t.add(x, y)
        return ite(t.cmp('ult', r, x), bv(-1, x.sort), r)
    return ret(st, vec(f, ex.conc(a[0]), ex.conc(a[1])))


@pre('llvm.ctpop.')
def _(ex, st, a, ins, name, al):
    def f(x):
        w = x.sort
        r = bv(0, w)
        for k in range(w):
            r = t.add(r, t.zext(t.extract(x, k, k), w))
        return r
    return ret(st, vec(f, ex.conc(a[0])))


@pre('llvm.ctlz.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    w = x.sort
    r = bv(w, w)
    for k in range(w):
        r = ite(eq(t.extract(x, k, k), bv(1, 1)), bv(w - 1 - k, w), r)
    return ret(st, r)


@pre('llvm.cttz.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    w = x.sort
    r = bv(w, w)
    for k in reversed(range(w)):
        r = ite(eq(t.extract(x, k, k), bv(1, 1)), bv(k, w), r)
    return ret(st, r)


@pre('llvm.bswap.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    w = x.sort
    r = None
    for k in range(0, w, 8):
        b = t.extract(x, k + 7, k)
        r = b if r is None else t.concat(r, b)
    return ret(st, r)


@pre('llvm.bitreverse.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    r = None
    for k in range(x.sort):
        b = t.extract(x, k, k)
        r = b if r is None else t.concat(r, b)
    return ret(st, r)


@pre('llvm.fshl.', 'llvm.fshr.')
def _(ex, st, a, ins, name, al):
    x, y, c = (ex.conc(v) for v in a[:3])
    w = x.sort
    if c.op != 'const':
        c = t.binop('urem', c, bv(w, w))
        xy = t.concat(x, y)
        cc = t.zext(c, 2 * w)
        if 'fshl' in name:
            return ret(st, t.extract(t.binop('shl', xy, cc), 2 * w - 1, w))
        return ret(st, t.extract(t.binop('lshr', xy, cc), w - 1, 0))
    k = c.val % w
    if 'fshr' in name:
        k = (w - k) % w
        if c.val % w == 0:
            return ret(st, y)
    elif k == 0:
        return ret(st, x)
    return ret(st, t.concat(t.extract(x, w - 1 - k, 0), t.extract(y, w - 1, w - k)))


@pre('llvm.ucmp', 'llvm.scmp')
def _(ex, st, a, ins, name, al):
    x, y = ex.conc(a[0]), ex.conc(a[1])
    w = ins[2][1]
    p = 'ult' if 'ucmp' in name else 'slt'
    return ret(st, ite(t.cmp(p, x, y), bv(-1, w), ite(eq(x, y), bv(0, w), bv(1, w))))


# ---------------------------------------------------------------- floating point
@pre('llvm.fabs.')
def _(ex, st, a, ins, name, al):
    return ret(st, vec(lambda x: t.fop('fabs', (x,)), ex.conc(a[0])))


@h('fabs', 'fabsf')
def _(ex, st, a, ins, name, al):
    return ret(st, t.fop('fabs', (ex.conc(a[0]),)))


@pre('llvm.sqrt.')
def _(ex, st, a, ins, name, al):
    return ret(st, t.fop('fsqrt', (ex.conc(a[0]),)))


@h('sqrt', 'sqrtf')
def _(ex, st, a, ins, name, al):
    return ret(st, t.fop('fsqrt', (ex.conc(a[0]),)))


@pre('llvm.fmuladd.')
def _(ex, st, a, ins, name, al):
    x, y, z = (ex.conc(v) for v in a[:3])
    return ret(st, t.fop('fadd', (t.fop('fmul', (x, y)), z)))


@pre('llvm.floor.', 'llvm.ceil.', 'llvm.trunc.', 'llvm.round.', 'llvm.rint.', 'llvm.nearbyint.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    op = name.split('.')[1]
    if op in ('floor', 'ceil', 'trunc', 'round'):
        return ret(st, frint(op, x))
    return ret(st, t.uf(name.replace('.', '_'), [x], x.sort))


def frint(op, x):
    if x.op == 'const':
        import math
        v = t._fl(x)
        if math.isfinite(v):
            r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                 'round': lambda z: math.floor(abs(z) + 0.5) * (1 if z >= 0 else -1) if abs(z) < 2**52 else z}[op](v)
            r = float(r)
            if r == 0:
                r = math.copysign(0.0, v)
            return t._fmk(r, x.sort)
    if x.op in ('sitofp', 'uitofp') or x.op == 'frint':
        return x
    return t.mk('frint', (x,), x.sort, op)


@h('floor', 'ceil', 'trunc', 'round', 'floorf', 'ceilf', 'roundf', 'truncf')
def _(ex, st, a, ins, name, al):
    return ret(st, frint(name.rstrip('f') if name not in ('f',) else name, ex.conc(a[0])))


@h('pow', 'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'atan2', 'erf', 'fmod', 'cbrt', 'tan', 'expf', 'powf', 'logf', 'exp2')
def _(ex, st, a, ins, name, al):
    xs = [ex.conc(x) for x in a]
    if name == 'pow' and xs[1].op == 'const' and t._fl(xs[1]) == 2.0:
        return ret(st, t.fop('fmul', (xs[0], xs[0])))
    ex.uf_used.add(name)
    return ret(st, t.uf('libm_' + name, xs, xs[0].sort))


@h('hypot', 'hypotf')
def _(ex, st, a, ins, name, al):
    # depends on the magnitudes only and is symmetric (C11, F.10.4.3)
    xs = sorted((t.fop('fabs', (ex.conc(x),)) for x in a[:2]), key=lambda x: x.id)
    ex.uf_used.add('hypot')
    return ret(st, t.uf('libm_' + name, xs, xs[0].sort))


@pre('llvm.pow.', 'llvm.exp.', 'llvm.log.', 'llvm.powi.', 'llvm.log2.', 'llvm.sin.', 'llvm.cos.')
def _(ex, st, a, ins, name, al):
    nm = name.split('.')[1]
    return H[nm](ex, st, a, ins, nm, al) if nm in H else ret(st, t.uf('libm_' + nm, [ex.conc(x) for x in a], a[0].sort))


@pre('llvm.minnum.', 'llvm.maxnum.')
def _(ex, st, a, ins, name, al):
    x, y = ex.conc(a[0]), ex.conc(a[1])
    c = t.fcmp('olt', x, y) if 'min' in name else t.fcmp('ogt', x, y)
    return ret(st, ite(t.fisnan(x), y, ite(t.fisnan(y), x, ite(c, x, y))))


@h('fmin', 'fmax')
def _(ex, st, a, ins, name, al):
    x, y = ex.conc(a[0]), ex.conc(a[1])
    c = t.fcmp('olt', x, y) if 'min' in name else t.fcmp('ogt', x, y)
    return ret(st, ite(t.fisnan(x), y, ite(t.fisnan(y), x, ite(c, x, y))))


@pre('llvm.copysign.')
def _(ex, st, a, ins, name, al):
    x, y = ex.conc(a[0]), ex.conc(a[1])
    return ret(st, t.uf('copysign', [x, y], x.sort))


@pre('llvm.is.fpclass.')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    m = a[1].val
    return ret(st, t.fclass(x, m))


# ---------------------------------------------------------------- C strings
def _bytes(ex, st, p, n):
    p = ex.as_ptr(p)
    return [ex.load(st, ex.padd(p, k), ('i', 8)) for k in range(n)]


@h('memcmp', 'bcmp', 'strncmp')
def _(ex, st, a, ins, name, al):
    n = ex.conc(a[2])
    if n.op == 'ite':
        s1, s2 = st.fork(), st.fork()
        c = n.args[0]
        r1 = s1.assume(c)
        r2 = s2.assume(not_(c))
        o1 = H[name](ex, s1, [a[0], a[1], n.args[1]], ins, name, al) if r1 else DEAD
        o2 = H[name](ex, s2, [a[0], a[1], n.args[2]], ins, name, al) if r2 else DEAD
        if o1[0] is None:
            return o2
        if o2[0] is None:
            return o1
        m, sel = ex.merge(o1[0], o2[0])
        return ret(m, ite(sel, o1[1], o2[1]))
    if n.op != 'const':
        c = t.itecond(n)
        if c is None and n.op == 'zext' and n.args[0].sort == 1:
            c = eq(n.args[0], bv(1, 1))
        if c is None or t.leaves(n) is None:
            raise Unsupported('memcmp symbolic length')
        return H[name](ex, st, [a[0], a[1], ite(c, t.under(n, c, True), t.under(n, c, False))], ins, name, al)
    if name == 'strncmp':
        raise Unsupported('strncmp')
    xs, ys = _bytes(ex, st, a[0], n.val), _bytes(ex, st, a[1], n.val)
    r = bv(0, 32)
    for x, y in reversed(list(zip(xs, ys))):
        r = ite(eq(x, y), r, t.sub(t.zext(x, 32), t.zext(y, 32)))
    return ret(st, r)


@h('strlen')
def _(ex, st, a, ins, name, al):
    return ret(st, bv(len(cstr(ex, st, a[0])), 64))


@h('strcmp')
def _(ex, st, a, ins, name, al):
    x, y = cstr(ex, st, a[0]), cstr(ex, st, a[1])
    return ret(st, bv((x > y) - (x < y), 32))


@h('memchr')
def _(ex, st, a, ins, name, al):
    n = ex.conc(a[2])
    if n.op != 'const':
        raise Unsupported('memchr symbolic length')
    p = ex.as_ptr(a[0])
    c = t.extract(ex.conc(a[1]), 7, 0)
    r = NULLP
    for k in reversed(range(n.val)):
        b = ex.load(st, ex.padd(p, k), ('i', 8))
        r = X.merge_val(eq(b, c), ex.padd(p, k), r)
    return ret(st, r)


@h('tolower', 'toupper')
def _(ex, st, a, ins, name, al):
    x = ex.conc(a[0])
    lo, hi, d = (65, 90, 32) if name == 'tolower' else (97, 122, -32)
    c = and_(t.cmp('sge', x, bv(lo, 32)), t.cmp('sle', x, bv(hi, 32)))
    return ret(st, ite(c, t.add(x, bv(d, 32)), x))


# hashing of bytes: an uninterpreted deterministic function of content is all the properties need
@h('_ZSt11_Hash_bytesPKvmm')
def _(ex, st, a, ins, name, al):
    n = ex.conc(a[1])
    if n.op != 'const':
        raise Unsupported('hash_bytes symbolic length')
    xs = _bytes(ex, st, a[0], n.val)
    return ret(st, t.uf(f'hash_bytes{n.val}', xs + [ex.conc(a[2])], 64))


@h('__cxa_thread_atexit', '__cxa_thread_atexit_impl')
def _(ex, st, a, ins, name, al):
    return ret(st, bv(0, 32))
