"""Hash-consed term DAG with light simplification.

Sorts: 0 = Bool, n>0 = bit-vector of width n, 'f64'/'f32' = IEEE floats, ('arr', n) = array from BV64 to sort n.
Integers are machine integers (bit-vectors); nothing here treats them as mathematical integers.
"""
import struct

_table = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_vars')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        t.id = _next[0]
        t._vars = None
        _next[0] += 1
        _table[key] = t
    return t


def show(t, depth=6):
    if t.op == 'const':
        return str(t.val)
    if t.op == 'var':
        return t.val
    if depth == 0:
        return '...'
    if t.op == 'lin':
        c, cs = t.val
        return '(' + ' + '.join([f'{k}*{show(a, depth-1)}' for k, a in zip(cs, t.args)] + ([str(c)] if c else [])) + ')'
    return f"({t.op}{'' if t.val is None else ':'+str(t.val)} " + ' '.join(show(a, depth - 1) for a in t.args) + ')'


TRUE = mk('const', (), 0, True)
FALSE = mk('const', (), 0, False)


def boolc(b):
    return TRUE if b else FALSE


def bv(v, w):
    return mk('const', (), w, v & ((1 << w) - 1))


def fconst(bits, sort):
    """float constants are identified by their bit pattern"""
    return mk('const', (), sort, bits)


def f64(x):
    return fconst(struct.unpack('<Q', struct.pack('<d', x))[0], 'f64')


def var(name, sort):
    return mk('var', (), sort, name)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var(f'{prefix}!{_fresh[0]}', sort)


def is_const(t):
    return t.op == 'const'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 0)


def and_(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        if not_(x).id in seen:
            return FALSE
        seen.add(x.id)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 0)


def or_(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        if not_(x).id in seen:
            return TRUE
        seen.add(x.id)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        a, b = out
        # (p & c) | (p & !c)  ->  p
        sa = set(a.args) if a.op == 'and' else {a}
        sb = set(b.args) if b.op == 'and' else {b}
        com = sa & sb
        if com:
            ra = and_(*(sa - com))
            rb = and_(*(sb - com))
            if ra is TRUE or rb is TRUE:
                return and_(*com)
            if ra is not_(rb):
                return and_(*com)
        else:
            # a | (!a & b) -> a | b
            if not_(a) in sb:
                return or_(a, and_(*(sb - {not_(a)})))
            if not_(b) in sa:
                return or_(b, and_(*(sa - {not_(b)})))
    out.sort(key=lambda t: t.id)
    return mk('or', tuple(out), 0)


def implies(a, b):
    return or_(not_(a), b)


def xor_(a, b):
    if a is TRUE:
        return not_(b)
    if b is TRUE:
        return not_(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return FALSE
    if a is not_(b):
        return TRUE
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    assert a.sort == b.sort, (a.sort, b.sort, a, b)
    if a.sort == 0:
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    return mk('ite', (c, a, b), a.sort)


def _prune(x, c, v):
    """x under assumption c == v (top level only)"""
    if x.op == 'ite' and x.args[0] is c:
        return x.args[1] if v else x.args[2]
    return x


_leafs = {}


def leafset(x):
    """all values a term can take when it is built from constants by ite and a few injective operators, else None"""
    if x.op == 'const':
        return (x.val,)
    if x.op not in ('ite', 'lin', 'zext', 'sext', 'extract') or not isinstance(x.sort, int) or x.sort <= 0:
        return None
    r = _leafs.get(x.id, 0)
    if r != 0:
        return r
    r = None
    w = x.sort
    if x.op == 'ite':
        p = leafset(x.args[1])
        q = leafset(x.args[2]) if p is not None else None
        if q is not None:
            r = tuple(sorted(set(p) | set(q)))
    elif x.op == 'lin':
        c, d = _lin_parts(x)
        r = (c % (1 << w),)
        for a, k in d.items():
            l = leafset(a)
            if l is None or len(l) * len(r) > 256:
                r = None
                break
            r = tuple(sorted({(u + k * v) % (1 << w) for u in r for v in l}))
    else:
        l = leafset(x.args[0])
        if l is not None:
            if x.op == 'zext':
                r = l
            elif x.op == 'sext':
                r = tuple(sorted({sgn(v, x.args[0].sort) % (1 << w) for v in l}))
            else:
                hi, lo = x.val
                r = tuple(sorted({(v >> lo) & ((1 << (hi - lo + 1)) - 1) for v in l}))
    if r is not None and len(r) > 64:
        r = None
    _leafs[x.id] = r
    return r


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a is not_(b):
            return FALSE
    assert a.sort == b.sort, (a.sort, b.sort, a, b)
    if a.op == 'const' and b.op == 'const':
        return boolc(a.val == b.val)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const' and isinstance(a.sort, int) and a.sort > 0:
        if b.op == 'ite':
            x, y = b.args[1], b.args[2]
            if x.op == 'const' or y.op == 'const':
                if x.op == 'const' and y.op == 'const':
                    return ite(b.args[0], boolc(x.val == a.val), boolc(y.val == a.val))
                if x.op == 'const' and x.val != a.val:
                    return and_(not_(b.args[0]), eq(a, y))
                if y.op == 'const' and y.val != a.val:
                    return and_(b.args[0], eq(a, x))
                if _itedepth(b) <= 12:
                    return ite(b.args[0], eq(a, x), eq(a, y))
        if b.op == 'zext':
            x = b.args[0]
            if a.val >> x.sort:
                return FALSE
            return eq(bv(a.val, x.sort), x)
        if b.op == 'concat':
            hi, lo = b.args
            return and_(eq(bv(a.val >> lo.sort, hi.sort), hi), eq(bv(a.val, lo.sort), lo))
    if isinstance(a.sort, int) and a.sort > 0:
        la = leafset(a)
        lb = leafset(b) if la is not None else None
        if lb is not None:
            if not set(la) & set(lb):
                return FALSE
            if len(la) == 1 and len(lb) == 1:
                return TRUE
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            if d.op == 'const':
                return boolc(d.val == 0)
            if d.op == 'lin' and len(d.args) == 1 and d.val[1][0] in (1, (1 << a.sort) - 1):
                k = d.val[0] if d.val[1][0] != 1 else -d.val[0]
                x = d.args[0]
                y = bv(k, a.sort)
                if not (a.op == 'const' or b.op == 'const') or (x is not a and x is not b):
                    return eq(y, x)
    if a.id > b.id and a.op != 'const':
        a, b = b, a
    return mk('=', (a, b), 0)


def _itedepth(t):
    n = 0
    while t.op == 'ite' and n <= 12:
        n += 1
        t = t.args[2] if t.args[2].op == 'ite' else t.args[1]
    return n


def ne(a, b):
    return not_(eq(a, b))


# ---------------------------------------------------------------- linear bit-vector sums
def _lin_parts(t):
    if t.op == 'const':
        return t.val, {}
    if t.op == 'lin':
        c, cs = t.val
        return c, dict(zip(t.args, cs))
    return 0, {t: 1}


def _mklin(c, d, w):
    m = (1 << w) - 1
    items = [(a, k & m) for a, k in d.items() if k & m]
    c &= m
    if not items:
        return bv(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('lin', tuple(a for a, _ in items), w, (c, tuple(k for _, k in items)))


def add(a, b):
    assert a.sort == b.sort
    if a.op == 'const' and a.val == 0:
        return b
    if b.op == 'const' and b.val == 0:
        return a
    c1, d1 = _lin_parts(a)
    c2, d2 = _lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    if a.op == 'ite' and b.op == 'const' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == 'ite' and a.op == 'const' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], add(b.args[1], a), add(b.args[2], a))
    return _mklin(c1 + c2, d, a.sort)


def scale(a, k):
    w = a.sort
    k &= (1 << w) - 1
    if k == 1:
        return a
    c, d = _lin_parts(a)
    return _mklin(c * k, {t: v * k for t, v in d.items()}, w)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'const':
        return scale(b, a.val)
    if b.op == 'const':
        return scale(a, b.val)
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], mul(b.args[1], a), mul(b.args[2], a))
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), a.sort)


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def binop(op, a, b):
    w = a.sort
    if op == 'add':
        return add(a, b)
    if op == 'sub':
        return sub(a, b)
    if op == 'mul':
        return mul(a, b)
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        if op == 'udiv':
            return bv(x // y if y else -1, w)
        if op == 'urem':
            return bv(x % y if y else x, w)
        if op == 'sdiv':
            sx, sy = sgn(x, w), sgn(y, w)
            return bv(_tdiv(sx, sy) if sy else (1 if sx < 0 else -1), w)
        if op == 'srem':
            sx, sy = sgn(x, w), sgn(y, w)
            return bv(sx - sy * _tdiv(sx, sy) if sy else sx, w)
        if op == 'and':
            return bv(x & y, w)
        if op == 'or':
            return bv(x | y, w)
        if op == 'xor':
            return bv(x ^ y, w)
        if op == 'shl':
            return bv(x << y if y < w else 0, w)
        if op == 'lshr':
            return bv(x >> y if y < w else 0, w)
        if op == 'ashr':
            return bv(sgn(x, w) >> min(y, w - 1), w)
    for (p, q) in ((a, b), (b, a)):
        if q.op == 'const' and p.op == 'ite' and p.args[1].op == 'const' and p.args[2].op == 'const':
            if p is a:
                return ite(p.args[0], binop(op, p.args[1], q), binop(op, p.args[2], q))
            return ite(p.args[0], binop(op, q, p.args[1]), binop(op, q, p.args[2]))
    m = (1 << w) - 1
    if op == 'and':
        if a is b:
            return a
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            if b.val == 0:
                return b
            if b.val == m:
                return a
            # low mask of k bits
            v = b.val
            if v & (v + 1) == 0:
                k = v.bit_length()
                return zext(extract(a, k - 1, 0), w)
            # contiguous field at the top
            inv = m ^ v
            if inv & (inv + 1) == 0:
                k = inv.bit_length()
                return concat(extract(a, w - 1, k), bv(0, k))
            # contiguous field in the middle
            lo = (v & -v).bit_length() - 1
            vv = v >> lo
            if vv & (vv + 1) == 0:
                k = vv.bit_length()
                return zext(concat(extract(a, lo + k - 1, lo), bv(0, lo)), w)
            # hole (clear a field): field from lo..hi of inv
            lo = (inv & -inv).bit_length() - 1
            iv = inv >> lo
            if iv & (iv + 1) == 0:
                k = iv.bit_length()
                return concat(extract(a, w - 1, lo + k), concat(bv(0, k), extract(a, lo - 1, 0)))
        if a.id > b.id:
            a, b = b, a
        return mk('bvand', (a, b), w)
    if op == 'or':
        if a is b:
            return a
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            if b.val == 0:
                return a
            if b.val == m:
                return b
        r = _or_pieces(a, b)
        if r is not None:
            return r
        if a.id > b.id:
            a, b = b, a
        return mk('bvor', (a, b), w)
    if op == 'xor':
        if a is b:
            return bv(0, w)
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            if b.val == 0:
                return a
            if b.val == m:
                return sub(bv(-1, w), a)
        # exclusive-or chains: operands sorted, equal ones cancel
        ops, c, st = {}, 0, [a, b]
        while st:
            x = st.pop()
            if x.op == 'bvxor' and len(ops) < 40:
                st.extend(x.args)
            elif x.op == 'const':
                c ^= x.val
            elif x in ops:
                del ops[x]
            else:
                ops[x] = 1
        xs = sorted(ops, key=lambda x: x.id)
        if not xs:
            return bv(c, w)
        r = xs[0]
        for x in xs[1:]:
            r = mk('bvxor', (r, x), w)
        if c:
            r = sub(bv(-1, w), r) if c == m else mk('bvxor', (r, bv(c, w)), w)
        return r
    if op in ('shl', 'lshr', 'ashr'):
        if b.op == 'const':
            k = b.val
            if k == 0:
                return a
            if op == 'shl':
                if k >= w:
                    return bv(0, w)
                if a.op in ('zext', 'concat', 'extract'):
                    return concat(extract(a, w - 1 - k, 0), bv(0, k))
                return scale(a, 1 << k)
            if op == 'lshr':
                if k >= w:
                    return bv(0, w)
                return zext(extract(a, w - 1, k), w)
            k = min(k, w - 1)
            return sext(extract(a, w - 1, k), w)
        if a.op == 'const' and a.val == 0:
            return a
        return mk('bv' + op, (a, b), w)
    if op == 'udiv':
        if b.op == 'const' and b.val == 1:
            return a
        if b.op == 'const' and b.val and b.val & (b.val - 1) == 0:
            return binop('lshr', a, bv(b.val.bit_length() - 1, w))
        return mk('bvudiv', (a, b), w)
    if op == 'urem':
        if b.op == 'const' and b.val and b.val & (b.val - 1) == 0:
            return binop('and', a, bv(b.val - 1, w))
        return mk('bvurem', (a, b), w)
    if op == 'sdiv':
        if b.op == 'const' and b.val == 1:
            return a
        return mk('bvsdiv', (a, b), w)
    if op == 'srem':
        return mk('bvsrem', (a, b), w)
    raise NotImplementedError(op)


def _pieces(t):
    """list of (width, term) low to high; zero pieces are consts"""
    if t.op == 'concat':
        return _pieces(t.args[1]) + _pieces(t.args[0])
    if t.op == 'zext':
        return _pieces(t.args[0]) + [bv(0, t.sort - t.args[0].sort)]
    return [t]


def _or_pieces(a, b):
    pa, pb = _pieces(a), _pieces(b)
    if len(pa) == 1 and len(pb) == 1:
        return None
    # cut at all boundaries
    out = []
    ia = ib = 0
    pa, pb = list(pa), list(pb)
    while ia < len(pa):
        x, y = pa[ia], pb[ib]
        k = min(x.sort, y.sort)
        xl = extract(x, k - 1, 0) if x.sort > k else x
        yl = extract(y, k - 1, 0) if y.sort > k else y
        if xl.op == 'const' and xl.val == 0:
            out.append(yl)
        elif yl.op == 'const' and yl.val == 0:
            out.append(xl)
        else:
            return None
        if x.sort > k:
            pa[ia] = extract(x, x.sort - 1, k)
        else:
            ia += 1
        if y.sort > k:
            pb[ib] = extract(y, y.sort - 1, k)
        else:
            ib += 1
    r = out[0]
    for p in out[1:]:
        r = concat(p, r)
    return r


def zext(a, w):
    if a.sort == w:
        return a
    assert a.sort < w
    if a.op == 'const':
        return bv(a.val, w)
    if a.op == 'zext':
        return mk('zext', (a.args[0],), w)
    if a.op == 'bvxor':
        return binop('xor', zext(a.args[0], w), zext(a.args[1], w))
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], bv(a.args[1].val, w), bv(a.args[2].val, w))
    return mk('zext', (a,), w)


def sext(a, w):
    if a.sort == w:
        return a
    if a.op == 'const':
        return bv(sgn(a.val, a.sort), w)
    if a.op == 'zext':
        return mk('zext', (a.args[0],), w)
    if a.op == 'sext':
        return mk('sext', (a.args[0],), w)
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.sort:
        return a
    if a.op == 'const':
        return bv(a.val >> lo, w)
    if a.op == 'extract':
        o = a.val[1]
        return extract(a.args[0], hi + o, lo + o)
    if a.op == 'zext':
        x = a.args[0]
        if hi < x.sort:
            return extract(x, hi, lo)
        if lo >= x.sort:
            return bv(0, w)
        return zext(extract(x, x.sort - 1, lo), w)
    if a.op == 'sext':
        x = a.args[0]
        if hi < x.sort:
            return extract(x, hi, lo)
        if lo < x.sort:
            return sext(extract(x, x.sort - 1, lo), w)
    if a.op == 'concat':
        h, l = a.args
        if hi < l.sort:
            return extract(l, hi, lo)
        if lo >= l.sort:
            return extract(h, hi - l.sort, lo - l.sort)
        return concat(extract(h, hi - l.sort, 0), extract(l, l.sort - 1, lo))
    if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op == 'lin' and lo == 0:
        c, cs = a.val
        r = bv(c, w)
        for k, t in zip(cs, a.args):
            r = add(r, scale(extract(t, hi, 0), k))
        return r
    if a.op == 'lin' and lo and not any(k % (1 << lo) for k in a.val[1]) and a.val[0] % (1 << lo) == 0:
        # the low bits of every summand are zero
        c, cs = a.val
        r = bv(c >> lo, w)
        for k, t in zip(cs, a.args):
            r = add(r, scale(extract(t, w - 1, 0), k >> lo))
        return r
    if a.op in ('bvand', 'bvor', 'bvxor'):
        return binop(a.op[2:], extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op == 'mul' and lo == 0:
        return mul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    return mk('extract', (a,), w, (hi, lo))


def concat(h, l):
    if h.op == 'const' and l.op == 'const':
        return bv((h.val << l.sort) | l.val, h.sort + l.sort)
    if h.op == 'const' and h.val == 0:
        return zext(l, h.sort + l.sort)
    if h.op == 'zext':
        return zext(concat(h.args[0], l), h.sort + l.sort)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.val[1] == l.val[0] + 1:
        return extract(h.args[0], h.val[0], l.val[1])
    if h.op == 'concat':
        # right associate
        return concat(h.args[0], concat(h.args[1], l))
    if l.op == 'concat' and h.op == 'extract' and l.args[0].op == 'extract':
        x = l.args[0]
        if x.args[0] is h.args[0] and h.val[1] == x.val[0] + 1:
            return concat(extract(h.args[0], h.val[0], x.val[1]), l.args[1])
    if h.op == 'ite' and l.op == 'ite' and h.args[0] is l.args[0]:
        return ite(h.args[0], concat(h.args[1], l.args[1]), concat(h.args[2], l.args[2]))
    return mk('concat', (h, l), h.sort + l.sort)


def cmp(op, a, b):
    """op in eq ne ult ule ugt uge slt sle sgt sge"""
    if op == 'eq':
        return eq(a, b)
    if op == 'ne':
        return ne(a, b)
    if op in ('ugt', 'uge', 'sgt', 'sge'):
        a, b = b, a
        op = op[0] + 'l' + op[2]
    if a is b:
        return boolc(op[2] == 'e')
    w = a.sort
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        if op[0] == 's':
            x, y = sgn(x, w), sgn(y, w)
        return boolc(x <= y if op[2] == 'e' else x < y)
    m = (1 << w) - 1
    if op[0] == 'u':
        if op == 'ult':
            if b.op == 'const' and b.val == 0:
                return FALSE
            if a.op == 'const' and a.val == m:
                return FALSE
            if b.op == 'const' and b.val == 1:
                return eq(a, bv(0, w))
            if a.op == 'const' and a.val == 0:
                return ne(a, b)
        else:
            if a.op == 'const' and a.val == 0:
                return TRUE
            if b.op == 'const' and b.val == m:
                return TRUE
            if b.op == 'const' and b.val == 0:
                return eq(a, b)
        if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
            return cmp(op, a.args[0], b.args[0])
        if a.op == 'zext' and b.op == 'const':
            s = a.args[0].sort
            if b.val >> s:
                return TRUE
            return cmp(op, a.args[0], bv(b.val, s))
        if b.op == 'zext' and a.op == 'const':
            s = b.args[0].sort
            if a.val >> s:
                return FALSE
            return cmp(op, bv(a.val, s), b.args[0])
    la = leafset(a)
    lb = leafset(b) if la is not None else None
    if lb is not None:
        if op[0] == 's':
            la = [sgn(v, w) for v in la]
            lb = [sgn(v, w) for v in lb]
        if max(la) < min(lb) or (op[2] == 'e' and max(la) <= min(lb)):
            return TRUE
        if min(la) > max(lb) or (op[2] == 't' and min(la) >= max(lb)):
            return FALSE
    for p in (a, b):
        if p.op == 'ite' and p.args[1].op == 'const' and p.args[2].op == 'const':
            q = b if p is a else a
            if q.op == 'const':
                if p is a:
                    return ite(p.args[0], cmp(op, p.args[1], q), cmp(op, p.args[2], q))
                return ite(p.args[0], cmp(op, q, p.args[1]), cmp(op, q, p.args[2]))
    return mk('bv' + op, (a, b), 0)


def bool2bv(c, w):
    return ite(c, bv(1, w), bv(0, w))


def bv2bool(a):
    """lowest bit"""
    if a.sort == 0:
        return a
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], boolc(a.args[1].val & 1), boolc(a.args[2].val & 1))
    return eq(bv(1, 1), extract(a, 0, 0))


# ---------------------------------------------------------------- arrays / uf / floats
def select(arr, i):
    while arr.op == 'store':
        e = eq(arr.args[1], i)
        if e is TRUE:
            return arr.args[2]
        if e is FALSE:
            arr = arr.args[0]
            continue
        break
    if arr.op == 'ite':
        a = select(arr.args[1], i)
        b = select(arr.args[2], i)
        return ite(arr.args[0], a, b)
    if arr.op == 'constarr':
        return arr.args[0]
    return mk('select', (arr, i), arr.sort[1])


def store(arr, i, v):
    if arr.op == 'store' and arr.args[1] is i:
        arr = arr.args[0]
    return mk('store', (arr, i, v), arr.sort)


def constarr(v):
    return mk('constarr', (v,), ('arr', v.sort))


def uf(name, args, sort):
    return mk('uf', tuple(args), sort, name)


def _fl(t):
    if t.sort == 'f64':
        return struct.unpack('<d', struct.pack('<Q', t.val))[0]
    return struct.unpack('<f', struct.pack('<I', t.val))[0]


def _fmk(x, sort):
    if sort == 'f64':
        return f64(x)
    try:
        return fconst(struct.unpack('<I', struct.pack('<f', x))[0], 'f32')
    except OverflowError:
        return None


def fop(op, args):
    """fadd fsub fmul fdiv fneg fabs fsqrt frem; IEEE round-to-nearest-even"""
    s = args[0].sort
    if all(a.op == 'const' for a in args):
        xs = [_fl(a) for a in args]
        import math
        try:
            r = None
            if s == 'f64' and all(math.isfinite(x) for x in xs):
                if op == 'fadd':
                    r = xs[0] + xs[1]
                elif op == 'fsub':
                    r = xs[0] - xs[1]
                elif op == 'fmul':
                    r = xs[0] * xs[1]
                elif op == 'fdiv' and xs[1] != 0:
                    r = xs[0] / xs[1]
                elif op == 'fsqrt' and xs[0] >= 0:
                    r = math.sqrt(xs[0])
            if op == 'fneg':
                return fconst(args[0].val ^ (1 << (63 if s == 'f64' else 31)), s)
            if op == 'fabs':
                return fconst(args[0].val & ~(1 << (63 if s == 'f64' else 31)), s)
            if r is not None:
                f = _fmk(r, s)
                if f is not None:
                    return f
        except (OverflowError, ValueError):
            pass
    if op in ('fmul', 'fdiv') and (args[0].op == 'fneg' or args[1].op == 'fneg'):
        # the sign of a product or quotient is exact
        a, b = args
        na, nb = a.op == 'fneg', b.op == 'fneg'
        r = fop(op, (a.args[0] if na else a, b.args[0] if nb else b))
        return fop('fneg', (r,)) if na != nb else r
    if op == 'fneg' and args[0].op == 'fneg':
        return args[0].args[0]
    if op in ('fadd', 'fmul'):
        a, b = args
        # commutative (up to NaN payload)
        if op == 'fmul' and a is b and a.op == 'fsub' and a.args[0].id > a.args[1].id:
            # (x-y)*(x-y) == (y-x)*(y-x) in IEEE round-to-nearest
            a = b = fop('fsub', (a.args[1], a.args[0]))
        if a.id > b.id:
            a, b = b, a
        args = (a, b)
    if op == 'fabs' and args[0].op == 'fsub' and args[0].args[0].id > args[0].args[1].id:
        args = (fop('fsub', (args[0].args[1], args[0].args[0])),)
    if op == 'fabs' and args[0].op in ('fabs',):
        return args[0]
    return mk(op, tuple(args), s)


def fcmp(pred, a, b):
    """pred: oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une"""
    if a.op == 'const' and b.op == 'const':
        import math
        x, y = _fl(a), _fl(b)
        un = math.isnan(x) or math.isnan(y)
        base = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
        if pred == 'ord':
            return boolc(not un)
        if pred == 'uno':
            return boolc(un)
        if pred[0] == 'o':
            return boolc((not un) and base[pred[1:]])
        return boolc(un or base[pred[1:]])
    if pred == 'ord':
        return and_(not_(fisnan(a)), not_(fisnan(b)))
    if pred == 'uno':
        return or_(fisnan(a), fisnan(b))
    if pred == 'ogt':
        return fcmp('olt', b, a)
    if pred == 'oge':
        return fcmp('ole', b, a)
    if pred == 'oeq':
        if a is b:
            return not_(fisnan(a))
        if a.id > b.id:
            a, b = b, a
        return mk('feq', (a, b), 0)
    if pred == 'olt':
        return FALSE if a is b else mk('flt', (a, b), 0)
    if pred == 'ole':
        if a is b:
            return not_(fisnan(a))
        return mk('fle', (a, b), 0)
    if pred == 'one':
        return and_(not_(fisnan(a)), not_(fisnan(b)), not_(fcmp('oeq', a, b)))
    inv = {'ueq': 'one', 'ugt': 'ole', 'uge': 'olt', 'ult': 'oge', 'ule': 'ogt', 'une': 'oeq'}
    return not_(fcmp(inv[pred], a, b))


def fisnan(a):
    if a.op == 'const':
        import math
        return boolc(math.isnan(_fl(a)))
    if a.op in ('fabs', 'fneg'):
        return fisnan(a.args[0])
    if a.op in ('sitofp', 'uitofp'):
        return FALSE
    return mk('fisnan', (a,), 0)


def fclass(x, m):
    """llvm.is.fpclass: bit 0 sNaN, 1 qNaN, 2 -inf, 3 -normal, 4 -subnormal, 5 -0, 6 +0, 7 +subnormal, 8 +normal, 9 +inf"""
    if (m & 3) not in (0, 3):
        return uf(f'fpclass{m}', [x], 0)
    w = x.sort == 'f64'
    zero, inf, minn = (fconst(b, x.sort) for b in ((0, 0x7ff << 52, 1 << 52) if w else (0, 0xff << 23, 1 << 23)))
    nz = fconst(1 << (63 if w else 31), x.sort)
    nan = fisnan(x)
    ab = fop('fabs', (x,))
    neg = fcmp('olt', x, zero)
    pos = fcmp('olt', zero, x)
    mag = {'inf': fcmp('oeq', ab, inf), 'normal': and_(fcmp('ole', minn, ab), fcmp('olt', ab, inf)), 'sub': and_(fcmp('olt', zero, ab), fcmp('olt', ab, minn))}
    fin = not_(or_(nan, mag['inf']))
    if m == 0b0111111000:
        return fin
    if m == 0b1000000100:
        return mag['inf']
    if m == 0b0111100000:   # finite and >= 0 (or -0)
        return and_(fin, fcmp('ole', zero, x))
    if m == 0b1111100000:
        return fcmp('ole', zero, x)
    parts = []
    if m & 3:
        parts.append(nan)
    for bit, s, k in ((2, neg, 'inf'), (3, neg, 'normal'), (4, neg, 'sub'), (7, pos, 'sub'), (8, pos, 'normal'), (9, pos, 'inf')):
        if m >> bit & 1:
            parts.append(and_(s, mag[k]))
    if (m >> 5 & 3) == 3:
        parts.append(fcmp('oeq', x, zero))
    elif m >> 5 & 1:
        parts.append(eq(x, nz))
    elif m >> 6 & 1:
        parts.append(eq(x, zero))
    return or_(*parts) if parts else FALSE


def fconv(op, a, sort):
    """sitofp uitofp fptosi fptoui fpext fptrunc bitcast(bv->f / f->bv)"""
    if op in ('sitofp', 'uitofp') and a.op == 'const':
        v = sgn(a.val, a.sort) if op == 'sitofp' else a.val
        if sort == 'f64':
            return f64(float(v))
    if op == 'fptosi' and a.op == 'const' or op == 'fptoui' and a.op == 'const':
        import math
        x = _fl(a)
        if math.isfinite(x):
            return bv(int(x), sort)
    if op == 'bitcast':
        if a.op == 'const':
            if isinstance(sort, int):
                return bv(a.val, sort)
            return fconst(a.val, sort)
        if a.op == 'bitcast':
            return a.args[0]
    if op == 'fpext' and a.op == 'const':
        return f64(_fl(a))
    return mk(op, (a,), sort)


def free_vars(roots):
    seen = set()
    out = []
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out.append(t)
        st.extend(t.args)
    return out


# ---------------------------------------------------------------- case splits
_CMPS = {'bvult', 'bvule', 'bvugt', 'bvuge', 'bvslt', 'bvsle', 'bvsgt', 'bvsge'}
_BIN = {'bvand': 'and', 'bvor': 'or', 'bvxor': 'xor', 'bvshl': 'shl', 'bvlshr': 'lshr', 'bvashr': 'ashr', 'bvudiv': 'udiv', 'bvurem': 'urem', 'bvsdiv': 'sdiv', 'bvsrem': 'srem'}


def rebuild(x, args):
    """x with other arguments, re-simplified"""
    if all(a is b for a, b in zip(args, x.args)):
        return x
    op = x.op
    if op == 'ite':
        return ite(*args)
    if op == 'lin':
        c, ks = x.val
        r = bv(c, x.sort)
        for a, k in zip(args, ks):
            r = add(r, scale(a, k))
        return r
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == '=':
        return eq(*args)
    if op == 'mul':
        return mul(*args)
    if op in _BIN:
        return binop(_BIN[op], *args)
    if op in _CMPS:
        return cmp(op[2:], *args)
    if op == 'zext':
        return zext(args[0], x.sort)
    if op == 'sext':
        return sext(args[0], x.sort)
    if op == 'extract':
        return extract(args[0], *x.val)
    if op == 'concat':
        return concat(*args)
    if op == 'select':
        return select(*args)
    return mk(op, tuple(args), x.sort, x.val)


def under(x, c, v, memo=None):
    """x with the boolean term c replaced by v"""
    if memo is None:
        memo = {}
    stack = [x]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        if y is c:
            memo[y.id] = boolc(v)
            stack.pop()
            continue
        todo = [a for a in y.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[y.id] = rebuild(y, [memo[a.id] for a in y.args]) if y.args else y
        stack.pop()
    return memo[x.id]


def itecond(x):
    """condition of some ite inside a bit-vector term, not looking below selects, or None"""
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == 'ite' and y.sort != 0:
            c = y.args[0]
            return c
        if y.sort != 0 and y.op not in ('select', 'uf', 'var', 'const'):
            stack.extend(a for a in y.args if a.sort != 0)
    return None


def leaves(x, limit=64):
    """[(guard, const)] partition of the values of x if ite-splitting makes it constant everywhere, else None"""
    out = []
    work = [(TRUE, x)]
    while work:
        g, y = work.pop()
        if y.op == 'const':
            out.append((g, y))
            continue
        c = itecond(y)
        if c is None or len(out) + len(work) >= limit:
            return None
        for v in (True, False):
            gg = and_(g, c if v else not_(c))
            if gg is not FALSE:
                work.append((gg, under(y, c, v)))
    return out
