"""Loop contracts. A directive `loop = <function regex> ## <k>:<name>` attaches the C++ predicate fvinv_<name> (and, if present, the
measure fvdec_<name>) to the k-th loop of every matching function. The predicate takes the function's arguments followed by loop
variables; which header phi plays which role is found by trying the type-correct assignments (a wrong assignment can only make the
proof fail, never succeed wrongly: entry, preservation and the postcondition are all checked for the assignment that is used).
Memory the loop body changes is havocked (found by a fixpoint over re-executions)."""
import itertools
from . import terms as t
from .terms import T, TRUE, FALSE, bv
from .llvm import Unsupported


class Restart(Exception):
    pass


def headers(fn):
    return sorted(fn.loops, key=lambda h: fn.order[h])


def variants(m, loops, d, proof, limit=48):
    """-> list of {function: {header: (name, [phi registers])}}"""
    per = []
    for fname, specs in loops.items():
        fn = m.fn(fname)
        hs = headers(fn)
        for sp in specs:
            k, name = sp.split(':')
            k = int(k)
            own_only = name.endswith('!')   # the predicate takes loop variables only
            name = name.rstrip('!')
            if k >= len(hs) or 'fvinv_' + name not in m.funcs:
                continue
            h = hs[k]
            inv = m.fn('fvinv_' + name)
            nargs = 0 if own_only else len(fn.params)
            want = [ty for ty in inv.params[nargs:]]
            # candidates: the header's phis first, then those of the enclosing loops and the named locals kept in memory
            own = [(p[0], p[1]) for p in fn.blocks[h].phis]
            outer = [(p[0], p[1]) for g in hs if g != h and h in fn.loops[g] for p in fn.blocks[g].phis] + list(fn.allocas)
            if own_only:
                outer += [(i, ty) for i, ty in enumerate(fn.params)]
            wn = [inv.names.get(nargs + j, '') for j in range(len(want))]
            opts = []

            def score(perm):
                r = 0
                for q, w in zip(perm, wn):
                    n = fn.names.get(q[0], '')
                    r += 3 if n.split('.')[0] == w else 1 if w and w in n else 0
                return -r
            def fits(q, w):
                n = fn.names.get(q[0], '')
                return n and w and (n.split('.')[0] == w or n.rstrip('0123456789') == w.rstrip('0123456789'))
            # a variable of an enclosing scope is a candidate only where its name is the parameter's
            pools = [[q for q in own if q[1] == ty] + [q for q in outer if q[1] == ty and fits(q, w)] for ty, w in zip(want, wn)]
            perms = []
            for perm in itertools.product(*pools):
                if len(set(q[0] for q in perm)) == len(perm):
                    perms.append(perm)
                    if len(perms) > 50000:
                        break
            for perm in sorted(perms, key=score):
                opts.append((fname, h, name + ('!' if own_only else ''), [p[0] for p in perm]))
            if opts:
                per.append(opts)
    out = []
    for combo in itertools.islice(itertools.product(*per), limit):
        v = {}
        for fname, h, name, ph in combo:
            v.setdefault(fname, {})[h] = (name, ph)
        out.append(v)
    return out or [None]


def install(m, loops, variant):
    return variant or {}


class Frame:
    pass


def havoc_val(ex, st, v, why):
    from .exec import Ptr, Undef, Agg
    if isinstance(v, Undef):
        return v
    if isinstance(v, T):
        if v.sort == 0:
            return t.fresh('loop', 0)
        return t.fresh('loop', v.sort)
    if isinstance(v, Ptr):
        objs = {o for g, o, f in v.alts}
        if len(objs) != 1:
            raise Unsupported('loop-carried pointer into several objects: ' + why)
        o = v.alts[0][1]
        if o is None and v.alts[0][2].op == 'const' and len(v.alts) == 1:
            return v    # null stays null (ptr_ok checks that)
        if not isinstance(o, int):
            raise Unsupported('loop-carried null or function pointer: ' + why)
        ob = ex.get_obj(st, o)
        s = ob.stride if ob.cols is not None else ex.opts.get('ptr_stride', 1)
        base = v.alts[0][2]
        i = t.fresh('loopidx', 64)
        if s > 8:
            st.assume(t.cmp('ult', t.add(i, bv(1 << 56, 64)), bv(1 << 57, 64)))    # pointers do not wrap around the address space
        return Ptr(((TRUE, o, t.add(base, t.scale(i, s))),))
    if isinstance(v, Agg):
        return Agg([havoc_val(ex, st, x, why) for x in v.v])
    raise Unsupported('havoc of ' + str(type(v)))


def ptr_ok(ex, st, base, v):
    """v is in the set havoc_val(base) ranges over"""
    from .exec import Ptr
    if not isinstance(base, Ptr):
        return True
    if not isinstance(v, Ptr):
        return False
    o = base.alts[0][1]
    if o is None:
        return base.alts == v.alts
    ob = ex.get_obj(st, o)
    s = ob.stride if ob.cols is not None else 1
    for g, oo, f in v.alts:
        if oo != o:
            return False
        c, d = t._lin_parts(t.sub(f, base.alts[0][2]))
        for k in [c] + list(d.values()):
            if t.sgn(k, 64) % s:
                return False
    return True


def call_inv(ex, name, args, st, what, kind):
    n, v, e = ex.call_fn(name, args, st)
    if e is not None:
        raise Unsupported('exception in ' + name)
    return n, v


def enter(ex, fn, b, specs, s, regs):
    sp = specs.get(b)
    if sp is None:
        return None
    name, order = sp
    B = fn.blocks[b]
    args = [] if name.endswith('!') else ex.argstack[-1]
    name = name.rstrip('!')
    fr = Frame()
    fr.name, fr.order, fr.args = name, order, args
    if any(p not in regs for p in order):
        raise Unsupported('loop contract names a variable that is not available')
    key = (fn.name, b, len(ex.loop_used))
    fr.key = key
    ex.loop_used.append(f'fvinv_{name} on {ex.dem.get(fn.name, fn.name)}')
    # entry
    e = s.fork()
    n, v = call_inv(ex, 'fvinv_' + name, list(args) + [regs[p] for p in order], e, 'entry', 'loop')
    if n is None:
        raise Unsupported('loop invariant never returns')
    ex.check(n, tobool(v), f'loop-invariant-entry:{name}', 'loop')
    s.assume(tobool_copy(ex, n, v))
    # havoc
    fr.base = {}
    own = {d for d, ty, inc in B.phis}
    fr.outer = {p: regs[p] for p in order if p not in own}
    for d, ty, inc in B.phis:
        fr.base[d] = regs[d]
        regs[d] = havoc_val(ex, s, regs[d], fn.name)
    for oid, off in sorted(ex.havocs.get(key, ()), key=str):
        if oid not in s.mem and oid not in ex.gobj:
            continue
        o = ex.own(s, oid)
        if o.cols is not None:
            c = o.cols.get(off)
            if c is not None:
                o.cols[off] = (c[0], t.fresh('looparr', c[1].sort))
        else:
            c = o.cells.get(off)
            if c is not None:
                fr.base[(oid, off)] = c[1]
                o.cells[off] = (c[0], havoc_val(ex, s, c[1], f'cell {oid}+{off}'))
    n, v = call_inv(ex, 'fvinv_' + name, list(args) + [regs[p] for p in order], s, 'assume', 'loop')
    s.pc, s.mem, s.owned = n.pc, n.mem, n.owned
    s.assume(tobool(v))
    fr.vals = [regs[p] for p in order]
    fr.mem = dict(s.mem)
    fr.state = s.fork()
    dn = 'fvdec_' + name
    fr.dec = None
    if ex.m.has_body(dn):
        n, v = call_inv(ex, dn, list(args) + fr.vals, s, 'measure', 'loop')
        s.pc, s.mem, s.owned = n.pc, n.mem, n.owned
        fr.dec = v
    s.owned = set()
    return fr


def tobool(v):
    return v if v.sort == 0 else t.bv2bool(v)


def tobool_copy(ex, n, v):
    return TRUE     # entry knowledge is not needed after the havoc


def back(ex, fn, b, fr, s, nr):
    # memory changed by the body must have been havocked
    new = set()
    have = ex.havocs.get(fr.key, set())
    for oid, o in s.mem.items():
        h = fr.mem.get(oid)
        if h is None and oid in ex.gobj:
            h = ex.gobj[oid]
        if h is None or h is o:
            continue
        if o.cols is not None:
            for k, (sz, a) in o.cols.items():
                c = h.cols.get(k)
                if (c is None or c[1] is not a or c[0] != sz) and (oid, k) not in have:
                    if c is None and o.default == 'sym' and a.op == 'var':
                        continue
                    new.add((oid, k))
        else:
            for k, (sz, v) in o.cells.items():
                c = h.cells.get(k)
                if c is not None and c[0] == sz and (c[1] is v or same(c[1], v)):
                    continue
                if c is None and h.default == 'undef':
                    continue    # undefined before the loop: any value is covered
                if (oid, k) not in have:
                    if c is None or c[0] != sz:
                        raise Unsupported('loop body changes the layout of an object')
                    new.add((oid, k))
                elif not ptr_ok(ex, s, fr.base.get((oid, k)), v):
                    raise Unsupported('loop-carried pointer leaves its object')
            for k in h.cells:
                if k not in o.cells and (oid, k) not in have:
                    raise Unsupported('loop body changes the layout of an object')
    if new:
        ex.havocs.setdefault(fr.key, set()).update(new)
        raise Restart()
    for d in fr.base:
        if isinstance(d, int) and not ptr_ok(ex, s, fr.base[d], nr[d]):
            raise Unsupported('loop-carried pointer leaves its object')
    vals = [fr.outer[p] if p in fr.outer else nr[p] for p in fr.order]
    n, v = call_inv(ex, 'fvinv_' + fr.name, list(fr.args) + vals, s, 'preserved', 'loop')
    if n is None:
        return
    ex.check(n, tobool(v), f'loop-invariant-preserved:{fr.name}', 'loop')
    if fr.dec is not None:
        n2, v2 = call_inv(ex, 'fvdec_' + fr.name, list(fr.args) + vals, n, 'measure', 'loop')
        ex.check(n2, t.cmp('ult', v2, fr.dec), f'loop-measure-decreases:{fr.name}', 'loop')


def same(a, b):
    from .exec import Ptr
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.alts == b.alts
    return False
