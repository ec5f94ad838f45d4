"""Symbolic executor / verification-condition generator over LLVM IR.

One call of `Executor.run(proof)` walks the proof function, entering every callee that has no contract, replacing every
callee that has one, merging states at join points, and collecting obligations (path condition => condition).
"""
import subprocess
import sys
from . import terms as t
from .terms import T, TRUE, FALSE, bv, and_, or_, not_, eq, ite
from .llvm import Unsupported, succs

sys.setrecursionlimit(20000)


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr' + repr(self.alts)


class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


NULLP = Ptr(((TRUE, None, bv(0, 64)),))


def obj_ptr(oid, off=0):
    return Ptr(((TRUE, oid, bv(off, 64)),))


def tysort(ty):
    if ty == 'f64' or ty == 'f32':
        return ty
    if ty[0] == 'i':
        return 0 if ty[1] == 1 else ty[1]
    raise Unsupported(f'sort of {ty}')


def bits_of(v):
    """term of any scalar sort -> bit vector"""
    if v.sort == 'f64':
        return t.fconv('bitcast', v, 64)
    if v.sort == 'f32':
        return t.fconv('bitcast', v, 32)
    if v.sort == 0:
        return t.bool2bv(v, 8)
    return v


def to_sort(b, ty):
    """bit vector of the storage size -> term of type ty"""
    if ty == 'f64' or ty == 'f32':
        return t.fconv('bitcast', b, ty)
    w = ty[1]
    if w == 1:
        return t.bv2bool(b)
    if w < b.sort:
        return t.extract(b, w - 1, 0)
    return b


class Obj:
    __slots__ = ('size', 'cells', 'default', 'stride', 'cols', 'name', 'const', 'alive', 'kind')

    def __init__(self, size, default='undef', name='', kind='heap'):
        self.size = size
        self.cells = {}
        self.default = default
        self.stride = None
        self.cols = None
        self.name = name
        self.const = False
        self.alive = TRUE
        self.kind = kind

    def clone(self):
        o = Obj(self.size, self.default, self.name, self.kind)
        o.cells = dict(self.cells)
        o.stride = self.stride
        o.cols = dict(self.cols) if self.cols is not None else None
        o.const = self.const
        o.alive = self.alive
        return o


class State:
    __slots__ = ('pc', 'mem', 'owned', 'exc', 'caught')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.owned = set()
        self.exc = None
        self.caught = ()

    def fork(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        self.owned = set()
        s.exc = self.exc
        s.caught = self.caught
        return s

    def assume(self, c):
        """False if the path is now syntactically dead"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == 'and':
            for a in c.args:
                if not self.assume(a):
                    return False
            return True
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        self.pc = self.pc + (c,)
        return True


class Obligation:
    __slots__ = ('name', 'kind', 'pc', 'cond', 'fn', 'line', 'nfacts', 'time', 'backend', 'status')

    def __init__(self, name, kind, pc, cond, fn, line):
        self.name = name
        self.kind = kind
        self.pc = pc
        self.cond = cond
        self.fn = fn
        self.line = line


def merge_val(c, a, b):
    """value that is a when c else b"""
    if a is b:
        return a
    if isinstance(a, Undef) and isinstance(b, Undef):
        return a
    if isinstance(a, Undef):
        return merge_val(not_(c), b, a)
    if isinstance(a, T):
        if isinstance(b, T):
            if a.sort != b.sort:
                a2, b2 = bits_of(a), bits_of(b)
                if a2.sort != b2.sort:
                    return Undef(('i', 8))
                return ite(c, a2, b2)
            return ite(c, a, b)
        if isinstance(b, Undef):
            return ite(c, a, t.fresh('undef', a.sort))
        if isinstance(b, Ptr):
            # an integer merged with a pointer (e.g. zero-initialised memory)
            p = int_to_ptr(a)
            return merge_val(c, p, b)
    if isinstance(a, Ptr):
        if isinstance(b, Undef):
            return Ptr(tuple((and_(c, g), o, f) for g, o, f in a.alts))
        if isinstance(b, T):
            return merge_val(c, a, int_to_ptr(b))
        d = {}
        for cond, p in ((c, a), (not_(c), b)):
            for g, o, f in p.alts:
                g = and_(cond, g)
                if g is FALSE:
                    continue
                k = o
                if k in d:
                    g0, f0 = d[k]
                    d[k] = (or_(g0, g), f0 if f0 is f else ite(g, f, f0))
                else:
                    d[k] = (g, f)
        return Ptr(tuple((g, o, f) for o, (g, f) in d.items()))
    if isinstance(a, Agg):
        if isinstance(b, Undef):
            return a
        return Agg([merge_val(c, x, y) for x, y in zip(a.v, b.v)])
    raise Unsupported(f'merge {a} {b}')


ADDR = {}


def addr_of(oid):
    v = t.var(f'addr!{oid}', 64)
    ADDR[v.id] = oid
    return v


def ptr_to_int(p):
    r = None
    for g, o, f in reversed(p.alts):
        x = f if o is None else t.add(addr_of(o), f)
        r = x if r is None else ite(g, x, r)
    if r is None:
        return t.fresh('undefptr', 64)
    PTR_INTS.add(r.id)
    return r


PTR_INTS = set()       # terms that are addresses
PTR_DIFFS = set()      # terms that are differences of two addresses


def all_in(x, s, depth=0):
    """x, or every branch of it, is in s"""
    if x.id in s:
        return True
    return x.op == 'ite' and depth < 12 and all_in(x.args[1], s, depth + 1) and all_in(x.args[2], s, depth + 1)


def int_to_ptr(x):
    if x.op == 'const':
        return Ptr(((TRUE, None, x),))
    if x.op == 'ite':
        return merge_val(x.args[0], int_to_ptr(x.args[1]), int_to_ptr(x.args[2]))
    c, d = t._lin_parts(x)
    cand = [a for a, k in d.items() if a.id in ADDR]
    if len(cand) == 1 and d[cand[0]] == 1:
        return Ptr(((TRUE, ADDR[cand[0].id], t.sub(x, cand[0])),))
    return Ptr(((TRUE, None, x),))


class PathEnd(Exception):
    pass


class Executor:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.oblig = []
        self.covers = []
        self.facts = []           # global facts (address alignment, UF axioms)
        self.gids = {}            # global name -> oid
        self.gobj = {}            # oid -> pristine Obj
        self.next_oid = 1
        self.inputs = []          # (name, term or array)
        self.replace = {}         # symbol -> replacement symbol
        self.loopspecs = {}       # symbol -> list of specs
        self.touched = {}         # functions executed: name -> count
        self.replaced = {}
        self.stubs = set()
        self.max_iter = self.opts.get('max_iter', 400)
        self.fnstack = []
        self.argstack = []
        self.havocs = {}
        self.curline = 0
        self.tids = {}
        self.nfeas = 0
        self.ninstr = 0
        self.uf_used = set()
        self.loop_used = []

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, default='undef', name='', kind='heap'):
        oid = self.next_oid
        self.next_oid += 1
        st.mem[oid] = Obj(size, default, name, kind)
        st.owned.add(oid)
        return oid

    def global_oid(self, name):
        oid = self.gids.get(name)
        if oid is None:
            from . import llvm
            g = self.m.globals[name]
            oid = self.next_oid
            self.next_oid += 1
            self.gids[name] = oid
            vt = llvm.GlobalGetValueType(g)
            size = self.m.size(vt) if llvm.GetTypeKind(vt) != 10 or not llvm.IsOpaqueStruct(vt) else 4096
            o = Obj(size, 'undef', name, 'tls' if llvm.IsThreadLocal(g) else 'global')
            self.gobj[oid] = o
            init = llvm.GetInitializer(g)
            if init:
                o.default = 'zero'
                c = self.m.const(init)
                ty = self.m.ty(vt)
                self.init_cells(o, 0, ty, c)
                o.const = bool(llvm.IsGlobalConstant(g))
        return oid

    def init_cells(self, o, off, ty, c):
        if c[0] == 'zero':
            return
        if c[0] == 'agg':
            ty = c[1]
            if ty[0] == 'struct':
                for et, eo, x in zip(ty[1], ty[2], c[2]):
                    self.init_cells(o, off + eo, et, x)
            else:
                es = self.m.tsize(ty[2])
                for k, x in enumerate(c[2]):
                    self.init_cells(o, off + k * es, ty[2], x)
            return
        v = self.constval(c)
        if isinstance(v, Undef):
            return
        self.put_cell(o, off, self.m.tsize(ty), v)

    def put_cell(self, o, off, size, v):
        if isinstance(v, T):
            if v.sort == 0:
                v = t.bool2bv(v, 8)
            if isinstance(v.sort, int) and v.sort < size * 8:
                v = t.zext(v, size * 8)
        o.cells[off] = (size, v)

    def get_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.gobj.get(oid)
            if o is None:
                raise Unsupported(f'object {oid} not in memory')
        return o

    def own(self, st, oid):
        if oid in st.owned:
            return st.mem[oid]
        o = self.get_obj(st, oid).clone()
        st.mem[oid] = o
        st.owned.add(oid)
        return o

    # ------------------------------------------------------------ constants
    def constval(self, c):
        k = c[0]
        if k == 'int':
            if c[1] == 1:
                return t.boolc(c[2])
            return bv(c[2], c[1])
        if k == 'fp':
            return t.fconst(c[2], c[1])
        if k == 'null':
            return NULLP
        if k == 'undef':
            return self.undef(c[1])
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            return Agg([self.constval(x) for x in c[2]])
        if k == 'g':
            return obj_ptr(self.global_oid(c[1]))
        if k == 'fn':
            return Ptr(((TRUE, ('fn', c[1]), bv(0, 64)),))
        if k == 'cgep':
            p = self.constval(c[1])
            return Ptr(tuple((g, o, t.add(f, bv(c[2], 64))) for g, o, f in p.alts))
        if k == 'cexpr':
            op, ty, ops = c[1], c[2], [self.constval(x) for x in c[3]]
            if op == 'ptrtoint':
                x = ptr_to_int(ops[0])
                return t.extract(x, ty[1] - 1, 0) if ty[1] < 64 else x
            if op == 'inttoptr':
                return int_to_ptr(t.zext(ops[0], 64))
            if op == 'bitcast':
                return ops[0]
            if op in ('sub', 'add'):
                return t.binop(op, ops[0], ops[1])
            if op == 'trunc':
                return t.extract(ops[0], ty[1] - 1, 0)
            if op == 'icmp':
                return self.icmp(c[4], ops[0], ops[1])
        raise Unsupported(f'constant {c}')

    def undef(self, ty):
        if isinstance(ty, tuple) and ty[0] in ('struct',):
            return Agg([self.undef(x) for x in ty[1]])
        if isinstance(ty, tuple) and ty[0] in ('arr', 'vec'):
            return Agg([self.undef(ty[2]) for _ in range(ty[1])])
        return Undef(ty)

    def zero(self, ty):
        if ty == 'ptr':
            return NULLP
        if ty in ('f64', 'f32'):
            return t.fconst(0, ty)
        if ty[0] == 'i':
            return FALSE if ty[1] == 1 else bv(0, ty[1])
        if ty[0] == 'struct':
            return Agg([self.zero(x) for x in ty[1]])
        return Agg([self.zero(ty[2]) for _ in range(ty[1])])

    def conc(self, v):
        """materialise undef scalars"""
        if isinstance(v, Undef):
            if v.ty == 'ptr':
                return Ptr(())
            return t.fresh('undef', tysort(v.ty))
        return v

    # ------------------------------------------------------------ obligations
    def check(self, st, cond, name, kind):
        """obligation: pc => cond; afterwards cond is assumed. returns False if path is dead afterwards"""
        if cond is TRUE or cond in st.pc:
            if kind == 'check':
                self.oblig.append(Obligation(name, kind, st.pc, TRUE, self.fnstack[-1] if self.fnstack else '', self.curline))
            return True
        self.oblig.append(Obligation(name, kind, st.pc, cond, self.where(), self.curline))
        return st.assume(cond)

    def where(self):
        for n in reversed(self.fnstack):
            if not n.startswith('_ZN2fv'):
                return n
        return ''

    # ------------------------------------------------------------ memory access
    def align_split(self, cells, lo, hi):
        """split into bytes every cell that straddles [lo,hi) only partly"""
        for off in [o for o, (s, _) in cells.items() if o < hi and o + s > lo and (o < lo or o + s > hi)]:
            s, v = cells.pop(off)
            b = self.cell_bits(v, s)
            for k in range(s):
                cells[off + k] = (1, t.extract(b, 8 * k + 7, 8 * k))

    def cell_bits(self, v, s):
        if isinstance(v, Undef):
            return t.fresh('undef', 8 * s)
        if isinstance(v, Ptr):
            return ptr_to_int(v)
        if isinstance(v, T):
            b = bits_of(v)
            if b.sort < 8 * s:
                b = t.zext(b, 8 * s)
            return b
        raise Unsupported(f'cell bits {v}')

    def conv(self, v, size, ty):
        """cell value -> value of type ty (same storage size)"""
        if ty == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Undef):
                return Ptr(())
            return int_to_ptr(bits_of(v))
        if isinstance(v, Ptr):
            v = ptr_to_int(v)
        if isinstance(v, Undef):
            return self.conc(Undef(ty))
        if v.sort == ty:
            return v
        return to_sort(bits_of(v), ty)

    def load_const(self, st, oid, off, ty):
        o = self.get_obj(st, oid)
        size = self.m.ssize(ty)
        if o.cols is not None:
            return self.col_load(st, oid, bv(off, 64), ty)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], size, ty)
        over = [(k, s, v) for k, (s, v) in o.cells.items() if k < off + size and k + s > off]
        if not over:
            if o.default == 'zero':
                return self.zero(ty)
            v = self.conc(Undef(ty))
            if oid in st.mem:
                oo = self.own(st, oid)
            else:
                oo = o
            self.put_cell(oo, off, size, v)
            return v
        if len(over) == 1 and over[0][0] <= off and over[0][0] + over[0][1] >= off + size:
            k, s, v = over[0]
            b = self.cell_bits(v, s)
            d = (off - k) * 8
            return self.conv(t.extract(b, d + size * 8 - 1, d), size, ty)
        # assemble
        pos = off
        acc = None
        over.sort(key=lambda x: x[0])
        while pos < off + size:
            hit = [x for x in over if x[0] <= pos < x[0] + x[1]]
            if hit:
                k, s, v = hit[0]
                n = min(k + s, off + size) - pos
                b = self.cell_bits(v, s)
                p = t.extract(b, (pos - k) * 8 + 8 * n - 1, (pos - k) * 8)
            else:
                nxt = min([x[0] for x in over if x[0] > pos] + [off + size])
                n = nxt - pos
                if o.default == 'zero':
                    p = bv(0, 8 * n)
                else:
                    p = t.fresh('undef', 8 * n)
                    if oid in st.mem:
                        self.own(st, oid).cells[pos] = (n, p)
            acc = p if acc is None else t.concat(p, acc)
            pos += n
        return self.conv(acc, size, ty)

    def store_const(self, st, oid, off, size, v):
        o = self.own(st, oid)
        if o.cols is not None:
            return self.col_store(st, oid, bv(off, 64), size, v, TRUE)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.align_split(o.cells, off, off + size)
            for k in [k for k in o.cells if off <= k < off + size]:
                del o.cells[k]
        if isinstance(v, Undef):
            v = self.conc(v) if o.default == 'zero' or True else v
        self.put_cell(o, off, size, v)

    def in_bounds(self, o, off, size):
        """condition that [off, off+size) is inside the object"""
        osz = o.size
        if isinstance(osz, int):
            if size > osz:
                return FALSE
            return t.cmp('ule', off, bv(osz - size, 64))
        # symbolic size; sizes are bounded well below 2^63, so no wrap-around
        return and_(t.cmp('ule', bv(size, 64), osz), t.cmp('ule', off, t.sub(osz, bv(size, 64))))

    def candidates(self, off, size, osz):
        from math import gcd
        c, d = t._lin_parts(off)
        g = 0
        for k in d.values():
            g = gcd(g, t.sgn(k, 64))
        if off.op == 'ite':
            # collect leaves
            leaves = set()
            stt = [off]
            ok = True
            seen = set()
            while stt:
                x = stt.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == 'ite':
                    stt.extend(x.args[1:])
                elif x.op == 'const':
                    leaves.add(x.val)
                else:
                    ok = False
                    break
            if ok:
                return sorted(v for v in leaves if v + size <= osz)
        g = abs(g) or 1
        # power-of-two part survives wrap-around
        p2 = g & -g
        step = g if g < (1 << 20) else p2
        start = c % step
        n = (osz - size - start) // step + 1 if osz - size >= start else 0
        if n > 2048:
            raise Unsupported(f'symbolic offset into object of {osz} bytes, step {step}')
        return [start + j * step for j in range(max(n, 0))]

    def deref(self, st, p, size, what):
        """resolve a pointer for an access of `size` bytes; emits safety obligations; -> [(guard, oid, off)]"""
        p = self.as_ptr(p)
        out = []
        good = []
        for g, o, f in p.alts:
            if o is None or isinstance(o, tuple):
                continue
            ob = self.get_obj(st, o)
            if ob.alive is FALSE:
                continue
            ib = ob.alive
            if f.op == 'const' and isinstance(ob.size, int):
                if f.val + size > ob.size:
                    continue
            else:
                ib = and_(ib, self.in_bounds(ob, f, size))
            good.append(and_(g, ib))
            out.append((g, o, f))
        ok = or_(*good) if good else FALSE
        if not self.check(st, ok, f'valid-access:{what}', 'safety'):
            raise PathEnd()
        pcs = set(st.pc)
        out = [(g, o, f) for g, o, f in out if not_(g) not in pcs and not (g.op == 'and' and any(not_(x) in pcs for x in g.args))]
        if not out:
            raise PathEnd()
        if len(out) == 1:
            out = [(TRUE, out[0][1], out[0][2])]
        return out

    def as_ptr(self, p):
        if isinstance(p, Ptr):
            return p
        if isinstance(p, Undef):
            return Ptr(())
        if isinstance(p, T):
            return int_to_ptr(p)
        raise Unsupported(f'pointer {p}')

    def load(self, st, p, ty):
        if ty not in ('ptr', 'f64', 'f32') and ty[0] in ('struct', 'arr', 'vec'):
            p = self.as_ptr(p)
            vs = []
            if ty[0] == 'struct':
                for et, eo in zip(ty[1], ty[2]):
                    vs.append(self.load(st, self.padd(p, eo), et))
            else:
                es = self.m.tsize(ty[2])
                for k in range(ty[1]):
                    vs.append(self.load(st, self.padd(p, k * es), ty[2]))
            return Agg(vs)
        size = self.m.ssize(ty)
        alts = self.deref(st, p, size, 'load')
        r = None
        for g, o, f in reversed(alts):
            v = self.load_at(st, o, f, ty, size)
            r = v if r is None else merge_val(g, v, r)
        return r

    def load_at(self, st, o, f, ty, size):
        if f.op == 'const':
            return self.load_const(st, o, f.val, ty)
        ob = self.get_obj(st, o)
        if ob.cols is not None:
            return self.col_load(st, o, f, ty)
        r = None
        cands = self.candidates(f, size, ob.size)
        if not cands:
            raise PathEnd()
        for k in reversed(cands):
            v = self.load_const(st, o, k, ty)
            r = v if r is None else merge_val(eq(bv(k, 64), f), v, r)
        return r

    def padd(self, p, k):
        if isinstance(k, int):
            k = bv(k, 64)
        return Ptr(tuple((g, o, t.add(f, k)) for g, o, f in p.alts))

    def store(self, st, p, v, ty):
        if ty not in ('ptr', 'f64', 'f32') and ty[0] in ('struct', 'arr', 'vec'):
            p = self.as_ptr(p)
            if isinstance(v, Undef):
                v = self.undef(ty)
            if ty[0] == 'struct':
                for et, eo, x in zip(ty[1], ty[2], v.v):
                    self.store(st, self.padd(p, eo), x, et)
            else:
                es = self.m.tsize(ty[2])
                for k in range(ty[1]):
                    self.store(st, self.padd(p, k * es), v.v[k], ty[2])
            return
        size = self.m.ssize(ty)
        if isinstance(v, Undef):
            v = self.conc(v)
        alts = self.deref(st, p, size, 'store')
        for g, o, f in alts:
            ob = self.get_obj(st, o)
            if ob.const:
                self.check(st, not_(g), 'store-to-constant', 'safety')
                continue
            if ob.cols is not None:
                self.own(st, o)
                self.col_store(st, o, f, size, v, g)
                continue
            cands = [f.val] if f.op == 'const' else self.candidates(f, size, ob.size)
            for k in cands:
                c = and_(g, eq(bv(k, 64), f))
                if c is FALSE:
                    continue
                if c is TRUE:
                    self.store_const(st, o, k, size, v)
                else:
                    old = self.load_const(st, o, k, ty)
                    self.store_const(st, o, k, size, merge_val(c, v, old))

    # symbolic-length arrays: one SMT array per (field offset, sort)
    def col_index(self, o, f, depth=0):
        """offset term -> (index term, field offset)"""
        s = o.stride
        c, d = t._lin_parts(f)
        c = t.sgn(c, 64)
        idx = bv(0, 64)
        for a, k in d.items():
            k = t.sgn(k, 64)
            if k % s:
                cnd = t.itecond(f)
                if cnd is not None and depth < 8:
                    i1, r1 = self.col_index(o, t.under(f, cnd, True), depth + 1)
                    i2, r2 = self.col_index(o, t.under(f, cnd, False), depth + 1)
                    if r1 == r2:
                        return ite(cnd, i1, i2), r1
                raise Unsupported(f'offset {f} not a multiple of stride {s}')
            idx = t.add(idx, t.scale(a, k // s))
        q, r = divmod(c, s)
        return t.add(idx, bv(q, 64)), r

    def col_load(self, st, oid, f, ty):
        o = self.get_obj(st, oid)
        if f.op == 'ite':
            return merge_val(f.args[0], self.col_load(st, oid, f.args[1], ty), self.col_load(st, oid, f.args[2], ty))
        idx, r = self.col_index(o, f)
        size = self.m.ssize(ty)
        if ty == 'ptr':
            raise Unsupported('pointer in symbolic array')
        c = o.cols.get(r)
        if c is not None and c[0] == size:
            v = t.select(c[1], idx)
            return self.conv(v, size, ty)
        if c is None and not any(k < r + size and k + s > r for k, (s, _) in o.cols.items()):
            sort = ty if ty in ('f64', 'f32') else 8 * size
            oo = self.own(st, oid)
            a = t.var(f'{o.name}@{r}:{sort}', ('arr', sort)) if o.default == 'sym' else t.fresh(f'{o.name}@{r}', ('arr', sort))
            oo.cols[r] = (size, a)
            return self.conv(t.select(a, idx), size, ty)
        # wider column read in part
        for k, (s, a) in o.cols.items():
            if k <= r and k + s >= r + size:
                b = bits_of(t.select(a, idx))
                return self.conv(t.extract(b, (r - k) * 8 + size * 8 - 1, (r - k) * 8), size, ty)
        # assemble from narrower columns
        acc = None
        pos = r
        while pos < r + size:
            n = None
            for k, (s, a) in o.cols.items():
                if k <= pos < k + s:
                    n = min(k + s, r + size) - pos
                    b = bits_of(t.select(a, idx))
                    p = t.extract(b, (pos - k) * 8 + 8 * n - 1, (pos - k) * 8)
            if n is None:
                nxt = min([k for k in o.cols if k > pos] + [r + size])
                n = nxt - pos
                oo = self.own(st, oid)
                a = t.var(f'{o.name}@{pos}:{8*n}', ('arr', 8 * n)) if o.default == 'sym' else t.fresh(f'{o.name}@{pos}', ('arr', 8 * n))
                oo.cols[pos] = (n, a)
                p = t.select(a, idx)
            acc = p if acc is None else t.concat(p, acc)
            pos += n
        return self.conv(acc, size, ty)

    def col_store(self, st, oid, f, size, v, guard):
        o = st.mem[oid]
        idx, r = self.col_index(o, f)
        if isinstance(v, Ptr):
            raise Unsupported('pointer stored in symbolic array')
        if v.sort == 0:
            v = t.bool2bv(v, 8)
        if isinstance(v.sort, int) and v.sort < 8 * size:
            v = t.zext(v, 8 * size)
        c = o.cols.get(r)
        if c is None or c[0] != size:
            ov = [k for k, (s, _) in o.cols.items() if k < r + size and k + s > r]
            if ov:
                inside = [k for k in ov if k >= r and k + o.cols[k][0] <= r + size]
                if len(inside) == len(ov):
                    # the stored value covers whole columns: store piecewise
                    b = bits_of(v)
                    pos = r
                    while pos < r + size:
                        if pos in o.cols:
                            s, a = o.cols[pos]
                        else:
                            nxt = min([k for k in o.cols if k > pos] + [r + size])
                            s = nxt - pos
                            a = t.fresh(f'{o.name}@{pos}', ('arr', 8 * s))
                        pv = t.extract(b, (pos - r) * 8 + 8 * s - 1, (pos - r) * 8)
                        if a.sort[1] in ('f64', 'f32'):
                            pv = t.fconv('bitcast', pv, a.sort[1])
                        na = t.store(a, idx, pv)
                        o.cols[pos] = (s, na if guard is TRUE else ite(guard, na, a))
                        pos += s
                    return
                raise Unsupported('partial column store')
            a = t.fresh(f'{o.name}@{r}', ('arr', v.sort if v.sort in ('f64', 'f32') else 8 * size))
        else:
            a = c[1]
        if a.sort[1] != v.sort:
            v = bits_of(v)
            if a.sort[1] in ('f64', 'f32'):
                v = t.fconv('bitcast', v, a.sort[1])
        na = t.store(a, idx, v)
        o.cols[r] = (size, na if guard is TRUE else ite(guard, na, a))

    def memcpy(self, st, d, s, n):
        d, s = self.as_ptr(d), self.as_ptr(s)
        if n.op != 'const':
            return self.memcpy_sym(st, d, s, n)
        n = n.val
        if n == 0:
            return
        da = self.deref(st, d, n, 'memcpy-dst')
        sa = self.deref(st, s, n, 'memcpy-src')
        if len(da) == 1 and len(sa) == 1 and da[0][2].op == 'const' and sa[0][2].op == 'const':
            so = self.get_obj(st, sa[0][1])
            do = self.get_obj(st, da[0][1])
            if so.cols is None and do.cols is None:
                sf, df = sa[0][2].val, da[0][2].val
                src = {k: v for k, v in so.cells.items() if k < sf + n and k + v[0] > sf}
                self.align_split(src, sf, sf + n)
                src = {k: v for k, v in src.items() if sf <= k < sf + n}
                do = self.own(st, da[0][1])
                self.align_split(do.cells, df, df + n)
                for k in [k for k in do.cells if df <= k < df + n]:
                    del do.cells[k]
                if do.default != so.default or so.default == 'undef':
                    # materialise gaps
                    pos = sf
                    for k in sorted(src) + [sf + n]:
                        if k > pos and (so.default == 'zero' or do.default == 'zero'):
                            for j in range(pos, k):
                                src[j] = (1, bv(0, 8) if so.default == 'zero' else t.fresh('undef', 8))
                        pos = max(pos, k + (src[k][0] if k in src else 0))
                for k, v in src.items():
                    do.cells[k - sf + df] = v
                return
        if n > 4096:
            raise Unsupported('large memcpy with symbolic pointers')
        # generic: word-wise
        step = 8 if n % 8 == 0 else (4 if n % 4 == 0 else 1)
        tmp = []
        for k in range(0, n, step):
            tmp.append(self.load_raw(st, self.padd(s, k), step))
        for k, v in zip(range(0, n, step), tmp):
            self.store(st, self.padd(d, k), v, ('i', 8 * step) if isinstance(v, T) else 'ptr')

    def load_raw(self, st, p, size):
        """load size bytes keeping pointers as pointers"""
        alts = self.deref(st, p, size, 'load')
        r = None
        for g, o, f in reversed(alts):
            ob = self.get_obj(st, o)
            v = None
            if f.op == 'const' and ob.cols is None:
                c = ob.cells.get(f.val)
                if c is not None and c[0] == size and isinstance(c[1], Ptr):
                    v = c[1]
            if v is None:
                v = self.load_at(st, o, f, ('i', 8 * size), size)
            r = v if r is None else merge_val(g, v, r)
        return r

    def memcpy_sym(self, st, d, s, n):
        # n symbolic: supported when the value set is small or for whole-array copies
        if n.op == 'ite' :
            vals = [n.args[1], n.args[2]]
            c = n.args[0]
            s2 = st.fork()
            s1 = st.fork()
            a = s1.assume(c)
            b = s2.assume(not_(c))
            if a:
                self.memcpy(s1, d, s, n.args[1])
            if b:
                self.memcpy(s2, d, s, n.args[2])
            m = self.merge(s1, s2)[0] if a and b else (s1 if a else s2)
            st.pc, st.mem, st.owned = m.pc, m.mem, m.owned
            return
        if self.split_len(st, n, lambda s_, k: self.memcpy(s_, d, s, k)):
            return
        da = d.alts
        sa = s.alts
        if len(da) == 1 and len(sa) == 1:
            ob = self.get_obj(st, sa[0][1]) if sa[0][1] is not None and not isinstance(sa[0][1], tuple) else None
            do = self.get_obj(st, da[0][1]) if da[0][1] is not None and not isinstance(da[0][1], tuple) else None
            if ob is not None and do is not None and isinstance(ob.size, int) and isinstance(do.size, int) and ob.cols is None and do.cols is None and sa[0][2].op == 'const' and da[0][2].op == 'const':
                mx = min(ob.size - sa[0][2].val, do.size - da[0][2].val)
                if not self.check(st, t.cmp('ule', n, bv(mx, 64)), 'memcpy-bounds', 'safety'):
                    raise PathEnd()
                for k in range(mx):
                    c = t.cmp('ult', bv(k, 64), n)
                    v = self.load_const(st, sa[0][1], sa[0][2].val + k, ('i', 8))
                    old = self.load_const(st, da[0][1], da[0][2].val + k, ('i', 8))
                    self.store_const(st, da[0][1], da[0][2].val + k, 1, ite(c, v, old))
                return
        raise Unsupported('memcpy with symbolic length')

    def split_len(self, st, n, f):
        """case split on the values of a length that is constant in every case"""
        lv = t.leaves(n)
        if lv is None:
            return False
        m = None
        for g, k in lv:
            s1 = st.fork()
            if not s1.assume(g) or not self.feasible(s1):
                continue
            try:
                f(s1, k)
            except PathEnd:
                continue
            m = s1 if m is None else self.merge(m, s1)[0]
        if m is None:
            raise PathEnd()
        st.pc, st.mem, st.owned = m.pc, m.mem, m.owned
        return True

    def memset(self, st, d, b, n):
        d = self.as_ptr(d)
        if n.op != 'const':
            if n.op == 'ite':
                c = n.args[0]
                s1, s2 = st.fork(), st.fork()
                a, bb = s1.assume(c), s2.assume(not_(c))
                if a:
                    self.memset(s1, d, b, n.args[1])
                if bb:
                    self.memset(s2, d, b, n.args[2])
                m = self.merge(s1, s2)[0] if a and bb else (s1 if a else s2)
                st.pc, st.mem, st.owned = m.pc, m.mem, m.owned
                return
            if self.split_len(st, n, lambda s_, k: self.memset(s_, d, b, k)):
                return
            raise Unsupported('memset with symbolic length')
        n = n.val
        if n == 0:
            return
        da = self.deref(st, d, n, 'memset')
        if len(da) == 1 and da[0][2].op == 'const' and self.get_obj(st, da[0][1]).cols is None:
            o = self.own(st, da[0][1])
            df = da[0][2].val
            self.align_split(o.cells, df, df + n)
            for k in [k for k in o.cells if df <= k < df + n]:
                del o.cells[k]
            if o.default == 'zero' and b.op == 'const' and b.val == 0:
                return
            k = 0
            while k < n:
                s = 8 if (n - k >= 8 and (df + k) % 8 == 0) else (4 if n - k >= 4 and (df + k) % 4 == 0 else 1)
                v = b
                for _ in range(s - 1):
                    v = t.concat(v, b)
                o.cells[df + k] = (s, v)
                k += s
            return
        for k in range(n):
            self.store(st, self.padd(d, k), b, ('i', 8))

    # ------------------------------------------------------------ merging
    def merge(self, a, b):
        """merge two states; -> state. pcs share a common prefix"""
        n = 0
        pa, pb = a.pc, b.pc
        m = min(len(pa), len(pb))
        while n < m and pa[n] is pb[n]:
            n += 1
        sb = set(pb[n:])
        com = [x for x in pa[n:] if x in sb]
        sc = set(com)
        ra = [x for x in pa[n:] if x not in sc]
        rb = [x for x in pb[n:] if x not in sc]
        ca = and_(*ra)
        cb = and_(*rb)
        # selector: true on a's paths, false on b's. Prefer a single literal that occurs negated on the other side.
        sel = None
        if ra and rb:
            nb = set(rb)
            for x in ra:
                if not_(x) in nb:
                    sel = x
                    break
        if sel is None:
            sel = ca
            if ca is TRUE or (rb and len(rb) < len(ra)):
                sel = not_(cb)
        s = State()
        s.pc = pa[:n] + tuple(com)
        d = or_(ca, cb)
        if d is not TRUE:
            s.pc = s.pc + (d,)
        mem = {}
        for oid in a.mem.keys() | b.mem.keys():
            oa = a.mem.get(oid)
            ob = b.mem.get(oid)
            if oa is None or ob is None:
                if oid in self.gobj:
                    oa = oa or self.gobj[oid]
                    ob = ob or self.gobj[oid]
                else:
                    mem[oid] = oa or ob       # object exists on one side only: unreachable from the other
                    continue
            if oa is ob:
                mem[oid] = oa
            else:
                mem[oid] = self.merge_obj(sel, oa, ob)
        s.mem = mem
        s.owned = set()
        a.owned = set()
        b.owned = set()
        s.caught = a.caught if len(a.caught) <= len(b.caught) else b.caught
        if a.exc is not None and b.exc is not None:
            s.exc = (merge_val(sel, a.exc[0], b.exc[0]), merge_val(sel, a.exc[1], b.exc[1]))
        s_sel = sel
        return s, s_sel

    def merge_obj(self, c, a, b):
        o = Obj(a.size, a.default, a.name, a.kind)
        o.const = a.const
        o.alive = ite(c, a.alive, b.alive)
        if a.cols is not None:
            o.stride = a.stride
            o.cols = {}
            for k in a.cols.keys() | b.cols.keys():
                x, y = a.cols.get(k), b.cols.get(k)
                if x is None or y is None:
                    z = x or y
                    if a.default == 'sym':
                        base = t.var(f'{a.name}@{k}:{z[1].sort[1]}', z[1].sort)
                    else:
                        base = t.fresh(f'{a.name}@{k}', z[1].sort)
                    x = x or (z[0], base)
                    y = y or (z[0], base)
                if x[0] != y[0]:
                    raise Unsupported('merge of differently split columns')
                o.cols[k] = (x[0], ite(c, x[1], y[1]))
            return o
        ca, cb = a.cells, b.cells
        if ca.keys() != cb.keys() or any(ca[k][0] != cb[k][0] for k in ca):
            ca, cb = dict(ca), dict(cb)
            for k, (s, _) in list(ca.items()):
                if k in cb and cb[k][0] == s:
                    continue
                ov = [j for j, (z, _) in cb.items() if j < k + s and j + z > k]
                if ov:
                    lo = min([k] + ov)
                    hi = max([k + s] + [j + cb[j][0] for j in ov])
                    for cc in (ca, cb):
                        for j in [j for j, (z, _) in cc.items() if j < hi and j + z > lo]:
                            z, v = cc.pop(j)
                            bb = self.cell_bits(v, z)
                            for q in range(z):
                                cc[j + q] = (1, t.extract(bb, 8 * q + 7, 8 * q))
        for k in ca.keys() | cb.keys():
            x, y = ca.get(k), cb.get(k)
            if x is None:
                x = (y[0], self.dflt(a, y))
            if y is None:
                y = (x[0], self.dflt(b, x))
            o.cells[k] = x if x is y else (x[0], merge_val(c, x[1], y[1]))
        return o

    def dflt(self, o, like):
        if o.default == 'zero':
            if isinstance(like[1], Ptr):
                return NULLP
            return bv(0, 8 * like[0]) if not (isinstance(like[1], T) and like[1].sort in ('f64', 'f32')) else t.fconst(0, like[1].sort)
        return Undef(('i', 8 * like[0]) if not isinstance(like[1], Ptr) else 'ptr')

    # ------------------------------------------------------------ solver feasibility
    def feasible(self, st, timeout=4):
        from . import smt
        # conditions found satisfiable before (or part of such) need not be decided again; assuming them feasible is sound
        pc = frozenset(st.pc)
        known = self.__dict__.setdefault('known_feasible', {})
        if pc in known or any(pc <= k for k in list(known)[-4:]):
            return True
        self.nfeas += 1
        r = smt.quick_check(st.pc, self.facts, timeout)
        if r == 'unsat':
            return False
        known[pc] = True
        return True

    # ------------------------------------------------------------ function execution
    def live(self, fn):
        lv = getattr(self, '_live', None)
        if lv is None:
            lv = self._live = {}
        r = lv.get(fn.name)
        if r is None:
            r = lv[fn.name] = liveness(fn)
        return r

    def call_fn(self, name, args, st):
        """-> (normal state|None, value, exceptional state|None)"""
        if len(self.fnstack) > 220:
            raise Unsupported('call depth (recursion) ' + name)
        self.touched[name] = self.touched.get(name, 0) + 1
        fn = self.m.fn(name)
        self.fnstack.append(name)
        self.argstack.append(list(args))
        try:
            return self.exec_fn(fn, args, st)
        finally:
            self.fnstack.pop()
            self.argstack.pop()

    def exec_fn(self, fn, args, st):
        lv = self.live(fn)
        pend = {}      # block -> [state, regs, backedge?]
        exits = []     # (state, value)
        excs = []
        regs0 = {}
        args = list(args)
        for j, sz in fn.byval.items():
            oid = self.new_obj(st, sz, 'undef', 'byval', 'stack')
            self.memcpy(st, obj_ptr(oid), args[j], bv(sz, 64))
            args[j] = obj_ptr(oid)
            self.argstack[-1][j] = args[j]
        for j, a in enumerate(args):
            regs0[j] = a
        pend[0] = (st, regs0)
        back = {}      # header -> (state, regs) arriving over back edges
        iters = {}
        allocas = []
        loops = fn.loops
        hdr_end = {h: max(fn.order[b] for b in body) + 0.5 for h, body in loops.items()}
        specs = self.loopspecs.get(fn.name)
        frames = {}
        keep = {p for sp in (specs or {}).values() if sp for p in sp[1]}

        def add(block, s, regs):
            p = pend.get(block)
            if p is None:
                pend[block] = (s, regs)
            else:
                pend[block] = self.merge_sr(p, (s, regs))

        def goto(src, dst, s, regs):
            B = fn.blocks[dst]
            live = lv[dst]
            nr = {r: regs[r] for r in live if r in regs}
            for r in keep:
                if r in regs:
                    nr[r] = regs[r]
            for d, ty, inc in B.phis:
                nr[d] = self.val(inc[src], regs)
            if dst in loops and src in loops[dst]:
                if specs is not None and dst in frames:
                    self.loop_back(fn, dst, frames[dst], s, nr)
                    return
                # back edge
                p = back.get(dst)
                back[dst] = (s, nr) if p is None else self.merge_sr(p, (s, nr))
            else:
                add(dst, s, nr)

        while pend or back:
            best = None
            bo = None
            for b in pend:
                o = fn.order[b]
                if bo is None or o < bo:
                    bo, best = o, ('f', b)
            for h in back:
                o = hdr_end[h]
                if bo is None or o < bo:
                    bo, best = o, ('b', h)
            kind, b = best
            if kind == 'f':
                s, regs = pend.pop(b)
                if b in loops:
                    iters[b] = 0
                    if specs is not None and not (b in frames):
                        r = self.loop_enter(fn, b, specs, s, regs)
                        if r is not None:
                            frames[b] = r
            else:
                s, regs = back.pop(b)
                iters[b] = iters.get(b, 0) + 1
                if iters[b] > self.max_iter:
                    raise Unsupported(f'loop in {fn.name} block {b} not bounded after {self.max_iter} iterations')
                if iters[b] >= self.opts.get('feas_from', 1) and len(s.pc) > 0 and self.loop_symbolic(s, iters, b):
                    if not self.feasible(s):
                        continue
                # inner loops restart
                for h in loops:
                    if h != b and h in loops[b]:
                        iters.pop(h, None)
                        frames.pop(h, None)
            B = fn.blocks[b]
            try:
                self.exec_block(fn, B, s, regs, goto, exits, excs, allocas)
            except PathEnd:
                pass
        rs, rv = None, None
        for s, v in exits:
            if rs is None:
                rs, rv = s, v
            else:
                rs, sel = self.merge(rs, s)
                if rv is not None:
                    rv = merge_val(sel, rv, v)
        es = None
        for s in excs:
            if es is None:
                es = s
            else:
                es, _ = self.merge(es, s)
        for s in (rs, es):
            if s is not None:
                for oid in allocas:
                    s.mem.pop(oid, None)
                    s.owned.discard(oid)
        return rs, rv, es

    def loop_symbolic(self, s, iters, b):
        return True

    def merge_sr(self, a, b):
        s, sel = self.merge(a[0], b[0])
        ra, rb = a[1], b[1]
        regs = {}
        for k in ra.keys() & rb.keys():
            x, y = ra[k], rb[k]
            regs[k] = x if x is y else merge_val(sel, x, y)
        return (s, regs)

    def val(self, o, regs):
        if o[0] == 'r':
            return regs[o[1]]
        return self.constval(o)

    def exec_block(self, fn, B, st, regs, goto, exits, excs, allocas):
        for ins in B.ins:
            op = ins[0]
            self.ninstr += 1
            if op == 'br':
                return goto(B.idx, ins[1], st, regs)
            if op == 'cbr':
                c = self.conc(self.val(ins[1], regs))
                return self.branch(B, [(c, ins[2]), (not_(c), ins[3])], st, regs, goto)
            if op == 'switch':
                v = self.conc(self.val(ins[1], regs))
                alts = {}
                rest = []
                for cv, dst in ins[2]:
                    c = eq(self.constval(cv), v)
                    alts.setdefault(dst, []).append(c)
                    rest.append(c)
                dflt = not_(or_(*rest)) if rest else TRUE
                lst = []
                alts.setdefault(ins[3], []).append(dflt)
                for dst, cs in alts.items():
                    lst.append((or_(*cs), dst))
                return self.branch(B, lst, st, regs, goto)
            if op == 'ret':
                exits.append((st, self.val(ins[1], regs) if ins[1] is not None else None))
                return
            if op == 'unreachable':
                # reached only if the program has undefined behaviour
                if ins[1]:
                    self.curline = ins[1]
                self.check(st, FALSE, 'unreachable-code', 'safety')
                return
            if op == 'resume':
                v = self.val(ins[1], regs)
                excs.append(st)
                return
            if op in ('call', 'invoke'):
                if ins[7]:
                    self.curline = ins[7]
                r = self.do_call(fn, ins, st, regs, excs if op == 'call' else None, allocas)
                if op == 'invoke':
                    ns, v, es = r
                    if es is not None:
                        goto(B.idx, ins[6][1], es, dict(regs))
                    if ns is not None:
                        regs[ins[1]] = v
                        goto(B.idx, ins[6][0], ns, regs)
                    return
                ns, v, es = r
                if es is not None:
                    excs.append(es)
                if ns is None:
                    return
                if ns is not st:
                    st = ns
                regs[ins[1]] = v
                continue
            self.step(fn, op, ins, st, regs, allocas)

    def branch(self, B, lst, st, regs, goto):
        alive = []
        for c, dst in lst:
            if c is FALSE:
                continue
            if c is TRUE:
                return goto(B.idx, dst, st, regs)
            alive.append((c, dst))
        res = []
        for c, dst in alive:
            s = st.fork()
            if s.assume(c):
                res.append((s, dst))
        for s, dst in res:
            goto(B.idx, dst, s, regs if len(res) == 1 else dict(regs))

    def icmp(self, pred, a, b):
        if isinstance(a, Undef):
            a = self.conc(a)
        if isinstance(b, Undef):
            b = self.conc(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.as_ptr(a), self.as_ptr(b)
            if pred in ('eq', 'ne'):
                r = []
                for g1, o1, f1 in a.alts:
                    for g2, o2, f2 in b.alts:
                        if o1 == o2:
                            r.append(and_(g1, g2, eq(f1, f2)))
                        elif (o1 is None and f1.op != 'const') or (o2 is None and f2.op != 'const'):
                            x = f1 if o1 is None else t.add(addr_of(o1), f1)
                            y = f2 if o2 is None else t.add(addr_of(o2), f2)
                            r.append(and_(g1, g2, eq(x, y)))
                c = or_(*r) if r else FALSE
                return c if pred == 'eq' else not_(c)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                return t.cmp(pred, a.alts[0][2], b.alts[0][2])
            return t.cmp(pred, ptr_to_int(a), ptr_to_int(b))
        return t.cmp(pred, a, b) if a.sort != 0 else self.bcmp(pred, a, b)

    def bcmp(self, pred, a, b):
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return not_(eq(a, b))
        if pred in ('ugt', 'slt'):
            return and_(a, not_(b))
        if pred in ('ult', 'sgt'):
            return and_(not_(a), b)
        if pred in ('uge', 'sle'):
            return or_(a, not_(b))
        return or_(not_(a), b)

    def vec2(self, f, a, b):
        if isinstance(a, Agg) or isinstance(b, Agg):
            return Agg([f(self.conc(x), self.conc(y)) for x, y in zip(a.v, b.v)])
        return f(self.conc(a), self.conc(b))

    def step(self, fn, op, ins, st, regs, allocas):
        val = self.val
        if op == 'load':
            if ins[4]:
                self.curline = ins[4]
            regs[ins[1]] = self.load(st, val(ins[3], regs), ins[2])
        elif op == 'store':
            if ins[4]:
                self.curline = ins[4]
            self.store(st, val(ins[2], regs), val(ins[1], regs), ins[3])
        elif op == 'gep':
            p = self.as_ptr(val(ins[2], regs))
            off = bv(ins[3], 64)
            for sz, o in ins[4]:
                x = self.conc(val(o, regs))
                if x.sort < 64:
                    x = t.sext(x, 64)
                off = t.add(off, t.scale(x, sz))
            regs[ins[1]] = self.padd(p, off)
        elif op == 'alloca':
            n = self.val(ins[3], regs)
            if n.op != 'const':
                raise Unsupported('dynamic alloca')
            oid = self.new_obj(st, ins[2] * n.val, 'undef', 'alloca', 'stack')
            allocas.append(oid)
            regs[ins[1]] = obj_ptr(oid)
        elif op == 'icmp':
            a, b = val(ins[3], regs), val(ins[4], regs)
            if isinstance(a, Agg):
                regs[ins[1]] = Agg([self.icmp(ins[2], x, y) for x, y in zip(a.v, b.v)])
            else:
                regs[ins[1]] = self.icmp(ins[2], a, b)
        elif op == 'fcmp':
            if ins[2] in ('true', 'false'):
                regs[ins[1]] = t.boolc(ins[2] == 'true')
            else:
                regs[ins[1]] = self.vec2(lambda x, y: t.fcmp(ins[2], x, y), val(ins[3], regs), val(ins[4], regs))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = (val(x, regs) for x in ins[3])

            def f(x, y):
                if isinstance(x, Ptr):
                    x = ptr_to_int(x)
                if isinstance(y, Ptr):
                    y = ptr_to_int(y)
                if x.sort == 0:
                    if op == 'and' or op == 'mul':
                        return and_(x, y)
                    if op == 'or':
                        return or_(x, y)
                    return t.xor_(x, y)
                if op == 'sub' and all_in(x, PTR_INTS) and all_in(y, PTR_INTS):
                    r = t.binop(op, x, y)
                    PTR_DIFFS.add(r.id)
                    return r
                if ins[5] and all_in(x, PTR_DIFFS):
                    r = self.exact(op, x, y)
                    if r is not None:
                        return r
                return t.binop(op, x, y)
            regs[ins[1]] = self.vec2(f, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = (val(x, regs) for x in ins[3])
            regs[ins[1]] = self.vec2(lambda x, y: t.fop(op, (x, y)), a, b)
        elif op == 'fneg':
            a = val(ins[3][0], regs)
            regs[ins[1]] = Agg([t.fop('fneg', (self.conc(x),)) for x in a.v]) if isinstance(a, Agg) else t.fop('fneg', (self.conc(a),))
        elif op == 'select':
            c, a, b = (val(x, regs) for x in ins[3])
            if isinstance(c, Agg):
                regs[ins[1]] = Agg([merge_val(self.conc(cc), x, y) for cc, x, y in zip(c.v, a.v, b.v)])
            else:
                c = self.conc(c)
                if c is TRUE:
                    r = a
                elif c is FALSE:
                    r = b
                else:
                    r = merge_val(c, a, b)
                regs[ins[1]] = r
        elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint',
                    'inttoptr', 'bitcast'):
            a = val(ins[3][0], regs)
            ty = ins[2]
            if isinstance(a, Agg) and op != 'bitcast':
                regs[ins[1]] = Agg([self.cast(op, x, ty[2], ins[4][2]) for x in a.v])
            else:
                regs[ins[1]] = self.cast(op, a, ty, ins[4])
        elif op == 'extractvalue':
            v = val(ins[3][0], regs)
            for k in ins[4]:
                v = v.v[k] if isinstance(v, Agg) else Undef(ins[2])
            regs[ins[1]] = v
        elif op == 'insertvalue':
            a, x = (val(o, regs) for o in ins[3])

            def put(a, idx):
                if not idx:
                    return x
                vs = list(a.v)
                vs[idx[0]] = put(vs[idx[0]], idx[1:])
                return Agg(vs)
            regs[ins[1]] = put(a, ins[4])
        elif op == 'extractelement':
            a, k = (val(o, regs) for o in ins[3])
            if k.op != 'const':
                raise Unsupported('extractelement symbolic')
            regs[ins[1]] = a.v[k.val]
        elif op == 'insertelement':
            a, x, k = (val(o, regs) for o in ins[3])
            if k.op != 'const':
                raise Unsupported('insertelement symbolic')
            vs = list(a.v)
            vs[k.val] = x
            regs[ins[1]] = Agg(vs)
        elif op == 'shufflevector':
            a, b = (val(o, regs) for o in ins[3])
            av = a.v + b.v
            regs[ins[1]] = Agg([av[k] if k >= 0 else Undef(ins[2][2]) for k in ins[4]])
        elif op == 'freeze':
            v = val(ins[3][0], regs)
            regs[ins[1]] = self.conc(v) if isinstance(v, Undef) else v
        elif op == 'landingpad':
            excp, tinfo = st.exc
            sel = bv(0, 32)
            # first matching clause wins
            for kind, c in reversed(ins[3]):
                if kind == 'filter':
                    raise Unsupported('exception filter')
                if c[0] == 'null':
                    sel = bv(1, 32)
                else:
                    m = self.type_match(tinfo, c[1])
                    sel = ite(m, bv(self.typeid(c[1]), 32), sel)
            if not ins[4]:
                # no cleanup: without a match unwinding continues above; clang always emits resume in that case
                pass
            regs[ins[1]] = Agg([excp, sel])
        elif op == 'cmpxchg':
            p, c, n = (val(o, regs) for o in ins[2])
            old = self.load(st, p, ins[3])
            ok = self.icmp('eq', old, c)
            self.store(st, p, merge_val(ok, n, old), ins[3])
            regs[ins[1]] = Agg([old, ok])
        elif op == 'atomicrmw':
            p, x = (val(o, regs) for o in ins[3])
            old = self.load(st, p, ins[4])
            rm = ins[2]
            if rm == 'xchg':
                n = x
            elif rm in ('add', 'sub', 'and', 'or', 'xor'):
                n = t.binop(rm, old, x)
            else:
                raise Unsupported('atomicrmw ' + str(rm))
            self.store(st, p, n, ins[4])
            regs[ins[1]] = old
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + str(op))

    def exact(self, op, x, y):
        """pointer differences: (k*a + ...)/k for exact division (pointer arithmetic inside one object never wraps)"""
        if y.op != 'const':
            return None
        w = x.sort
        k = y.val
        if op == 'ashr' or op == 'lshr':
            k = 1 << k
        c, d = t._lin_parts(x)
        cs = t.sgn(c, w)
        if cs % k:
            return None
        out = bv(cs // k, w)
        for a, q in d.items():
            q = t.sgn(q, w)
            if q % k:
                return None
            out = t.add(out, t.scale(a, q // k))
        return out

    def cast(self, op, a, ty, fty):
        if op == 'bitcast':
            if isinstance(ty, tuple) and ty[0] == 'vec' or isinstance(a, Agg):
                # via bits
                if isinstance(a, Agg):
                    acc = None
                    for x in a.v:
                        b = bits_of(self.conc(x))
                        acc = b if acc is None else t.concat(b, acc)
                else:
                    acc = bits_of(self.conc(a))
                if isinstance(ty, tuple) and ty[0] == 'vec':
                    es = self.m.tsize(ty[2]) * 8
                    if ty[2] != 'f64' and ty[2] != 'f32' and ty[2][1] != es:
                        raise Unsupported('bitcast vec bits')
                    return Agg([to_sort(t.extract(acc, es * k + es - 1, es * k), ty[2]) for k in range(ty[1])])
                return to_sort(acc, ty) if ty != 'ptr' else int_to_ptr(acc)
            a = self.conc(a)
            if ty == 'ptr' or isinstance(a, Ptr):
                return a
            s = tysort(ty)
            if s == a.sort:
                return a
            return t.fconv('bitcast', a, s)
        a = self.conc(a) if not isinstance(a, Ptr) else a
        if op == 'ptrtoint':
            x = ptr_to_int(self.as_ptr(a))
            return x if ty[1] == 64 else t.extract(x, ty[1] - 1, 0)
        if op == 'inttoptr':
            return int_to_ptr(t.zext(a, 64))
        if isinstance(a, Ptr):
            a = ptr_to_int(a)
        if op == 'trunc':
            if ty[1] == 1:
                return t.bv2bool(a)
            return t.extract(a, ty[1] - 1, 0)
        if op == 'zext':
            if a.sort == 0:
                return t.bool2bv(a, ty[1])
            return t.zext(a, ty[1])
        if op == 'sext':
            if a.sort == 0:
                return ite(a, bv(-1, ty[1]), bv(0, ty[1]))
            return t.sext(a, ty[1])
        if op in ('uitofp', 'sitofp'):
            if a.sort == 0:
                a = t.bool2bv(a, 8)
                if op == 'sitofp':
                    raise Unsupported('sitofp i1')
            return t.fconv(op, a, ty)
        if op in ('fptosi', 'fptoui'):
            return t.fconv(op, a, ty[1])
        return t.fconv(op, a, ty)

    # ------------------------------------------------------------ exceptions
    def typeid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 2
        return self.tids[name]

    def bases(self, name):
        """transitive bases of a typeinfo symbol (single inheritance, as laid out in the IR or built in for std)"""
        out = [name]
        std = {'_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
               '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
               '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
               '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
               '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception',
               '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
               '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc'}
        cur = name
        while True:
            if cur in std:
                cur = std[cur]
            else:
                try:
                    o = self.gobj[self.global_oid(cur)]
                except KeyError:
                    break
                c = o.cells.get(16)
                if c is None or not isinstance(c[1], Ptr) or not c[1].alts or not isinstance(c[1].alts[0][1], int):
                    break
                nxt = self.gobj[c[1].alts[0][1]].name
                if not nxt.startswith('_ZTI'):
                    break
                cur = nxt
            out.append(cur)
        return out

    def tinfo_name(self, o):
        if isinstance(o, tuple) and o[0] == 'std':
            return o[1]
        if isinstance(o, int):
            return self.gobj[o].name
        return None

    def type_match(self, tinfo, name):
        r = []
        for g, o, f in tinfo.alts:
            n = self.tinfo_name(o)
            if n is not None and name in self.bases(n):
                r.append(g)
        return or_(*r) if r else FALSE

    def throw_std(self, st, tname):
        oid = self.new_obj(st, 64, 'undef', 'exception')
        key = ('std', tname)
        st.exc = (obj_ptr(oid), Ptr(((TRUE, key, bv(0, 64)),)))
        return None, None, st

    # ------------------------------------------------------------ calls
    def do_call(self, fn, ins, st, regs, excs, allocas):
        callee = ins[3]
        if callee[0] == 'asm':
            return st, Undef(ins[2]), None
        args = [None if a[0] == 'md' else self.val(a, regs) for a in ins[4]]
        if callee[0] == 'fn':
            return self.call_named(callee[1], args, st, ins, allocas)
        p = self.as_ptr(self.val(callee, regs))
        alts = [(g, o) for g, o, f in p.alts if isinstance(o, tuple) and o[0] == 'fn']
        ok = or_(*[g for g, _ in alts]) if alts else FALSE
        if not self.check(st, ok, 'valid-indirect-call', 'safety'):
            return None, None, None
        if len(alts) == 1:
            return self.call_named(alts[0][1][1], args, st, ins, allocas)
        rs = None
        rv = None
        es = None
        for g, o in alts:
            s = st.fork()
            if not s.assume(g):
                continue
            n, v, e = self.call_named(o[1], args, s, ins, allocas)
            if n is not None:
                if rs is None:
                    rs, rv = n, v
                else:
                    rs, sel = self.merge(rs, n)
                    rv = merge_val(sel, rv, v) if v is not None else None
            if e is not None:
                es = e if es is None else self.merge(es, e)[0]
        return rs, rv, es

    def call_named(self, name, args, st, ins, allocas):
        from . import models
        rep = self.replace.get(name)
        if rep is not None and rep not in self.fnstack and name not in self.opts.get('noreplace', ()):
            self.replaced[name] = self.replaced.get(name, 0) + 1
            return self.call_fn(rep, args, st)
        h = models.lookup(name)
        if h is not None:
            return h(self, st, args, ins, name, allocas)
        if name in self.m.aliases:
            from . import llvm
            name = llvm.vname(self.m.aliases[name])
        if self.m.has_body(name):
            # byval copies are made by the callee
            return self.call_fn(name, args, st)
        raise Unsupported('call to external function ' + name)

    # ------------------------------------------------------------ loop contracts (see loops.py)
    def loop_enter(self, fn, b, specs, s, regs):
        from . import loops
        return loops.enter(self, fn, b, specs, s, regs)

    def loop_back(self, fn, b, frame, s, nr):
        from . import loops
        return loops.back(self, fn, b, frame, s, nr)


def uses(ins):
    """registers read by an instruction"""
    out = []

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
                out.append(x[1])
            else:
                for y in x:
                    w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    for x in ins[1:]:
        w(x)
    return out


def liveness(fn):
    n = len(fn.blocks)
    use = []
    dfn = []
    for B in fn.blocks:
        u, d = set(), set(p[0] for p in B.phis)
        for i in B.ins:
            for r in uses(i):
                if r not in d:
                    u.add(r)
            if i[0] in ('call', 'invoke', 'load', 'gep', 'icmp', 'fcmp', 'alloca', 'extractvalue', 'insertvalue',
                        'landingpad', 'cmpxchg', 'atomicrmw', 'shufflevector') or (isinstance(i[1:2], tuple) and len(i) > 1 and isinstance(i[1], int) and i[0] not in ('br', 'cbr', 'unreachable', 'fence', 'switch', 'ret', 'store', 'resume')):
                d.add(i[1])
        use.append(u)
        dfn.append(d)
    live_in = [set() for _ in range(n)]
    sc = [list(dict.fromkeys(succs(b))) for b in fn.blocks]
    ch = True
    order = list(range(n))[::-1]
    while ch:
        ch = False
        for b in order:
            out = set()
            for s in sc[b]:
                out |= live_in[s]
                for d, ty, inc in fn.blocks[s].phis:
                    x = inc.get(b)
                    if x is not None and x[0] == 'r':
                        out.add(x[1])
                # phi defs are not live-in over the edge
            new = use[b] | (out - dfn[b])
            if new != live_in[b]:
                live_in[b] = new
                ch = True
    return live_in
