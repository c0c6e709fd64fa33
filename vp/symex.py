"""Symbolic executor for the LLVM IR subset parsed by irparse.

Inputs are SMT variables.  Branches on symbolic conditions are executed on both sides; in `merge` mode the two
sides are joined at the immediate post-dominator (values become if-then-else terms), in `fork` mode each path is
kept apart and infeasible ones are discarded by the solver.  Anything that must not happen (a UBSan trap compiled
into the IR, an out-of-bounds access, an uncaught exception, a loop running past the unwinding bound, ...) is
recorded as an Event together with the path condition under which it happens."""
import re
import sys
import time
import z3
from . import bv
from .bv import BV
from .irparse import materialize, Opd, INT, PTR, Ty, IRError

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Fork(Exception):
    def __init__(s, cond):
        s.cond = cond


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off=0):
        s.o, s.off = o, off

    def __repr__(s):
        return 'Ptr(%s,%s)' % (s.o, s.off)


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('size', 'cells', 'name', 'const', 'alive')

    def __init__(s, size, cells, name, const=False):
        s.size, s.cells, s.name, s.const, s.alive = size, cells, name, const, True

    def copy(s):
        o = Obj(s.size, dict(s.cells), s.name, s.const)
        o.alive = s.alive
        return o


class State:
    __slots__ = ('regs', 'mem', 'own', 'pc', 'asm', 'cnt', 'exc', 'al', 'lf', 'lw', 'lc')

    def __init__(s):
        s.regs, s.mem, s.own, s.pc, s.asm, s.cnt, s.exc, s.al, s.lf = {}, {}, set(), (), {}, {}, None, [], {}
        s.lw, s.lc = {}, {}

    def fork(s):
        n = State()
        n.regs, n.mem, n.own, n.pc, n.asm, n.cnt, n.exc, n.al = (dict(s.regs), dict(s.mem), set(), s.pc, s.asm,
                                                                  dict(s.cnt), s.exc, list(s.al))
        # facts about linear forms belong to one path (bv.LIN)
        n.lf, n.lw, n.lc = dict(s.lf), dict(s.lw), dict(s.lc)
        s.own = set()
        return n


class Event:
    def __init__(s, kind, pc, detail):
        s.kind, s.pc, s.detail = kind, pc, detail


def conj(cs):
    cs = [c for c in cs]
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(cs)


BASES = {'_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
         '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
         '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
         '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
         '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt12format_error': '_ZTISt13runtime_error',
         '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception'}

RM = z3.RNE()
FPS = {'float': z3.FPSort(8, 24), 'double': z3.FPSort(11, 53), 'x86_fp80': z3.FPSort(15, 64)}
FPB = {'float': 4, 'double': 8, 'x86_fp80': 10}


def fpconst(t, ty):
    import struct
    if t.startswith('0xK'):
        v = int(t[3:], 16)
        return fp80(v)
    if t.startswith('0x'):
        v = int(t[2:], 16)
        d = z3.fpBVToFP(z3.BitVecVal(v, 64), FPS['double'])
        if ty.k == 'float':
            f = struct.unpack('<d', struct.pack('<Q', v))[0]
            return z3.fpBVToFP(z3.BitVecVal(struct.unpack('<I', struct.pack('<f', f))[0], 32), FPS['float'])
        return z3.simplify(d)
    f = float(t)
    if ty.k == 'float':
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(struct.unpack('<I', struct.pack('<f', f))[0], 32), FPS['float']))
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(struct.unpack('<Q', struct.pack('<d', f))[0], 64), FPS['double']))


def fp80(v):
    sign = v >> 79
    e = (v >> 64) & 0x7fff
    m = v & ((1 << 64) - 1)
    frac = m & ((1 << 63) - 1)
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal((sign << 78) | (e << 63) | frac, 79), FPS['x86_fp80']))


class Exec:
    def __init__(s, module, mode='merge', unwind=70, max_steps=3000000, feas_ms=2000, max_paths=20000, check_all=None,
                 deadline=None):
        s.m = module
        s.mode = mode
        s.unwind = unwind
        s.events = []
        s.nobj = 0
        s.base = {}
        s.globid = {}
        s.steps = 0
        s.maxsteps = max_steps
        s.feas_ms = feas_ms
        s.fs = None
        s.cvars, s.slice_cache, s.skolems = {}, {}, set()
        s.fstack = []
        s.nfeas = 0
        s.nbranch = 0
        s.npaths = 0
        s.maxpaths = max_paths
        s.funcs = set()
        s.icmps = {}
        s.tiid = {}
        s.sizes = {}
        s.hooks = {}
        s.deadline = deadline
        s.check_all = (mode == 'fork') if check_all is None else check_all
        s.keep = []       # keep z3 terms alive whose ids are used as keys
        s.stubs = set()

    # ------------------------------------------------------------------ layout
    def resolve(s, t):
        while t.k == 'named':
            t = s.m.types[t.name]
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            n = (t.n + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            return a
        if t.k == 'ptr' or t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'arr':
            return s.align(t.el)
        if t.k == 'vec':
            return s.size(t)
        if t.k == 'struct':
            if t.packed:
                return 1
            return max([s.align(e) for e in t.el] or [1])
        raise Unsupported('align %r' % t)

    def size(s, t):
        key = id(t)
        v = s.sizes.get(key)
        if v is not None and v[0] is t:
            return v[1]
        r = s._size(t)
        s.sizes[key] = (t, r)
        return r

    def _size(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            n = (t.n + 7) // 8
            a = s.align(t)
            return (n + a - 1) // a * a
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'arr':
            return t.n * s.size(t.el)
        if t.k == 'vec':
            return t.n * s.size(t.el)
        if t.k == 'struct':
            o = 0
            for e in t.el:
                a = 1 if t.packed else s.align(e)
                o = (o + a - 1) // a * a + s.size(e)
            a = s.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size %r' % t)

    def offset(s, t, i):
        t = s.resolve(t)
        o = 0
        for k, e in enumerate(t.el):
            a = 1 if t.packed else s.align(e)
            o = (o + a - 1) // a * a
            if k == i:
                return o
            o += s.size(e)
        raise Unsupported('offset')

    # ------------------------------------------------------------------ values
    def fresh(s, t, name='u'):
        t = s.resolve(t)
        if t.k == 'int':
            if t.n == 1:
                return z3.Bool(bv.fresh_name(name))
            return BV(z3.BitVec(bv.fresh_name(name), t.n), t.n)
        if t.k == 'ptr':
            return NULL
        if t.k in FPS:
            return z3.FP(bv.fresh_name(name), FPS[t.k])
        if t.k in ('struct',):
            return [s.fresh(e, name) for e in t.el]
        if t.k in ('arr', 'vec'):
            return [s.fresh(t.el, name) for _ in range(t.n)]
        raise Unsupported('fresh %r' % t)

    def zero(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            return 0
        if t.k == 'ptr':
            return NULL
        if t.k in FPS:
            return z3.FPVal(0.0, FPS[t.k])
        if t.k == 'struct':
            return [s.zero(e) for e in t.el]
        return [s.zero(t.el) for _ in range(t.n)]

    def glob(s, name):
        while name in s.m.aliases:
            name = s.m.aliases[name]
        i = s.globid.get(name)
        if i is not None:
            return i
        if name in s.m.globs:
            s.nobj += 1
            i = s.nobj
            s.globid[name] = i
            t, init, const = s.m.globs[name]
            try:
                sz = s.size(t)
            except (Unsupported, KeyError):
                sz = None
            o = Obj(sz, {}, name, const)
            s.base[i] = o
            if init is not None:
                try:
                    s.initobj(o, 0, t, init)
                except Unsupported:
                    pass
            return i
        i = 'fn:' + name
        s.globid[name] = i
        return i

    def initobj(s, o, off, t, v):
        t = s.resolve(t)
        if v.k == 'zero':
            if t.k == 'arr' or t.k == 'vec':
                es = s.size(t.el)
                for k in range(t.n):
                    s.initobj(o, off + k * es, t.el, Opd('zero', None, t.el))
            elif t.k == 'struct':
                for k, e in enumerate(t.el):
                    s.initobj(o, off + s.offset(t, k), e, Opd('zero', None, e))
            else:
                o.cells[off] = (s.size(t), s.zero(t))
            return
        if v.k == 'str':
            for k, b in enumerate(v.v):
                o.cells[off + k] = (1, b)
            return
        if v.k == 'agg':
            if t.k == 'struct':
                for k, e in enumerate(v.v):
                    s.initobj(o, off + s.offset(t, k), e.ty, e)
            else:
                es = s.size(t.el)
                for k, e in enumerate(v.v):
                    s.initobj(o, off + k * es, e.ty, e)
            return
        if v.k == 'undef':
            return
        val = s.opd(None, v)
        if t.k == 'x86_fp80':
            o.cells[off] = (10, val)
        else:
            o.cells[off] = (s.size(t), val)

    def opd(s, st, o):
        k = o.k
        if k == 'reg':
            return st.regs[o.v]
        if k == 'int':
            return o.v
        if k == 'null':
            return NULL
        if k == 'glob':
            return Ptr(s.glob(o.v), 0)
        if k == 'fp':
            return fpconst(o.v, o.ty)
        if k == 'undef':
            return s.fresh(o.ty)
        if k == 'zero':
            return s.zero(o.ty)
        if k == 'agg':
            return [s.opd(st, e) for e in o.v]
        if k == 'str':
            return list(o.v)
        if k == 'expr':
            return s.cexpr(st, o)
        if k == 'meta':
            return None
        raise Unsupported('operand %r' % o)

    def cexpr(s, st, o):
        x = o.v
        if x[0] == 'gep':
            base = s.opd(st, x[2][0])
            return s.gep(st, x[1], base, [(a.ty, s.opd(st, a)) for a in x[2][1:]])
        if x[0] in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            return s.cast(x[0], s.opd(st, x[1]), x[1].ty, x[2])
        if x[0] in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or'):
            a, b = [s.opd(st, e) for e in x[2]]
            return s.binop(st, x[0], a, b, x[2][0].ty)
        raise Unsupported('cexpr ' + x[0])

    def addr(s, p, w=64):
        if isinstance(p.o, str):
            base = (0x7000 + (hash(p.o) & 0xfff)) << 44
        else:
            base = 0 if p.o == 0 else (p.o << 36)
        return bv.add(base & bv.mask(64), p.off if not isinstance(p.off, int) else p.off & bv.mask(64), 64)

    def toptr(s, v):
        if isinstance(v, int):
            if v == 0:
                return NULL
            return Ptr(v >> 36, v & ((1 << 36) - 1))
        raise Unsupported('inttoptr symbolic')

    def gep(s, st, ty, base, idx):
        if isinstance(base, list):
            raise Unsupported('vector gep')
        off = base.off
        t = ty
        for n, (ity, iv) in enumerate(idx):
            if n == 0:
                sz = s.size(t)
            else:
                t = s.resolve(t)
                if t.k == 'struct':
                    off = s.ptradd(off, s.offset(t, iv))
                    t = t.el[iv]
                    continue
                t = t.el
                sz = s.size(t)
            if isinstance(iv, int):
                off = s.ptradd(off, bv.sg(iv, ity.n) * sz)
            else:
                e = bv.sext(iv, ity.n, 64) if ity.n < 64 else iv
                off = s.ptradd(off, bv.mul(e, sz, 64))
        return Ptr(base.o, off)

    def ptradd(s, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        a2 = a & bv.mask(64) if isinstance(a, int) else a
        b2 = b & bv.mask(64) if isinstance(b, int) else b
        r = bv.add(a2, b2, 64)
        if isinstance(r, int):
            r = bv.sg(r, 64)
        return r

    # ------------------------------------------------------------------ memory
    def getobj(s, st, i):
        o = st.mem.get(i)
        if o is None:
            o = s.base.get(i)
        return o

    def wobj(s, st, i):
        if i in st.own:
            return st.mem[i]
        o = s.getobj(st, i)
        if o is None:
            return None
        o = o.copy()
        st.mem[i] = o
        st.own.add(i)
        return o

    def alloc(s, st, size, name):
        s.nobj += 1
        i = s.nobj
        st.mem[i] = Obj(size, {}, name)
        st.own.add(i)
        return i

    def bytes_of(s, n, val):
        """list of n byte values (int/BV8) of a stored cell value"""
        if isinstance(val, Ptr):
            if val.o == 0 and isinstance(val.off, int):
                val = val.off
            else:
                raise Unsupported('byte access to pointer')
        if z3.is_fp(val):
            val = BV(z3.fpToIEEEBV(val), 8 * n)
        if z3.is_bool(val):
            val = bv.b2bv(val, 8)
        return [bv.trunc(bv.lshr(val, 8 * k, 8 * n), 8 * n, 8) if n > 1 else val for k in range(n)]

    def from_bytes(s, bs):
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        t = z3.Concat(*[bv.term(b, 8) for b in reversed(bs)])
        hi = bs[-1]
        w = 8 * len(bs)
        if isinstance(hi, int):
            # known top byte gives an interval
            top = bv.sg(hi, 8) << (w - 8)
            return BV(t, w, top, top + (1 << (w - 8)) - 1)
        return BV(t, w)

    def split(s, o, lo, hi):
        """make cell boundaries at lo and hi (break partially overlapped cells into bytes)"""
        for c in list(o.cells):
            n, v = o.cells[c]
            if c < hi and c + n > lo and not (lo <= c and c + n <= hi):
                bs = s.bytes_of(n, v)
                del o.cells[c]
                for k, b in enumerate(bs):
                    o.cells[c + k] = (1, b)

    def conv(s, v, t):
        t = s.resolve(t)
        if t.k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if z3.is_fp(v):
                raise Unsupported('fp as ptr')
            return s.toptr(v)
        if t.k == 'int':
            if isinstance(v, Ptr):
                return s.addr(v)
            if z3.is_fp(v):
                return BV(z3.fpToIEEEBV(v), t.n)
            if t.n == 1:
                if isinstance(v, int):
                    return v & 1
                if z3.is_bool(v):
                    return v
                return z3.Extract(0, 0, v.t) == 1
            if z3.is_bool(v):
                return bv.b2bv(v, t.n)
            if isinstance(v, BV) and v.w > t.n:
                return bv.trunc(v, v.w, t.n)
            return v
        if t.k in FPS:
            if z3.is_fp(v):
                return v
            if t.k == 'x86_fp80':
                raise Unsupported('int as fp80')
            return z3.simplify(z3.fpBVToFP(bv.term(v, 8 * FPB[t.k]), FPS[t.k]))
        raise Unsupported('conv %r' % t)

    def cellsize(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            return (t.n + 7) // 8
        if t.k == 'x86_fp80':
            return 10
        return s.size(t)

    def load(s, st, p, t):
        t = s.resolve(t)
        if t.k == 'struct':
            return [s.load(st, Ptr(p.o, s.ptradd(p.off, s.offset(t, k))), e) for k, e in enumerate(t.el)]
        if t.k in ('arr', 'vec'):
            es = s.size(t.el)
            return [s.load(st, Ptr(p.o, s.ptradd(p.off, k * es)), t.el) for k in range(t.n)]
        o = s.getobj(st, p.o)
        n = s.cellsize(t)
        if o is None or not o.alive:
            s.event('oob', st, 'load through invalid pointer %r (%s)' % (p, getattr(o, 'name', None)))
            return s.fresh(t)
        if isinstance(p.off, int):
            if p.off < 0 or (o.size is not None and p.off + n > o.size):
                s.event('oob', st, 'load %d bytes at offset %d of %s (size %s)' % (n, p.off, o.name, o.size))
                return s.fresh(t)
            return s.loadc(st, p.o, o, p.off, n, t)
        off = p.off
        s.boundcheck(st, o, off, n, 'load')
        lo, hi = max(off.lo, 0), off.hi
        if o.size is not None:
            hi = min(hi, o.size - n)
        else:
            raise Unsupported('symbolic offset into unsized object %s' % o.name)
        cands = [c for c in sorted(o.cells) if lo <= c <= hi and o.cells[c][0] == n]
        if not cands:
            # fall back to every byte position
            if hi - lo > 64:
                raise Unsupported('symbolic load w/o cells in %s' % o.name)
            cands = list(range(lo, hi + 1, n))
        if len(cands) > 5000:
            raise Unsupported('too many candidates')
        if bv.LIN[0] and s.mode == 'fork' and t.k == 'int' and n == 1:
            # a table that is affine in the index (digit characters)
            lo, hi = bv.rngf(off, 64)
            lo, hi = max(lo, 0), min(hi, o.size - n)
            if hi - lo < 64 and all(k in o.cells and o.cells[k][0] == 1 and isinstance(o.cells[k][1], int) for k in range(lo, hi + 1)):
                v0 = o.cells[lo][1]
                kink = next((k for k in range(lo, hi + 1) if o.cells[k][1] != v0 + k - lo), None)
                if kink is None and v0 + hi - lo < 128:
                    return bv.trunc(bv.add(off, (v0 - lo) & bv.mask(64), 64), 64, 8)
        r = None
        ok = []
        for c in cands:
            v = s.loadc(st, p.o, o, c, n, t)
            cond = off.t == z3.BitVecVal(c, 64)
            ok.append(cond)
            r = v if r is None else s.ite(cond, v, r, t)
        if len(cands) < (hi - lo + 1):
            s.event('badoff', st, 'offset outside modelled cells of %s' % o.name, z3.Not(z3.Or(ok)))
        return r

    def boundcheck(s, st, o, off, n, what):
        if o.size is None:
            return
        conds = []
        if off.lo < 0:
            conds.append(off.t < 0)
        if off.hi > o.size - n:
            conds.append(off.t > o.size - n)
        if conds:
            s.event('oob', st, '%s at symbolic offset of %s (size %d)' % (what, o.name, o.size), z3.Or(conds))

    def loadc(s, st, oid, o, off, n, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return s.conv(c[1], t)
        # assemble
        bs = [None] * n
        miss = True
        for c0, (m, v) in o.cells.items():
            if c0 < off + n and c0 + m > off:
                if m == n and c0 == off:
                    pass
                b = s.bytes_of(m, v)
                for k in range(m):
                    q = c0 + k - off
                    if 0 <= q < n:
                        bs[q] = b[k]
                        miss = False
        if miss:
            v = s.fresh(t, 'undef')
            w = s.wobj(st, oid) if not o.const else None
            if w is not None:
                w.cells[off] = (n, v)
            return v
        bs = [b if b is not None else BV(z3.BitVec(bv.fresh_name('undef'), 8), 8) for b in bs]
        return s.conv(s.from_bytes(bs), t)

    def store(s, st, p, v, t):
        t = s.resolve(t)
        if t.k == 'struct':
            for k, e in enumerate(t.el):
                s.store(st, Ptr(p.o, s.ptradd(p.off, s.offset(t, k))), v[k], e)
            return
        if t.k in ('arr', 'vec'):
            es = s.size(t.el)
            for k in range(t.n):
                s.store(st, Ptr(p.o, s.ptradd(p.off, k * es)), v[k], t.el)
            return
        o = s.getobj(st, p.o)
        n = s.cellsize(t)
        if o is None or not o.alive:
            s.event('oob', st, 'store through invalid pointer %r' % p)
            return
        if o.const:
            s.event('oob', st, 'store to constant %s' % o.name)
            return
        if isinstance(p.off, int):
            if p.off < 0 or (o.size is not None and p.off + n > o.size):
                s.event('oob', st, 'store %d bytes at offset %d of %s (size %s)' % (n, p.off, o.name, o.size))
                return
            o = s.wobj(st, p.o)
            c = o.cells.get(p.off)
            if not (c is not None and c[0] == n):
                s.split(o, p.off, p.off + n)
                for k in range(n):
                    o.cells.pop(p.off + k, None)
            o.cells[p.off] = (n, v)
            return
        off = p.off
        s.boundcheck(st, o, off, n, 'store')
        if o.size is None:
            raise Unsupported('symbolic store to unsized')
        lo, hi = max(off.lo, 0), min(off.hi, o.size - n)
        o = s.wobj(st, p.o)
        # element grid: multiples of n
        cands = [c for c in range(lo, hi + 1) if c % n == 0]
        if len(cands) > 2048:
            raise Unsupported('too many store candidates')
        ok = []
        for c in cands:
            old = s.loadc(st, p.o, o, c, n, t)
            cond = off.t == z3.BitVecVal(c, 64)
            ok.append(cond)
            cc = o.cells.get(c)
            if not (cc is not None and cc[0] == n):
                s.split(o, c, c + n)
                for k in range(n):
                    o.cells.pop(c + k, None)
            o.cells[c] = (n, s.ite(cond, v, old, t))
        if n > 1:
            s.event('badoff', st, 'unaligned symbolic store', z3.Not(z3.Or(ok)))

    def memcpy(s, st, d, sp, n):
        if not isinstance(n, int):
            n = s.concretize(st, n, 64)
        if n == 0:
            return
        so = s.getobj(st, sp.o)
        do = s.getobj(st, d.o)
        if so is None or do is None or not so.alive or not do.alive:
            s.event('oob', st, 'memcpy with invalid pointer')
            return
        for off_, w in ((sp.off, 's'), (d.off, 'd')):
            if not isinstance(off_, int):
                raise Unsupported('memcpy symbolic offset')
        if sp.off < 0 or (so.size is not None and sp.off + n > so.size):
            s.event('oob', st, 'memcpy reads %d bytes at %d of %s (size %s)' % (n, sp.off, so.name, so.size))
            return
        if d.off < 0 or (do.size is not None and d.off + n > do.size):
            s.event('oob', st, 'memcpy writes %d bytes at %d of %s (size %s)' % (n, d.off, do.name, do.size))
            return
        items = []
        for c, (m, v) in so.cells.items():
            if c < sp.off + n and c + m > sp.off:
                if sp.off <= c and c + m <= sp.off + n:
                    items.append((c - sp.off, m, v))
                else:
                    for k, b in enumerate(s.bytes_of(m, v)):
                        if sp.off <= c + k < sp.off + n:
                            items.append((c + k - sp.off, 1, b))
        do = s.wobj(st, d.o)
        s.split(do, d.off, d.off + n)
        for c in [c for c in do.cells if d.off <= c < d.off + n]:
            del do.cells[c]
        for c, m, v in items:
            do.cells[d.off + c] = (m, v)

    def concretize(s, st, v, w):
        """make a symbolic value concrete by forking over its feasible values"""
        if isinstance(v, int):
            return v
        if v.t.get_id() in st.asm:
            return st.asm[v.t.get_id()]
        # pick a feasible value, fork on equality
        sol = s.feas_solver(st.pc)
        r = sol.check()
        if r != z3.sat:
            raise Unsupported('concretize: %s' % r)
        c = sol.model().eval(v.t, model_completion=True).as_long()
        cond = v.t == z3.BitVecVal(c, v.w)
        raise ForkVal(cond, v.t, c)

    # ------------------------------------------------------------------ ite / merge
    def ite(s, c, a, b, t=None):
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, list):
            return [s.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise NoMerge('ptr/int')
            if a.o == b.o:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                if s.mode == 'fork':
                    raise NoMerge('ptr off')
                x = a.off & bv.mask(64) if isinstance(a.off, int) else a.off
                y = b.off & bv.mask(64) if isinstance(b.off, int) else b.off
                r = bv.ite(c, x, y, 64)
                return Ptr(a.o, bv.sg(r, 64) if isinstance(r, int) else r)
            raise NoMerge('ptr obj')
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if t is not None and s.resolve(t).k == 'int':
                w = s.resolve(t).n
                if w == 1:
                    return c if a else z3.Not(c)
                return bv.ite(c, a, b, w)
            raise NoMerge('untyped ints')
        if z3.is_bool(a) or z3.is_bool(b):
            if isinstance(a, BV) or isinstance(b, BV):
                w = a.w if isinstance(a, BV) else b.w
                return bv.ite(c, bv.b2bv(a, w) if not isinstance(a, BV) else a,
                              bv.b2bv(b, w) if not isinstance(b, BV) else b, w)
            return z3.If(c, bv.b2z(a), bv.b2z(b))
        if isinstance(a, BV) or isinstance(b, BV):
            w = a.w if isinstance(a, BV) else b.w
            return bv.ite(c, a, b, w)
        if z3.is_fp(a):
            return z3.If(c, a, b)
        raise NoMerge('kind')

    def merge(s, fn, blk, sts):
        out = []
        for st in sts:
            done = False
            for i, o in enumerate(out):
                try:
                    m = s.merge2(fn, blk, o, st)
                except (NoMerge, Unsupported):
                    continue
                out[i] = m
                done = True
                break
            if not done:
                out.append(st)
        return out

    def merge2(s, fn, blk, a, b):
        if a.exc is not b.exc:
            raise NoMerge('exc')
        k = 0
        na, nb = len(a.pc), len(b.pc)
        while k < na and k < nb and a.pc[k] is b.pc[k]:
            k += 1
        sa, sb = a.pc[k:], b.pc[k:]
        ca = conj(sa)
        n = State()
        live = fn.livein[blk] if blk is not None else ()
        for r in live:
            x = a.regs.get(r, None)
            y = b.regs.get(r, None)
            if x is None or y is None:
                continue
            n.regs[r] = x if x is y else s.ite(ca, x, y, fn.rty.get(r))
        for i in set(a.mem) | set(b.mem):
            x, y = a.mem.get(i), b.mem.get(i)
            if x is y:
                n.mem[i] = x
                continue
            if x is None or y is None:
                if i in s.base:
                    x = x or s.base[i]
                    y = y or s.base[i]
                else:
                    n.mem[i] = x or y
                    continue
            if x.alive != y.alive or x.size != y.size:
                raise NoMerge('obj')
            n.mem[i] = s.mergeobj(ca, x, y)
        # path condition
        comp = False
        if len(sa) >= 1 and len(sb) >= 1:
            f, g = sa[0], sb[0]
            if (z3.is_not(f) and f.arg(0).eq(g)) or (z3.is_not(g) and g.arg(0).eq(f)):
                comp = True
        if comp:
            if len(sa) == 1 and len(sb) == 1:
                n.pc = a.pc[:k]
            elif len(sa) == 1:
                n.pc = a.pc[:k] + (z3.Or(sa[0], conj(sb[1:])),)
            elif len(sb) == 1:
                n.pc = a.pc[:k] + (z3.Or(sb[0], conj(sa[1:])),)
            else:
                n.pc = a.pc[:k] + (z3.Or(ca, conj(sb)),)
        elif not sa or not sb:
            n.pc = a.pc[:k]
        else:
            n.pc = a.pc[:k] + (z3.Or(ca, conj(sb)),)
        n.asm = {k_: v for k_, v in a.asm.items() if b.asm.get(k_) == v} if a.asm or b.asm else {}
        n.cnt = {k_: max(a.cnt.get(k_, 0), b.cnt.get(k_, 0)) for k_ in set(a.cnt) | set(b.cnt)}
        n.exc = a.exc
        n.al = list(a.al) + [i for i in b.al if i not in a.al]
        return n

    def mergeobj(s, ca, x, y):
        o = Obj(x.size, {}, x.name, x.const)
        xc, yc = x.cells, y.cells
        same = all(c in yc and yc[c][0] == xc[c][0] for c in xc) and len(xc) == len(yc)
        if not same:
            # compare layouts on overlapping cells
            xs, ys = None, None
            cov = {}
            for c, (n, _) in xc.items():
                for k in range(n):
                    cov[c + k] = (c, n)
            bad = False
            for c, (n, _) in yc.items():
                for k in range(n):
                    q = cov.get(c + k)
                    if q is not None and q != (c, n):
                        bad = True
            if bad:
                xs, ys = {}, {}
                for src, dst in ((xc, xs), (yc, ys)):
                    for c, (n, v) in src.items():
                        for k, b in enumerate(s.bytes_of(n, v)):
                            dst[c + k] = (1, b)
                xc, yc = xs, ys
        for c in set(xc) | set(yc):
            p, q = xc.get(c), yc.get(c)
            if p is None or q is None:
                o.cells[c] = p or q
            elif p[1] is q[1]:
                o.cells[c] = p
            else:
                a_, b_ = p[1], q[1]
                if isinstance(a_, int) and isinstance(b_, int):
                    o.cells[c] = (p[0], bv.ite(ca, a_, b_, 8 * p[0]))
                else:
                    if isinstance(a_, Ptr) and isinstance(b_, int) and b_ == 0:
                        b_ = NULL
                    if isinstance(b_, Ptr) and isinstance(a_, int) and a_ == 0:
                        a_ = NULL
                    o.cells[c] = (p[0], s.ite(ca, a_, b_))
        return o

    # ------------------------------------------------------------------ feasibility
    def feas_solver(s, pc):
        if s.fs is None:
            s.fs = z3.SolverFor('QF_BV') if not s.usefp else z3.Solver()
            s.fs.set('timeout', s.feas_ms)
            for c in s.pre:
                s.fs.add(c)
            s.fax = len(bv.AXIOMS)
            for c in bv.AXIOMS:
                s.fs.add(c)
            s.fstack = []
        if len(bv.AXIOMS) != s.fax:
            # pop all, add axioms at base
            if s.fstack:
                s.fs.pop(len(s.fstack))
                s.fstack = []
            for c in bv.AXIOMS[s.fax:]:
                s.fs.add(c)
            s.fax = len(bv.AXIOMS)
        k = 0
        while k < len(s.fstack) and k < len(pc) and s.fstack[k] is pc[k]:
            k += 1
        if k < len(s.fstack):
            s.fs.pop(len(s.fstack) - k)
            del s.fstack[k:]
        for c in pc[k:]:
            s.fs.push()
            s.fs.add(c)
            s.fstack.append(c)
        return s.fs

    usefp = False
    nofeas_below = 0     # loop iterations up to this one are explored without asking whether the path is feasible
    feas_s = 0.0


    def vars_of(s, c):
        i = c.get_id()
        r = s.cvars.get(i)
        if r is None:
            r, todo, seen = set(), [c], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(x.get_id())
                    if '!' in x.decl().name():
                        s.skolems.add(x.get_id())
                else:
                    todo.extend(x.children())
            s.cvars[i] = r
            s.keep.append(c)
        return r

    def feasible_sliced(s, pc):
        """only the conditions connected to the newest one matter: the others were satisfiable before"""
        rest = list(pc[:-1]) + s.pre + bv.AXIOMS
        na = len(pc) - 1 + len(s.pre)
        rest = [(c, k >= na) for k, c in enumerate(rest)]
        vs = set(s.vars_of(pc[-1]))
        use = [pc[-1]]
        grew = True
        while grew:
            grew, nxt = False, []
            for ca in rest:
                c, ax = ca
                cv = s.vars_of(c)
                # an axiom only defines its own fresh variable
                if (cv & s.skolems if ax else cv) & vs:
                    use.append(c)
                    if not cv <= vs:
                        vs |= cv
                        grew = True
                else:
                    nxt.append(ca)
            rest = nxt
        key = frozenset(c.get_id() for c in use)
        r = s.slice_cache.get(key)
        if r is None:
            sol = z3.SolverFor('QF_BV')
            sol.set('timeout', s.feas_ms)
            sol.add(*use)
            t0 = time.time()
            r = sol.check()
            s.nfeas += 1
            s.feas_s += time.time() - t0
            s.slice_cache[key] = r
        return r != z3.unsat

    lra = False          # values are real terms (linear relaxation)

    def feasible(s, pc):
        if s.lra:
            sol = z3.SolverFor('QF_LRA')
            sol.set('timeout', s.feas_ms)
            sol.add(*(s.pre + bv.AXIOMS + list(pc)))
            t0 = time.time()
            r = sol.check()
            s.nfeas += 1
            s.feas_s += time.time() - t0
            return r != z3.unsat
        if bv.LIN[0] and s.mode == 'fork' and pc and not s.usefp:
            return s.feasible_sliced(pc)
        s.nfeas += 1
        sol = s.feas_solver(pc)
        t0 = time.time()
        r = sol.check()
        s.feas_s += time.time() - t0
        return r != z3.unsat

    def event(s, kind, st, detail, cond=None):
        pc = st.pc
        if cond is not None:
            pc = pc + (cond,)
        s.events.append(Event(kind, pc, detail))

    # ------------------------------------------------------------------ execution
    def prep(s, f):
        if f.raw or not hasattr(f, 'livein'):
            materialize(f, s.m)
            s.liveness(f)
        return f

    def liveness(s, f):
        use, defs, rty = {}, {}, {}
        from .irparse import succs

        def ops(o, acc):
            if o is None:
                return
            if o.k == 'reg':
                acc.add(o.v)
            elif o.k == 'agg':
                for e in o.v:
                    ops(e, acc)
        phiuse = {b: {} for b in f.order}
        f.trapblk = set()
        for (t, nm) in f.params:
            rty[nm] = t
        for b in f.order:
            u, d = set(), set()
            for ins in f.blocks[b]:
                if ins.op == 'phi':
                    for l, v in ins.x.items():
                        acc = set()
                        ops(v, acc)
                        phiuse[b].setdefault(l, set()).update(acc)
                    d.add(ins.dst)
                    rty[ins.dst] = ins.ty
                    continue
                acc = set()
                for a in ins.a:
                    ops(a, acc)
                if ins.op in ('call', 'invoke'):
                    ops(ins.x['callee'], acc)
                u |= acc - d
                if ins.dst:
                    d.add(ins.dst)
                    if ins.op not in ('icmp', 'fcmp', 'gep', 'alloca', 'extractvalue'):
                        rty[ins.dst] = ins.ty
                    elif ins.op in ('icmp', 'fcmp'):
                        rty[ins.dst] = INT(1)
                    elif ins.op in ('gep', 'alloca'):
                        rty[ins.dst] = PTR
                    elif ins.op == 'extractvalue':
                        t = ins.ty
                        try:
                            for i in ins.x:
                                t = s.resolve(t)
                                t = t.el[i] if t.k == 'struct' else t.el
                            rty[ins.dst] = t
                        except Exception:
                            pass
            use[b], defs[b] = u, d
            nonphi = [i for i in f.blocks[b] if i.op != 'phi']
            if len(nonphi) <= 2 and nonphi[-1].op == 'unreachable' and nonphi[0].op == 'call' and \
                    nonphi[0].x['callee'].k == 'glob' and nonphi[0].x['callee'].v in ('@llvm.ubsantrap', '@llvm.trap'):
                f.trapblk.add(b)
        livein = {b: set(use[b]) for b in f.order}
        S = {b: succs(f.blocks[b][-1]) for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                lo = set()
                for x in S[b]:
                    lo |= livein[x] - set(i.dst for i in f.blocks[x][:f.phis[x]])
                    lo |= phiuse[x].get(b, set())
                li = use[b] | (lo - defs[b])
                if li != livein[b]:
                    livein[b] = li
                    ch = True
        # arriving state is past the phis: phi results are live when used anywhere
        for b in f.order:
            for i in f.blocks[b][:f.phis[b]]:
                livein[b].add(i.dst)
        f.livein = livein
        f.rty = rty
        # which branches decide whether a loop goes on: some successor cannot come back
        idx = {b: i for i, b in enumerate(f.order)}
        reach = {b: 0 for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                v = reach[b]
                for x in S[b]:
                    v |= (1 << idx[x]) | reach[x]
                if v != reach[b]:
                    reach[b] = v
                    ch = True
        f.loopexit = set()
        for b in f.order:
            if (reach[b] >> idx[b]) & 1 and any(x != b and not (reach[x] >> idx[b]) & 1 and x not in f.trapblk for x in S[b]):
                f.loopexit.add(b)

    def call_function(s, st, name, args, depth=0):
        """returns list of (state, kind, value) with kind 'ret' or 'exc'"""
        f = s.m.funcs.get(name)
        s.prep(f)
        s.funcs.add(name)
        if depth > 200:
            raise Unsupported('recursion depth')
        saved, scnt, sal = st.regs, st.cnt, st.al
        st.regs, st.cnt, st.al = {}, {}, []
        for (t, nm), a in zip(f.params, args):
            st.regs[nm] = a
        fr = Frame(f, depth)
        s.region(fr, st, f.entry, 0, None)
        rets, excs = fr.rets, fr.excs
        out = []
        for r in rets:
            for i in r[0].al:
                r[0].mem.pop(i, None)
                r[0].own.discard(i)
        for e in excs:
            for i in e.al:
                e.mem.pop(i, None)
                e.own.discard(i)
        if s.mode == 'merge' and len(rets) > 1:
            g = []
            for (x, v) in rets:
                x.regs = {'%$ret': v} if v is not None else {}
                g.append(x)
            ff = FakeFn(f.blocks, s, f)
            ms = s.merge(ff, 0, g)
            rets = [(x, x.regs.get('%$ret')) for x in ms]
        for x, v in rets:
            x.regs, x.cnt, x.al = (dict(saved), dict(scnt), list(sal)) if len(rets) + len(excs) > 1 else (saved, scnt, sal)
            out.append((x, 'ret', v))
        for x in excs:
            x.regs, x.cnt, x.al = dict(saved), dict(scnt), list(sal)
            out.append((x, 'exc', None))
        return out

    def edge(s, fr, st, src, dst):
        """take CFG edge: evaluate phis"""
        f = fr.f
        k = f.phis[dst]
        if k:
            vals = []
            for ins in f.blocks[dst][:k]:
                vals.append((ins.dst, s.opd(st, ins.x[src])))
            for d, v in vals:
                st.regs[d] = v

    def region(s, fr, st, blk, idx, stop):
        """execute from blk[idx] until `stop` is reached; returns list of states at stop"""
        arr = []
        work = [(st, blk, idx)]
        while work:
            st, blk, idx = work.pop()
            if blk == stop and idx == 0 and stop is not None:
                arr.append(st)
                continue
            s.run_from(fr, st, blk, idx, stop, work)
        return arr

    def run_from(s, fr, st, blk, idx, stop, work):
        f = fr.f
        while True:
            ins_list = f.blocks[blk]
            if idx == 0:
                idx = f.phis[blk]
            n = len(ins_list)
            while idx < n - 1 or (idx == n - 1 and ins_list[idx].op not in TERM):
                ins = ins_list[idx]
                s.steps += 1
                if s.steps > s.maxsteps:
                    raise Budget('step budget exceeded in ' + f.name)
                if s.deadline is not None and s.steps & 0xff == 0:
                    import time
                    if time.time() > s.deadline:
                        raise Budget('symbolic execution time budget exceeded in ' + f.name)
                if ins.op == 'call':
                    outs = s.do_call_f(fr, st, ins, blk, idx, work)
                    if outs is None:
                        return
                    if len(outs) == 1 and outs[0][1] == 'ret':
                        st = outs[0][0]
                        if ins.dst:
                            st.regs[ins.dst] = outs[0][2]
                        idx += 1
                        continue
                    for (x, kind, v) in outs:
                        if kind == 'ret':
                            if ins.dst:
                                x.regs[ins.dst] = v
                            work.append((x, blk, idx + 1))
                        elif kind == 'exc':
                            fr.excs.append(x)
                    return
                try:
                    s.step(fr, st, ins)
                except Fork as fk:
                    s.dofork(st, fk.cond, blk, idx, work)
                    return
                except ForkVal as fk:
                    s.doforkval(st, fk, blk, idx, work)
                    return
                idx += 1
            ins = ins_list[n - 1]
            s.steps += 1
            op = ins.op
            if op == 'jmp':
                s.edge(fr, st, blk, ins.x)
                nb = ins.x
                if nb == stop:
                    work.append((st, nb, 0))
                    return
                blk, idx = nb, 0
                continue
            if op == 'br':
                c = s.opd(st, ins.a[0])
                if not isinstance(c, int):
                    c = s.known(st, c)
                if isinstance(c, int):
                    nb = ins.x[0] if c else ins.x[1]
                    s.edge(fr, st, blk, nb)
                    if nb == stop:
                        work.append((st, nb, 0))
                        return
                    blk, idx = nb, 0
                    continue
                s.branch(fr, st, blk, stop, work, [(c, ins.x[0]), (z3.Not(c) if not z3.is_not(c) else c.arg(0), ins.x[1])], ins)
                return
            if op == 'switch':
                v = s.opd(st, ins.a[0])
                d, cases = ins.x
                w = ins.a[0].ty.n
                if isinstance(v, int):
                    nb = d
                    for cv, l in cases:
                        if cv == v:
                            nb = l
                    s.edge(fr, st, blk, nb)
                    if nb == stop:
                        work.append((st, nb, 0))
                        return
                    blk, idx = nb, 0
                    continue
                tgt = {}
                allc = []
                for cv, l in cases:
                    cc = bv.icmp('eq', v, cv, w) if w > 1 else (v if cv else z3.Not(v))
                    if isinstance(cc, int):
                        if cc == 0:
                            continue
                        cc = z3.BoolVal(True)
                    tgt.setdefault(l, []).append(cc)
                    allc.append(cc)
                brs = []
                dl = [z3.Not(z3.Or(allc))] if allc else [z3.BoolVal(True)]
                if d in tgt:
                    tgt[d].append(dl[0])
                else:
                    brs.append((dl[0], d))
                for l, cs in tgt.items():
                    brs.append((z3.Or(cs) if len(cs) > 1 else cs[0], l))
                s.branch(fr, st, blk, stop, work, brs, ins)
                return
            if op == 'ret':
                v = s.opd(st, ins.a[0]) if ins.a else None
                fr.rets.append((st, v))
                s.npaths += 1
                if s.npaths > s.maxpaths:
                    raise Budget('path budget exceeded')
                return
            if op == 'unreachable':
                s.event('unreachable', st, 'unreachable reached in ' + f.name)
                return
            if op == 'invoke':
                outs = s.do_call_f(fr, st, ins, blk, n - 1, work)
                if outs is None:
                    return
                for (x, kind, v) in outs:
                    if kind == 'ret':
                        if ins.dst:
                            x.regs[ins.dst] = v
                        s.edge(fr, x, blk, ins.x['normal'])
                        work.append((x, ins.x['normal'], 0))
                    elif kind == 'exc':
                        s.edge(fr, x, blk, ins.x['unwind'])
                        lp = f.blocks[ins.x['unwind']][f.phis[ins.x['unwind']]]
                        sel = s.match(x, lp)
                        if sel is None:
                            fr.excs.append(x)
                            continue
                        x.regs['%$sel'] = sel
                        work.append((x, ins.x['unwind'], 0))
                return
            if op == 'resume':
                fr.excs.append(st)
                return
            raise Unsupported('terminator ' + ins.line)

    def known(s, st, c):
        if st.asm:
            v = st.asm.get(c.get_id())
            if v is not None:
                return v
            if z3.is_not(c):
                v = st.asm.get(c.arg(0).get_id())
                if v is not None:
                    return 1 - v
        return c

    def dofork(s, st, cond, blk, idx, work):
        for val in (1, 0):
            c = cond if val else z3.Not(cond)
            pc = st.pc + (c,)
            if not s.feasible(pc):
                continue
            n = st.fork()
            n.pc = pc
            n.asm = dict(st.asm)
            n.asm[cond.get_id()] = val
            s.keep.append(cond)
            if bv.LIN[0] and s.mode == 'fork' and bv.learn(n, c) is False:
                continue
            work.append((n, blk, idx))

    def doforkval(s, st, fk, blk, idx, work):
        n = st.fork()
        n.pc = st.pc + (fk.cond,)
        n.asm = dict(st.asm)
        n.asm[fk.term.get_id()] = fk.val
        s.keep.append(fk.term)
        work.append((n, blk, idx))
        pc = st.pc + (z3.Not(fk.cond),)
        s.nconc = getattr(s, 'nconc', 0) + 1
        if s.nconc > 4000:
            raise Budget('too many concretisations')
        if s.feasible(pc):
            m = st.fork()
            m.pc = pc
            work.append((m, blk, idx))

    def refine(s, st, cond, val):
        """narrow the interval of the register compared in cond"""
        info = s.icmps.get(cond.get_id())
        if info is None:
            if z3.is_not(cond):
                return s.refine(st, cond.arg(0), not val)
            if z3.is_and(cond) and val or z3.is_or(cond) and not val:
                for k in range(cond.num_args()):
                    s.refine(st, cond.arg(k), val)
            return
        pred, reg, t, k, w = info
        if not val:
            pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge',
                    'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
        v = st.regs.get(reg)
        if not isinstance(v, BV) or not v.t.eq(t):
            return
        lo, hi = v.lo, v.hi
        sk = bv.sg(k, w)
        if pred == 'eq':
            st.regs[reg] = k
            return
        if pred == 'slt':
            hi = min(hi, sk - 1)
        elif pred == 'sle':
            hi = min(hi, sk)
        elif pred == 'sgt':
            lo = max(lo, sk + 1)
        elif pred == 'sge':
            lo = max(lo, sk)
        elif pred in ('ult', 'ule') and sk >= 0:
            lo = max(lo, 0)
            hi = min(hi, sk - (pred == 'ult'))
        elif pred in ('ugt', 'uge') and lo >= 0 and sk >= 0:
            lo = max(lo, sk + (pred == 'ugt'))
        elif pred == 'ne':
            if lo == sk:
                lo += 1
            if hi == sk:
                hi -= 1
        if lo > hi:
            return False
        if (lo, hi) != (v.lo, v.hi):
            st.regs[reg] = bv.setlin(bv.mk(v.t, w, lo, hi), v.lin)
        return True

    def branch(s, fr, st, blk, stop, work, brs, ins):
        f = fr.f
        s.nbranch += 1
        # traps: record lazily
        live = []
        for c, l in brs:
            if l in f.trapblk:
                tr = [i for i in f.blocks[l] if i.op == 'call'][0]
                s.event('ub', st, 'undefined behaviour trap %s in %s' % (tr.a[0].v if tr.a else '', f.name), c)
            else:
                live.append((c, l))
        if len(live) < len(brs):
            if not live:
                return
            if len(live) == 1:
                c, l = live[0]
                if s.mode == 'fork':
                    st.pc = st.pc + (c,)
                    # a surviving path must exist
                s.edge(fr, st, blk, l)
                work.append((st, l, 0))
                return
        cnt = st.cnt.get(blk, 0) + 1
        st.cnt[blk] = cnt
        if s.deadline is not None:
            import time
            if time.time() > s.deadline:
                raise Budget('symbolic execution time budget exceeded in ' + f.name)
        check = s.check_all or (cnt > 1 and blk in f.loopexit)
        opts = []
        if cnt > s.unwind:
            s.event('unwind', st, 'loop bound %d exceeded at %s in %s' % (s.unwind, blk, f.name))
            return
        for c, l in live:
            pc = st.pc + (c,)
            if check and s.nofeas_below < cnt and not (bv.LIN[0] and s.mode == 'fork' and bv.fresh_cond(st, c)) and not s.feasible(pc):
                continue
            opts.append((c, l, pc))
        if not opts:
            return
        j = f.ipdom.get(blk)
        states = []
        for i, (c, l, pc) in enumerate(opts):
            x = st.fork() if i < len(opts) - 1 else st
            x.pc = pc
            if bv.LIN[0] and s.mode == 'fork':
                if bv.learn(x, c) is False:
                    continue
            if s.refine(x, c, True) is False:
                continue
            if c.get_id() not in s.icmps:
                x.asm = dict(x.asm)
                x.asm[c.get_id()] = 1
                s.keep.append(c)
            s.edge(fr, x, blk, l)
            states.append((x, l))
        if s.mode == 'fork' or j is None:
            for x, l in reversed(states):
                work.append((x, l, 0))
            return
        arr = []
        for x, l in states:
            arr += s.region(fr, x, l, 0, j)
        if len(arr) > 1:
            arr = s.merge(f, j, arr)
        for x in arr:
            work.append((x, j, 0))

    # ------------------------------------------------------------------ exceptions
    def isa(s, ti, base):
        while True:
            if ti == base:
                return True
            if ti in BASES:
                ti = BASES[ti]
                continue
            g = s.m.globs.get('@' + ti)
            if g and g[1] is not None and g[1].k == 'agg' and len(g[1].v) >= 3:
                e = g[1].v[2]
                if e.k == 'glob':
                    ti = e.v[1:]
                    continue
            return False

    def tid(s, name):
        if name not in s.tiid:
            s.tiid[name] = len(s.tiid) + 1
        return s.tiid[name]

    def match(s, st, lp):
        ti = st.exc[0]
        cleanup = False
        for k, v in lp.x:
            if k == 'cleanup':
                cleanup = True
            elif k == 'catch':
                if v.k == 'null':
                    return s.tid('*')
                if s.isa(ti, v.v[1:]):
                    return s.tid(v.v[1:])
        return 0 if cleanup else None

    # ------------------------------------------------------------------ calls
    def do_call_f(s, fr, st, ins, blk, idx, work):
        try:
            return s.do_call(fr, st, ins)
        except Fork as fk:
            s.dofork(st, fk.cond, blk, idx, work)
        except ForkVal as fk:
            s.doforkval(st, fk, blk, idx, work)
        return None

    def do_call(s, fr, st, ins):
        callee = ins.x['callee']
        if callee.k == 'reg':
            p = st.regs[callee.v]
            if isinstance(p.o, str) and p.o.startswith('fn:'):
                name = p.o[3:]
            else:
                raise Unsupported('indirect call ' + ins.line[:100])
        elif callee.k == 'glob':
            name = callee.v
        else:
            raise Unsupported('callee')
        while name in s.m.aliases:
            name = s.m.aliases[name]
        if name in ('@llvm.ubsantrap', '@llvm.trap'):
            s.event('ub', st, 'undefined behaviour trap in ' + fr.f.name)
            return []
        if name.startswith('@llvm.'):
            if name.startswith(NOPS):
                return [(st, 'ret', None)]
            return [(st, 'ret', s.intrinsic(st, name, ins))]
        nm = name[1:].strip('"')
        h = s.hooks.get(nm)
        if h is None:
            h = EXTERN.get(nm)
        if h is not None:
            s.stubs.add(nm)
            args = [s.opd(st, a) for a in ins.a]
            return h(s, st, args, ins)
        if name in s.m.funcs:
            args = []
            for a in ins.a:
                args.append(s.opd(st, a))
            return s.call_function(st, name, args, fr.depth + 1)
        for pat, h in EXTERN_RE:
            if pat.match(nm):
                s.stubs.add(nm)
                args = [s.opd(st, a) for a in ins.a]
                return h(s, st, args, ins)
        raise Unsupported('external function ' + nm)

    def throw(s, st, ti, ptr=None):
        st.exc = (ti, ptr or NULL)
        return [(st, 'exc', None)]

    def intrinsic(s, st, name, ins):
        n = name[6:]
        args = [s.opd(st, a) for a in ins.a]
        t = ins.ty
        if t.k == 'vec':
            res = []
            for i in range(t.n):
                ar = [a[i] if isinstance(a, list) else a for a in args]
                res.append(s.intr(st, n, ar, t.el, ins))
            return res
        return s.intr(st, n, args, t, ins)

    def intr(s, st, n, a, t, ins):
        p = n.split('.')
        if len(p) > 2 and p[1] == 'with':
            w = ins.a[0].ty.n
            op = p[0]
            x, y = a
            return list(ovf(op, x, y, w))
        h = p[0]
        if h in ('smax', 'smin', 'umax', 'umin'):
            w = t.n
            c = bv.icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[h], a[0], a[1], w)
            return bv.ite(c, a[0], a[1], w) if h[0] == 'u' else sminmax(h, c, a[0], a[1], w)
        if h == 'abs':
            w = t.n
            c = bv.icmp('slt', a[0], 0, w)
            ng = bv.sub(0, a[0], w)
            r = bv.ite(c, ng, a[0], w)
            if isinstance(r, BV):
                lo, hi = bv.rng(a[0], w)
                if lo > bv.smin(w):
                    r = BV(r.t, w, 0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
            return r
        if h in ('ctlz', 'cttz', 'ctpop', 'bswap', 'bitreverse'):
            return bitint(h, a[0], t.n)
        if h in ('fshl', 'fshr'):
            w = t.n
            k = a[2]
            if isinstance(k, int):
                k %= w
                if h == 'fshl':
                    return a[0] if k == 0 else bv.or_(bv.shl(a[0], k, w), bv.lshr(a[1], w - k, w), w)
                return a[1] if k == 0 else bv.or_(bv.shl(a[0], w - k, w), bv.lshr(a[1], k, w), w)
            z = z3.Concat(bv.term(a[0], w), bv.term(a[1], w))
            k2 = z3.ZeroExt(w, z3.URem(bv.term(k, w), z3.BitVecVal(w, w)))
            if h == 'fshl':
                return BV(z3.Extract(2 * w - 1, w, z << k2), w)
            return BV(z3.Extract(w - 1, 0, z3.LShR(z, k2)), w)
        if n.startswith(('sadd.sat', 'ssub.sat', 'uadd.sat', 'usub.sat')):
            w = t.n
            v, o = ovf(p[0], a[0], a[1], w)
            if p[0][0] == 'u':
                sat = bv.mask(w) if p[0] == 'uadd' else 0
            else:
                sat = bv.ite(bv.icmp('slt', a[0], 0, w), 1 << (w - 1), bv.smax(w), w)
            return bv.ite(o, sat, v, w)
        if h in ('memcpy', 'memmove'):
            s.memcpy(st, a[0], a[1], a[2])
            return None
        if h == 'memset':
            s.memset(st, a[0], a[1], a[2])
            return None
        if h == 'expect':
            return a[0]
        if h == 'eh':
            return s.tid(ins.a[0].v[1:] if ins.a[0].k == 'glob' else '*')
        if h == 'objectsize':
            return bv.mask(t.n)
        if h == 'is' and p[1] == 'constant':
            return 0
        if h == 'fabs':
            return z3.fpAbs(a[0])
        if h in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RM, 'nearbyint': RM, 'round': z3.RNA()}[h]
            return z3.fpRoundToIntegral(rm, a[0])
        if h in ('fmuladd', 'fma'):
            if h == 'fma':
                return z3.fpFMA(RM, a[0], a[1], a[2])
            return z3.fpAdd(RM, z3.fpMul(RM, a[0], a[1]), a[2])
        if h == 'copysign':
            return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
        if h in ('minnum', 'maxnum'):
            return (z3.fpMin if h == 'minnum' else z3.fpMax)(a[0], a[1])
        if h == 'sqrt':
            return z3.fpSqrt(RM, a[0])
        if n.startswith('vector.reduce.'):
            raise Unsupported(n)
        if n.startswith('is.fpclass'):
            m = a[1]
            x = a[0]
            r = []
            tests = [(3, z3.fpIsNaN(x)), (4, z3.And(z3.fpIsInf(x), z3.fpIsNegative(x))), (0x200, z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)))]
            for b, c in tests:
                if m & b:
                    r.append(c)
            if m & ~(3 | 4 | 0x200):
                raise Unsupported('fpclass')
            return z3.simplify(z3.Or(r))
        if n.startswith('x86.'):
            raise Unsupported('intrinsic ' + n)
        raise Unsupported('intrinsic ' + n)

    def memset(s, st, d, v, n):
        if not isinstance(n, int):
            n = s.concretize(st, n, 64)
        o = s.getobj(st, d.o)
        if n == 0:
            return
        if o is None or not o.alive or not isinstance(d.off, int) or d.off < 0 or (o.size is not None and d.off + n > o.size):
            s.event('oob', st, 'memset out of bounds')
            return
        o = s.wobj(st, d.o)
        s.split(o, d.off, d.off + n)
        for c in [c for c in o.cells if d.off <= c < d.off + n]:
            del o.cells[c]
        if n > 4096 and n % 8 == 0 and v == 0:
            for k in range(0, n, 8):
                o.cells[d.off + k] = (8, 0)
            return
        for k in range(n):
            o.cells[d.off + k] = (1, v)

    # ------------------------------------------------------------------ plain instructions
    def binop(s, st, op, a, b, t):
        if t.k == 'vec':
            return [s.binop(st, op, x, y, t.el) for x, y in zip(a, b)]
        if t.k in FPS:
            if op == 'frem':
                return z3.fpRem(a, b)
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RM, a, b)
            return z3.simplify(r) if fpc(a) and fpc(b) else r
        w = t.n
        if w == 1:
            if op == 'and':
                return bv.band(a, b)
            if op == 'or':
                return bv.bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bv.bxor(a, b)
            if op == 'mul':
                return bv.band(a, b)
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return bv.add(a, b, w)
        if op == 'sub':
            return bv.sub(a, b, w)
        if op == 'mul':
            return bv.mul(a, b, w)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if isinstance(b, int):
                if b == 0:
                    s.event('ub', st, 'division by zero')
                    return s.fresh(t)
            else:
                bl, bh = bv.rng(b, w)
                if bl <= 0 <= bh:
                    s.event('ub', st, 'division by zero', b.t == 0)
            bv.GUARD = st.pc
            try:
                if op[0] == 's':
                    if isinstance(b, int) and bv.sg(b, w) == -1 or not isinstance(b, int) and b.lo <= -1 <= b.hi:
                        al, ah = bv.rng(a, w)
                        if al == bv.smin(w):
                            s.event('ub', st, 'division overflow', z3.And(bv.term(a, w) == bv.smin(w), bv.term(b, w) == -1))
                    q, r = bv.sdivrem(a, b, w)
                else:
                    q, r = bv.udivrem(a, b, w)
            finally:
                bv.GUARD = ()
            return q if op[1:] == 'div' else r
        if op == 'shl':
            return bv.shl(a, b, w)
        if op == 'lshr':
            return bv.lshr(a, b, w)
        if op == 'ashr':
            return bv.ashr(a, b, w)
        if op == 'and':
            return bv.and_(a, b, w)
        if op == 'or':
            return bv.or_(a, b, w)
        if op == 'xor':
            return bv.xor(a, b, w)
        raise Unsupported(op)

    def cast(s, op, v, f, t, st=None):
        if f.k == 'vec' and op != 'bitcast':
            return [s.cast(op, x, f.el, t.el) for x in v]
        if op == 'trunc':
            if t.n == 1:
                if isinstance(v, int):
                    return v & 1
                return z3.Extract(0, 0, v.t) == 1
            return bv.trunc(v, f.n, t.n)
        if op in ('zext', 'sext') and f.n == 1 and not isinstance(v, int) and bv.LIN[0] and s.mode == 'fork' and st is not None:
            v = s.known(st, v)
            if not isinstance(v, int):
                raise Fork(v)
        if op == 'zext':
            if f.n == 1:
                return bv.b2bv(v, t.n)
            return bv.zext(v, f.n, t.n)
        if op == 'sext':
            if f.n == 1:
                if isinstance(v, int):
                    return bv.mask(t.n) if v else 0
                return bv.mk(z3.If(v, z3.RealVal(-1), z3.RealVal(0)) if s.lra else z3.If(v, z3.BitVecVal(-1, t.n), z3.BitVecVal(0, t.n)), t.n, -1, 0)
            return bv.sext(v, f.n, t.n)
        if op == 'ptrtoint':
            a = s.addr(v)
            return a if t.n == 64 else bv.trunc(a, 64, t.n)
        if op == 'inttoptr':
            return s.toptr(v)
        if op in ('addrspacecast',):
            return v
        if op == 'bitcast':
            if f.k == 'ptr':
                return v
            return s.bitcast(v, f, t)
        if op in ('sitofp', 'uitofp'):
            if f.n == 1:
                v = bv.b2bv(v, 8)
                f = INT(8)
            tm = bv.term(v, f.n)
            lo, hi = bv.rng(v, f.n)
            if op == 'uitofp' and lo < 0:
                return z3.simplify(z3.fpUnsignedToFP(RM, tm, FPS[t.k])) if isinstance(v, int) else z3.fpUnsignedToFP(RM, tm, FPS[t.k])
            n = min(f.n, bv.swidth(lo, hi) + 1)
            tm = bv.sresize(tm, f.n, n)
            r = z3.fpSignedToFP(RM, tm, FPS[t.k])
            return z3.simplify(r) if isinstance(v, int) else r
        if op in ('fptosi', 'fptoui'):
            r = (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(t.n))
            if fpc(v):
                r = z3.simplify(r)
                if z3.is_bv_value(r):
                    return r.as_long()
            return BV(r, t.n)
        if op in ('fpext', 'fptrunc'):
            r = z3.fpFPToFP(RM, v, FPS[t.k])
            return z3.simplify(r) if fpc(v) else r
        raise Unsupported('cast ' + op)

    def bitcast(s, v, f, t):
        f, t = s.resolve(f), s.resolve(t)
        if f.k == 'int' and t.k == 'int':
            return v
        if f.k in ('float', 'double') and t.k == 'int':
            r = z3.fpToIEEEBV(v)
            if fpc(v):
                r = z3.simplify(r)
                if z3.is_bv_value(r):
                    return r.as_long()
            return BV(r, t.n)
        if f.k == 'int' and t.k in ('float', 'double'):
            return z3.fpBVToFP(bv.term(v, f.n), FPS[t.k])
        # vectors: go through one wide integer
        def tobits(x, ty):
            ty = s.resolve(ty)
            if ty.k == 'int':
                if ty.n == 1:
                    return bv.b2bv(x, 8) if False else (z3.If(bv.b2z(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
                return bv.term(x, ty.n)
            if ty.k in ('float', 'double'):
                return z3.fpToIEEEBV(x)
            if ty.k == 'vec':
                return z3.Concat(*[tobits(e, ty.el) for e in reversed(x)]) if ty.n > 1 else tobits(x[0], ty.el)
            raise Unsupported('bitcast')
        def nb(ty):
            ty = s.resolve(ty)
            return ty.n if ty.k == 'int' else 32 if ty.k == 'float' else 64 if ty.k == 'double' else ty.n * nb(ty.el)
        def frombits(b, ty):
            ty = s.resolve(ty)
            if ty.k == 'int':
                b = z3.simplify(b)
                if ty.n == 1:
                    r = z3.simplify(b == 1)
                    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                return b.as_long() if z3.is_bv_value(b) else BV(b, ty.n)
            if ty.k in ('float', 'double'):
                return z3.fpBVToFP(b, FPS[ty.k])
            n = nb(ty.el)
            return [frombits(z3.Extract(n * (i + 1) - 1, n * i, b), ty.el) for i in range(ty.n)]
        if f.k == 'vec' and t.k == 'vec' and nb(f.el) == nb(t.el) and f.el.k == t.el.k:
            return v
        return frombits(tobits(v, f), t)

    def cmp(s, st, ins, pred, a, b, t):
        if t.k == 'vec':
            return [s.cmp(st, None, pred, x, y, t.el) for x, y in zip(a, b)]
        if t.k == 'ptr':
            if a.o == b.o:
                x = a.off & bv.mask(64) if isinstance(a.off, int) else a.off
                y = b.off & bv.mask(64) if isinstance(b.off, int) else b.off
                return bv.icmp(pred if pred in ('eq', 'ne') else 's' + pred[1:], x, y, 64)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            return bv.icmp(pred, s.addr(a), s.addr(b), 64)
        w = t.n
        if w == 1:
            if pred in ('eq', 'ne'):
                x = bv.bxor(a, b)
                return x if pred == 'ne' else bv.bnot(x)
            a2, b2 = bv.b2bv(a, 8), bv.b2bv(b, 8)
            if pred[0] == 's':
                a2, b2 = bv.sub(0, a2, 8), bv.sub(0, b2, 8)
                return bv.icmp(pred, a2, b2, 8)
            return bv.icmp(pred, a2, b2, 8)
        r = bv.icmp(pred, a, b, w)
        if not isinstance(r, int) and ins is not None:
            if isinstance(b, int) and ins.a[0].k == 'reg':
                s.icmps[r.get_id()] = (pred, ins.a[0].v, a.t, b, w)
                s.keep.append(r)
        return r

    def step(s, fr, st, ins):
        bv.FACTS, bv.WRAP, bv.CONDS = st.lf, st.lw, st.lc
        op = ins.op
        R = st.regs
        if op in BINOPS:
            if op == 'or' and s.lra and 'disjoint' in ins.x:
                op = 'add'
            R[ins.dst] = s.binop(st, op, s.opd(st, ins.a[0]), s.opd(st, ins.a[1]), ins.ty)
        elif op == 'icmp':
            R[ins.dst] = s.cmp(st, ins, ins.x, s.opd(st, ins.a[0]), s.opd(st, ins.a[1]), ins.ty)
        elif op in CASTS:
            R[ins.dst] = s.cast(op, s.opd(st, ins.a[0]), ins.a[0].ty, ins.ty, st)
        elif op == 'load':
            p = s.opd(st, ins.a[0])
            R[ins.dst] = s.load(st, s.fixptr(st, p), ins.ty)
        elif op == 'store':
            p = s.opd(st, ins.a[1])
            s.store(st, s.fixptr(st, p), s.opd(st, ins.a[0]), ins.ty)
        elif op == 'gep':
            R[ins.dst] = s.gep(st, ins.ty, s.opd(st, ins.a[0]), [(a.ty, s.opd(st, a)) for a in ins.a[1:]])
        elif op == 'select':
            c = s.opd(st, ins.a[0])
            a, b = s.opd(st, ins.a[1]), s.opd(st, ins.a[2])
            if isinstance(c, list):
                R[ins.dst] = [s.ite(x, y, z, ins.ty.el) for x, y, z in zip(c, a, b)]
                return
            if not isinstance(c, int):
                c = s.known(st, c)
            if isinstance(c, int):
                R[ins.dst] = a if c else b
                return
            if bv.LIN[0] and s.mode == 'fork':
                raise Fork(c)
            try:
                R[ins.dst] = s.ite(c, a, b, ins.ty)
            except NoMerge:
                raise Fork(c)
        elif op == 'alloca':
            n = 1
            if ins.a:
                n = s.opd(st, ins.a[0])
                if not isinstance(n, int):
                    n = s.concretize(st, n, 64)
            i = s.alloc(st, s.size(ins.ty) * n, fr.f.name + ins.dst)
            st.al.append(i)
            R[ins.dst] = Ptr(i, 0)
        elif op == 'extractvalue':
            v = s.opd(st, ins.a[0])
            for i in ins.x:
                v = v[i]
            R[ins.dst] = v
        elif op == 'insertvalue':
            v = s.opd(st, ins.a[0])

            def ins_(v, idx, x):
                v = list(v)
                v[idx[0]] = x if len(idx) == 1 else ins_(v[idx[0]], idx[1:], x)
                return v
            R[ins.dst] = ins_(v, ins.x, s.opd(st, ins.a[1]))
        elif op == 'extractelement':
            v, i = s.opd(st, ins.a[0]), s.opd(st, ins.a[1])
            if not isinstance(i, int):
                raise Unsupported('extractelement symbolic')
            R[ins.dst] = v[i]
        elif op == 'insertelement':
            v, x, i = [s.opd(st, a) for a in ins.a]
            v = list(v)
            v[i] = x
            R[ins.dst] = v
        elif op == 'shufflevector':
            a, b, m = [s.opd(st, x) for x in ins.a[:2]] + [ins.a[2]]
            ab = a + b
            if m.k == 'zero':
                idx = [0] * m.ty.n
            elif m.k == 'undef':
                idx = [0] * m.ty.n
            else:
                idx = [e.v if e.k == 'int' else 0 for e in m.v]
            R[ins.dst] = [ab[i] for i in idx]
        elif op == 'freeze':
            R[ins.dst] = s.opd(st, ins.a[0])
        elif op == 'fcmp':
            a, b = s.opd(st, ins.a[0]), s.opd(st, ins.a[1])
            R[ins.dst] = fcmp(ins.x, a, b)
        elif op == 'fneg':
            R[ins.dst] = z3.fpNeg(s.opd(st, ins.a[0]))
        elif op == 'landingpad':
            R[ins.dst] = [st.exc[1], R.get('%$sel', 0)]
        elif op == 'nop':
            pass
        elif op == 'asm':
            if 'sideeffect' in ins.line and '""' in ins.line and ins.dst is None:
                return
            raise Unsupported('asm')
        else:
            raise Unsupported('instruction ' + ins.line)

    def fixptr(s, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported('deref non-pointer')
        if not isinstance(p.off, int) and s.mode == 'fork' and not s.symoff_ok(st, p):
            off = s.concretize(st, p.off, 64)
            return Ptr(p.o, bv.sg(off, 64))
        return p

    def symoff_ok(s, st, p):
        o = s.getobj(st, p.o)
        return o is not None and (o.const or o.size is not None and o.size <= 4096)


class ForkVal(Exception):
    def __init__(s, cond, term, val):
        s.cond, s.term, s.val = cond, term, val


class NoMerge(Exception):
    pass


class Frame:
    def __init__(s, f, depth):
        s.f, s.depth, s.rets, s.excs = f, depth, [], []


class FakeFn:
    def __init__(s, blocks, ex, f):
        s.livein = {0: ('%$ret',)}
        t = None
        for b in f.order:
            i = f.blocks[b][-1]
            if i.op == 'ret':
                t = i.ty
        s.rty = {'%$ret': t}


def fpc(v):
    return z3.is_fp_value(v) or (z3.is_fp(v) and v.num_args() == 0 and v.decl().kind() != z3.Z3_OP_UNINTERPRETED)


def sminmax(h, c, a, b, w):
    r = bv.ite(c, a, b, w)
    if isinstance(r, BV):
        al, ah = bv.rng(a, w)
        bl, bh = bv.rng(b, w)
        if h == 'smax':
            return bv.mk(r.t, w, max(al, bl), max(ah, bh))
        return bv.mk(r.t, w, min(al, bl), min(ah, bh))
    return r


def ovf(op, x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        f = {'a': lambda p, q: p + q, 's': lambda p, q: p - q, 'm': lambda p, q: p * q}[op[1]]
        if op[0] == 's':
            r = f(bv.sg(x, w), bv.sg(y, w))
            return r & bv.mask(w), int(not (bv.smin(w) <= r <= bv.smax(w)))
        r = f(x, y)
        return r & bv.mask(w), int(not (0 <= r <= bv.mask(w)))
    xl, xh = bv.rng(x, w)
    yl, yh = bv.rng(y, w)
    if op == 'smul':
        return bv.smul_ov(x, y, w)
    if op in ('sadd', 'ssub'):
        lo, hi = (xl + yl, xh + yh) if op == 'sadd' else (xl - yh, xh - yl)
        v = bv.add(x, y, w) if op == 'sadd' else bv.sub(x, y, w)
        if lo >= bv.smin(w) and hi <= bv.smax(w):
            return v, 0
        if hi < bv.smin(w) or lo > bv.smax(w):
            return v, 1
        tx, ty, tv = bv.term(x, w), bv.term(y, w), bv.term(v, w)
        sx, sy, sv = tx < 0, ty < 0, tv < 0
        if op == 'sadd':
            return v, z3.And(sx == sy, sv != sx)
        return v, z3.And(sx != sy, sv != sx)
    tx, ty = bv.term(x, w), bv.term(y, w)
    if op == 'uadd':
        v = bv.add(x, y, w)
        if xl >= 0 and yl >= 0:
            return v, 0
        return v, z3.ULT(bv.term(v, w), tx)
    if op == 'usub':
        v = bv.sub(x, y, w)
        return v, bv.icmp('ult', x, y, w)
    if op == 'umul':
        v = bv.mul(x, y, w)
        if xl >= 0 and yl >= 0 and xh * yh <= bv.mask(w):
            return v, 0
        return v, z3.Not(z3.BVMulNoOverflow(tx, ty, False))
    raise Unsupported(op)


def bitint(h, a, w):
    if isinstance(a, int):
        if h == 'ctpop':
            return bin(a).count('1')
        if h == 'ctlz':
            return w - a.bit_length()
        if h == 'cttz':
            return w if a == 0 else (a & -a).bit_length() - 1
        if h == 'bswap':
            return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        raise Unsupported(h)
    t = a.t
    if h == 'ctpop':
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, t))
        return bv.mk(r, w, 0, w)
    if h == 'ctlz':
        r = z3.BitVecVal(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(w - 1 - i, w), r)
        lo, hi = 0, w
        if a.lo >= 0:
            lo = w - a.hi.bit_length()
            hi = w - a.lo.bit_length()
        return bv.mk(r, w, lo, hi)
    if h == 'cttz':
        r = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i, w), r)
        return bv.mk(r, w, 0, w)
    if h == 'bswap':
        return BV(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, t) for i in range(w // 8)]), w)
    raise Unsupported(h)


def fcmp(pred, a, b):
    u = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    if pred == 'ord':
        r = z3.Not(u)
    elif pred == 'uno':
        r = u
    elif pred == 'true':
        return 1
    elif pred == 'false':
        return 0
    else:
        o = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT,
             'ge': z3.fpGEQ}[pred[1:]](a, b)
        if pred[0] == 'o':
            r = z3.And(o, z3.Not(u)) if pred == 'one' else o
        else:
            r = z3.Or(u, o)
    if fpc(a) and fpc(b):
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
    return r


TERM = {'jmp', 'br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc', 'addrspacecast'}
NOPS = ('@llvm.lifetime', '@llvm.assume', '@llvm.dbg', '@llvm.experimental.noalias', '@llvm.invariant', '@llvm.stackrestore',
        '@llvm.donothing', '@llvm.prefetch')


# ---------------------------------------------------------------------- externals (environment model)
def x_new(s, st, a, ins):
    n = a[0]
    if not isinstance(n, int):
        n = s.concretize(st, n, 64)
    return [(st, 'ret', Ptr(s.alloc(st, n, 'heap'), 0))]


def x_delete(s, st, a, ins):
    p = a[0]
    if p.o != 0:
        o = s.wobj(st, p.o)
        if o is None or not o.alive:
            s.event('oob', st, 'invalid free')
        else:
            o.alive = False
    return [(st, 'ret', None)]


def x_memcpy(s, st, a, ins):
    s.memcpy(st, a[0], a[1], a[2])
    return [(st, 'ret', a[0])]


def x_memset(s, st, a, ins):
    v = a[1]
    v = v & 0xff if isinstance(v, int) else bv.trunc(v, 32, 8)
    s.memset(st, a[0], v, a[2])
    return [(st, 'ret', a[0])]


I8 = INT(8)


def x_memcmp(s, st, a, ins):
    n = a[2]
    if not isinstance(n, int):
        n = s.concretize(st, n, 64)
    r = 0
    for k in reversed(range(n)):
        x = s.load(st, Ptr(a[0].o, s.ptradd(a[0].off, k)), I8)
        y = s.load(st, Ptr(a[1].o, s.ptradd(a[1].off, k)), I8)
        d = bv.sub(bv.zext(x, 8, 32), bv.zext(y, 8, 32), 32)
        r = bv.ite(bv.icmp('ne', x, y, 8), d, r, 32)
    return [(st, 'ret', r)]


def x_strlen(s, st, a, ins):
    p = a[0]
    n = 0
    while True:
        b = s.load(st, Ptr(p.o, p.off + n), I8)
        if isinstance(b, int):
            if b == 0:
                break
        else:
            if b.lo <= 0 <= b.hi:
                c = s.known(st, b.t == 0)
                if not isinstance(c, int):
                    raise Fork(c)
                if c:
                    break
        n += 1
        o = s.getobj(st, p.o)
        if n > 4096 or o is None or (o.size is not None and p.off + n >= o.size):
            s.event('oob', st, 'strlen past end')
            return []
    return [(st, 'ret', n)]


def x_memchr(s, st, a, ins):
    p, ch, n = a
    if not isinstance(n, int):
        n = s.concretize(st, n, 64)
    ch = ch & 0xff if isinstance(ch, int) else bv.trunc(ch, 32, 8)
    for k in range(n):
        b = s.load(st, Ptr(p.o, p.off + k), I8)
        c = bv.icmp('eq', b, ch, 8)
        if not isinstance(c, int):
            c = s.known(st, c)
        if not isinstance(c, int):
            raise Fork(c)
        if c:
            return [(st, 'ret', Ptr(p.o, p.off + k))]
    return [(st, 'ret', NULL)]


def x_isdigit(s, st, a, ins):
    v = a[0]
    # the C standard makes the call undefined outside unsigned char and EOF; glibc tolerates -128..255
    c = bv.band(bv.icmp('sge', v, 48, 32), bv.icmp('sle', v, 57, 32))
    return [(st, 'ret', bv.b2bv(c, 32))]


def x_nop(s, st, a, ins):
    return [(st, 'ret', None)]


def x_ret0(s, st, a, ins):
    return [(st, 'ret', 0)]


def x_arg0(s, st, a, ins):
    return [(st, 'ret', a[0])]


def x_cxathrow(s, st, a, ins):
    ti = ins.a[1].v[1:]
    return s.throw(st, ti, a[0])


def x_rethrow(s, st, a, ins):
    if st.exc is None:
        raise Unsupported('rethrow')
    return [(st, 'exc', None)]


def x_terminate(s, st, a, ins):
    s.event('terminate', st, 'std::terminate reached')
    return []


def x_abort(s, st, a, ins):
    s.event('terminate', st, 'abort/assertion reached')
    return []


def thrower(ti):
    def f(s, st, a, ins):
        return s.throw(st, ti)
    return f


def x_guard_acquire(s, st, a, ins):
    b = s.load(st, a[0], I8)
    if isinstance(b, int) and b:
        return [(st, 'ret', 0)]
    return [(st, 'ret', 1)]


def x_guard_release(s, st, a, ins):
    s.store(st, a[0], 1, I8)
    return [(st, 'ret', None)]


EXTERN = {
    '_Znwm': x_new, '_Znam': x_new, '_ZdlPv': x_delete, '_ZdlPvm': x_delete, '_ZdaPv': x_delete, '_ZdaPvm': x_delete,
    'malloc': x_new, 'free': x_delete,
    'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'bcmp': x_memcmp,
    'strlen': x_strlen, 'memchr': x_memchr, 'isdigit': x_isdigit,
    '__cxa_allocate_exception': x_new, '__cxa_free_exception': x_nop, '__cxa_throw': x_cxathrow,
    '__cxa_begin_catch': x_arg0, '__cxa_end_catch': x_nop, '__cxa_rethrow': x_rethrow,
    '__clang_call_terminate': x_terminate, '_ZSt9terminatev': x_terminate, '__cxa_call_terminate': x_terminate,
    'abort': x_abort, '__assert_fail': x_abort, '_ZSt21__glibcxx_assert_failPKciS0_S0_': x_abort,
    '__cxa_guard_acquire': x_guard_acquire, '__cxa_guard_release': x_guard_release, '__cxa_guard_abort': x_nop,
    '__cxa_atexit': x_ret0,
    '_ZSt20__throw_length_errorPKc': thrower('_ZTISt12length_error'),
    '_ZSt19__throw_logic_errorPKc': thrower('_ZTISt11logic_error'),
    '_ZSt20__throw_out_of_rangePKc': thrower('_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': thrower('_ZTISt12out_of_range'),
    '_ZSt17__throw_bad_allocv': thrower('_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': thrower('_ZTISt9bad_alloc'),
    '_ZSt20__throw_format_errorPKc': thrower('_ZTISt12format_error'),
    '_ZSt24__throw_invalid_argumentPKc': thrower('_ZTISt16invalid_argument'),
}
EXTERN_RE = [
    (re.compile(r'_ZNSt(12domain_error|16invalid_argument|12length_error|12out_of_range|11logic_error|13runtime_error|'
                r'11range_error|14overflow_error|15underflow_error|12format_error|9exception)[CD]\d'), x_nop),
    (re.compile(r'_ZNKSt(12domain_error|11logic_error|13runtime_error|9exception)4whatEv'), x_nop),
]
