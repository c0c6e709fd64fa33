"""Linear relaxation of the machine arithmetic: every value is a real term with a sound interval, constrained by linear facts
(products by McCormick envelopes, shifts and divisions by their rounding error).  Every concrete run within the declared input
ranges satisfies the constraints, so unsat over the reals is a proof; a model proves nothing and is handed to the bit-precise
encoding.  install() replaces the term constructors of bv for the duration of one symbolic execution."""
import z3
from . import bv
from .bv import BV, sg, smin, smax, mask, AXIOMS

NAMES = ('add', 'sub', 'mul', 'sdivrem', 'udivrem', 'shl', 'lshr', 'ashr', 'and_', 'or_', 'xor', 'trunc', 'zext', 'sext', 'icmp', 'ite', 'term', 'mk', 'b2bv', 'clamp', 'smul_ov')
SAVED = {}
DISJOINT = [False]


def R(v):
    return z3.RealVal(v)


def fresh(lo, hi, w):
    """an unconstrained value within [lo,hi]"""
    lo, hi = max(lo, smin(w)), min(hi, smax(w))
    if lo == hi:
        return lo & mask(w)
    v = z3.Real(bv.fresh_name('h'))
    AXIOMS.append(v >= lo)
    AXIOMS.append(v <= hi)
    return BV(v, w, lo, hi)


def val(t, lo, hi, w):
    """the exact integer t within [lo,hi] as a w-bit value"""
    m = 1 << w
    k = (lo + (m >> 1)) // m
    k1 = (hi + (m >> 1)) // m
    if k1 - k > 2:
        return fresh(smin(w), smax(w), w)
    if k1 != k:
        r = t - k1 * m
        for j in range(k1 - 1, k - 1, -1):
            r = z3.If(t <= j * m + (m >> 1) - 1, t - j * m, r)
        return BV(r, w, smin(w), smax(w))
    if k:
        t, lo, hi = t - k * m, lo - k * m, hi - k * m
    if lo == hi:
        return lo & mask(w)
    return BV(t, w, lo, hi)


def term(v, w):
    return R(sg(v, w)) if isinstance(v, int) else v.t


def rg(v, w):
    if isinstance(v, int):
        x = sg(v, w)
        return x, x
    return v.lo, v.hi


def mk(t, w, lo=None, hi=None):
    if isinstance(t, z3.BitVecRef):
        return fresh(smin(w) if lo is None else lo, smax(w) if hi is None else hi, w)
    return val(t, smin(w) if lo is None else lo, smax(w) if hi is None else hi, w)


def clamp(r, w):
    return r


def b2bv(c, n):
    if isinstance(c, int):
        return c
    return BV(z3.If(c, R(1), R(0)), n, 0, 1) if n > 1 else c


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    return val(term(a, w) + term(b, w), al + bl, ah + bh, w)


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if a is b:
        return 0
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    return val(term(a, w) - term(b, w), al - bh, ah - bl, w)


def product(ta, al, ah, tb, bl, bh, same=False):
    """a term for ta*tb and its interval"""
    c = [al * bl, al * bh, ah * bl, ah * bh]
    lo, hi = min(c), max(c)
    if same:
        lo = 0 if al <= 0 <= ah else min(al * al, ah * ah)
        hi = max(al * al, ah * ah)
    if lo == hi:
        return R(lo), lo, hi
    p = z3.Real(bv.fresh_name('p'))
    AXIOMS.append(p >= lo)
    AXIOMS.append(p <= hi)
    if same:
        m = (al + ah) / 2 if isinstance(al, float) else (al + ah) // 2
        for k in (al, m, ah):
            AXIOMS.append(p >= 2 * k * ta - k * k)
        AXIOMS.append(p <= (al + ah) * ta - al * ah)
    else:
        AXIOMS.append(p >= al * tb + bl * ta - al * bl)
        AXIOMS.append(p >= ah * tb + bh * ta - ah * bh)
        AXIOMS.append(p <= al * tb + bh * ta - al * bh)
        AXIOMS.append(p <= ah * tb + bl * ta - ah * bl)
    return p, lo, hi


PRODS = {}


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    al, ah = rg(a, w)
    if isinstance(b, int):
        c = sg(b, w)
        if c == 0:
            return 0
        r = val(a.t * c, min(al * c, ah * c), max(al * c, ah * c), w)
        k = c.bit_length()
        if 16 < k < w - 1 and c > 0 and (1 << k) - c < 1 << (k - 4) and not isinstance(r, int):
            # a negative constant whose upper bits do not matter
            d = c - (1 << k)
            LOGICAL[r.t.get_id()] = (val(a.t * d, min(al * d, ah * d), max(al * d, ah * d), w), k, r.t)
        return r
    bl, bh = rg(b, w)
    k = (a.t.get_id(), b.t.get_id())
    if k not in PRODS:
        r = product(a.t, al, ah, b.t, bl, bh, a is b or k[0] == k[1])
        PRODS[k] = PRODS[k[::-1]] = r + (a.t, b.t)
    p, lo, hi = PRODS[k][:3]
    return val(p, lo, hi, w)


def smul_ov(a, b, w):
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    c = [al * bl, al * bh, ah * bl, ah * bh]
    if min(c) >= smin(w) and max(c) <= smax(w):
        return mul(a, b, w), 0
    return fresh(smin(w), smax(w), w), z3.Bool(bv.fresh_name('c'))


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def sdivrem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x, y = sg(a, w), sg(b, w)
        q = tdiv(x, y)
        return q & mask(w), (x - q * y) & mask(w)
    key = ((a if isinstance(a, int) else a.t.get_id()), isinstance(a, int), (b if isinstance(b, int) else b.t.get_id()), isinstance(b, int), w)
    if key not in DIVS:
        DIVS[key] = sdivrem_(a, b, w) + (a, b)
    return DIVS[key][:2]


DIVS = {}


def sdivrem_(a, b, w):
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    ta, tb = term(a, w), term(b, w)
    if bl <= 0 <= bh:
        m = max(abs(al), abs(ah))
        bm = max(abs(bl), abs(bh))
        return fresh(-m, m, w), fresh(-min(m, bm) if al < 0 else 0, min(m, bm) if ah > 0 else 0, w)
    qs = [tdiv(x, y) for x in (al, ah) for y in (bl, bh)] + ([0] if al <= 0 <= ah else [])
    ql, qh = min(qs), max(qs)
    if ql == qh:
        q = ql & mask(w)
        qt = R(ql)
    else:
        q = fresh(ql, qh, w)
        qt = q.t
    if isinstance(b, int):
        y = ta / R(bl)
    else:
        # y*b = a
        from fractions import Fraction as F
        ys = [F(x, k) for x in (al, ah) for k in (bl, bh)]
        yl, yh = min(ys), max(ys)
        y = z3.Real(bv.fresh_name('y'))

        def S(f):
            return z3.Q(f.numerator, f.denominator)
        AXIOMS.append(y >= S(yl))
        AXIOMS.append(y <= S(yh))
        AXIOMS.append(ta >= S(yl) * tb + bl * y - S(yl * bl))
        AXIOMS.append(ta >= S(yh) * tb + bh * y - S(yh * bh))
        AXIOMS.append(ta <= S(yl) * tb + bh * y - S(yl * bh))
        AXIOMS.append(ta <= S(yh) * tb + bl * y - S(yh * bl))
        if yl > 0 or yh < 0:
            # convexity: 1/b lies above its tangents, so for a of one sign y is bounded by lines in (a,b) at the middle
            pass
    if not isinstance(q, int):
        if ql >= 0:
            AXIOMS.append(qt <= y)
            AXIOMS.append(qt >= y - 1)
        elif qh <= 0:
            AXIOMS.append(qt >= y)
            AXIOMS.append(qt <= y + 1)
        else:
            AXIOMS.append(qt <= y + 1)
            AXIOMS.append(qt >= y - 1)
    bm = max(abs(bl), abs(bh)) - 1
    rl, rh = (0 if al >= 0 else max(-bm, al)), (0 if ah <= 0 else min(bm, ah))
    if isinstance(b, int):
        rt = ta - qt * bl
        if isinstance(q, int):
            return q, val(rt, al - ql * bl, ah - ql * bl, w)
        AXIOMS.append(rt >= rl)
        AXIOMS.append(rt <= rh)
        return q, val(rt, rl, rh, w)
    p, pl, ph = product(qt, ql, qh, tb, bl, bh)
    r = fresh(rl, rh, w)
    if not isinstance(r, int):
        AXIOMS.append(r.t == ta - p)
    return q, r


def udivrem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a // b, a % b
    if rg(a, w)[0] >= 0 and rg(b, w)[0] >= 0:
        return sdivrem(a, b, w)
    return fresh(smin(w), smax(w), w), fresh(smin(w), smax(w), w)


def shl(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        return mul(a, (1 << b) & mask(w), w) if b < w - 1 else (fresh(smin(w), 0, w) if not isinstance(a, int) else (a << b) & mask(w))
    return fresh(smin(w), smax(w), w)


SHIFTS = {}
LOGICAL = {}       # terms of logical shifts of possibly negative values: the arithmetic shift, equal on the low bits


def ashr(a, b, w):
    if not isinstance(b, int):
        lo, hi = rg(a, w)
        return fresh(min(lo, 0), max(hi, 0), w)
    b = min(b, w - 1)
    if isinstance(a, int):
        return (sg(a, w) >> b) & mask(w)
    if b == 0:
        return a
    r = ashr_(a, b, w)
    low(a, r, b, w)
    return r


def low(a, r, b, w):
    k = LOGICAL.get(a.t.get_id())
    if k and k[1] > b and not isinstance(r, int) and r.t.get_id() not in LOGICAL:
        LOGICAL[r.t.get_id()] = (ashr(k[0], b, w), k[1] - b, r.t)


def ashr_(a, b, w):
    lo, hi = a.lo >> b, a.hi >> b
    if lo == hi:
        return lo & mask(w)
    k = (a.t.get_id(), b, w)
    if k not in SHIFTS:
        r = fresh(lo, hi, w)
        y = a.t / R(1 << b)
        AXIOMS.append(r.t <= y)
        AXIOMS.append(r.t >= y - 1 + z3.Q(1, 1 << b))
        SHIFTS[k] = (r, a.t)
    return SHIFTS[k][0]


def lshr(a, b, w):
    r = lshr_(a, b, w)
    if not isinstance(a, int) and isinstance(b, int) and 0 < b < w:
        low(a, r, b, w)
    return r


def lshr_(a, b, w):
    if isinstance(b, int) and isinstance(a, int):
        return a >> b if b < w else 0
    lo, hi = rg(a, w)
    if isinstance(b, int):
        if lo >= 0:
            return ashr(a, b, w)
        if hi < 0 and b:
            # sign bit of a negative number and more
            if b == w - 1:
                return 1
            return val(ashr(a, b, w + 1).t + (1 << (w - b)), (lo >> b) + (1 << (w - b)), (hi >> b) + (1 << (w - b)), w) if lo >> b != hi >> b else ((lo >> b) + (1 << (w - b))) & mask(w)
        if b == w - 1:
            return BV(z3.If(a.t <= -1, R(1), R(0)), w, 0, 1)
        if not b:
            return a
        h = ashr(a, b, w)
        ht = term(h, w)
        r = BV(z3.If(a.t <= -1, ht + (1 << (w - b)), ht), w, 0, mask(w - b))
        LOGICAL[r.t.get_id()] = (h, w - b, r.t)
        return r
    return fresh(0 if lo >= 0 else smin(w), hi if lo >= 0 else smax(w), w)


def and_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        s = sg(b, w)
        if s > 0 and s & (s + 1) == 0:
            k = s.bit_length()
            if a.lo >> k == a.hi >> k:
                return val(a.t - ((a.lo >> k) << k), a.lo - ((a.lo >> k) << k), a.hi - ((a.lo >> k) << k), w)
            h = ashr(a, k, w)
            r = fresh(0, s, w)
            AXIOMS.append(r.t == a.t - (1 << k) * h.t)
            return r
        low = (~b) & mask(w)
        if low & (low + 1) == 0:
            k = low.bit_length()
            return shl(ashr(a, k, w), k, w)
        j = (b & -b).bit_length() - 1
        if j and (b >> j) & ((b >> j) + 1) == 0:
            # a run of bits
            r = and_(a, mask(b.bit_length()), w)
            return shl(ashr(r, j, w), j, w)
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            if a.lo >> k == a.hi >> k:
                return b if (a.lo >> k) & 1 else 0
        if s >= 0:
            return fresh(0, min(s, a.hi) if a.lo >= 0 else s, w)
        return fresh(0 if a.lo >= 0 else smin(w), a.hi if a.lo >= 0 else smax(w), w)
    if a.lo >= 0 or b.lo >= 0:
        return fresh(0, min(x.hi for x in (a, b) if x.lo >= 0), w)
    return fresh(smin(w), smax(w), w)


def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if DISJOINT[0]:
        return add(a, b, w)
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    if al >= 0 and bl >= 0:
        return fresh(max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1, w)
    return fresh(smin(w), smax(w), w)


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return val(-1 - a.t, -1 - a.hi, -1 - a.lo, w)
        if b == 1 << (w - 1) and (a.lo >= 0 or a.hi < 0):
            d = smin(w) if a.lo >= 0 else -smin(w)
            return val(a.t + d, a.lo + d, a.hi + d, w)
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    if al >= 0 and bl >= 0:
        return fresh(0, (1 << max(ah.bit_length(), bh.bit_length())) - 1, w)
    return fresh(smin(w), smax(w), w)


def trunc(a, w, n):
    if isinstance(a, int):
        return a & mask(n)
    k = LOGICAL.get(a.t.get_id())
    if k and n <= k[1]:
        return trunc(k[0], w, n)
    return val(a.t, a.lo, a.hi, n)


def zext(a, w, n):
    if isinstance(a, int):
        return a
    if a.lo >= 0:
        return BV(a.t, n, a.lo, a.hi)
    if a.hi < 0:
        return BV(a.t + (1 << w), n, a.lo + (1 << w), a.hi + (1 << w))
    return BV(z3.If(a.t >= 0, a.t, a.t + (1 << w)), n, 0, mask(w)) if n > w else a


def sext(a, w, n):
    if isinstance(a, int):
        return sg(a, w) & mask(n)
    return BV(a.t, n, a.lo, a.hi)


def icmp(pred, a, b, w):
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    if isinstance(a, int) and isinstance(b, int) or pred in ('eq', 'ne') and (ah < bl or bh < al):
        if pred[0] == 'u':
            al, bl = al & mask(w), bl & mask(w)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return int({'eq': al == bl, 'ne': al != bl, 'lt': al < bl, 'le': al <= bl, 'gt': al > bl, 'ge': al >= bl}[p])
    if a is b:
        return int(pred in ('eq', 'sle', 'sge', 'ule', 'uge'))
    ta, tb = term(a, w), term(b, w)
    if pred == 'eq':
        return ta == tb
    if pred == 'ne':
        return z3.Or(ta <= tb - 1, ta >= tb + 1)
    if pred[0] == 'u':
        if al >= 0 and bl >= 0 or ah < 0 and bh < 0:
            pass
        elif al >= 0 and bh < 0:
            return int(pred in ('ult', 'ule'))
        elif bl >= 0 and ah < 0:
            return int(pred in ('ugt', 'uge'))
        else:
            # unsigned readings
            ua, ub = (z3.If(t >= 0, t, t + (1 << w)) if lo < 0 <= hi else t + (1 << w) if hi < 0 else t for t, lo, hi in ((ta, al, ah), (tb, bl, bh)))
            return {'lt': ua <= ub - 1, 'le': ua <= ub, 'gt': ua >= ub + 1, 'ge': ua >= ub}[pred[1:]]
    p = pred[1:]
    if p in ('gt', 'ge'):
        ta, tb, al, ah, bl, bh = tb, ta, bl, bh, al, ah
        p = {'gt': 'lt', 'ge': 'le'}[p]
    if p == 'lt':
        return 1 if ah < bl else 0 if al >= bh else ta <= tb - 1
    return 1 if ah <= bl else 0 if al > bh else ta <= tb


def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    al, ah = rg(a, w)
    bl, bh = rg(b, w)
    return BV(z3.If(c, term(a, w), term(b, w)), w, min(al, bl), max(ah, bh))


MEMO = {}


def key(a):
    if isinstance(a, int) or isinstance(a, str):
        return a
    if isinstance(a, BV):
        return (a.t.get_id(), a.lo, a.hi)
    return ('e', a.get_id())


def memo(n, f):
    """the same operation on the same terms is the same value, also where it is only bounded"""
    def g(*a):
        k = (n, DISJOINT[0]) + tuple(key(x) for x in a)
        r = MEMO.get(k)
        if r is None:
            r = MEMO[k] = (f(*a), a)
        return r[0]
    return g


def install():
    MEMO.clear()
    for n in NAMES:
        SAVED[n] = getattr(bv, n)
        setattr(bv, n, memo(n, globals()[n]) if n not in ('fresh', 'val', 'term', 'rg', 'mk', 'clamp', 'b2bv') else globals()[n])
    PRODS.clear()
    SHIFTS.clear()
    LOGICAL.clear()
    DIVS.clear()


def uninstall():
    for n in list(SAVED):
        setattr(bv, n, SAVED.pop(n))
