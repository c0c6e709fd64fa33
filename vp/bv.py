"""Machine-integer terms: python ints when concrete, BV(z3 term + sound signed interval) when symbolic.

The intervals are facts implied by the declared input ranges alone (never by path conditions), so they may be
used to narrow encodings; every narrowing below is an identity on the declared input space."""
from math import gcd
import z3


class BV:
    __slots__ = ('t', 'w', 'lo', 'hi', 'lin')

    def __init__(s, t, w, lo=None, hi=None):
        s.t, s.w, s.lin = t, w, None
        s.lo = -(1 << (w - 1)) if lo is None else lo
        s.hi = (1 << (w - 1)) - 1 if hi is None else hi

    def __repr__(s):
        return 'BV%d[%d,%d]' % (s.w, s.lo, s.hi)


AXIOMS = []      # definitional constraints of fresh variables, valid in every query
GUARD = ()       # path condition under which refined intervals (and so new axioms) are valid


def axiom(c):
    AXIOMS.append(z3.Implies(z3.And(list(GUARD)), c) if GUARD else c)

_fresh = [0]
DIVS = {}


def reset():
    AXIOMS.clear()
    DIVS.clear()
    ATOMS.clear()
    MATS.clear()
    KEEP.clear()
    _fresh[0] = 0


# ---- linear normal forms (optional, LIN[0]): the exact integer value of a term as constant + sum of coefficient*atom.
# They make the same arithmetic written at different widths or in a different order the same solver term.
LIN = [False]
ATOMS = {}       # id -> (term, width, lo, hi); the atom's value is the signed reading of term
MATS = {}
WRAP = {}
KEEP = []
CONDS = {}       # condition id -> (linear form d, 'le' | 'eq'): the condition is d <= 0 / d == 0
FACTS = {}       # on the current path: atoms part of a linear form -> interval


def _atom(v):
    t, w = v.t, v.w
    while z3.is_app_of(t, z3.Z3_OP_SIGN_EXT):
        t = t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ZERO_EXT):
        t = z3.ZeroExt(1, t.arg(0))
    i = t.get_id()
    if i not in ATOMS:
        ATOMS[i] = (t, t.size(), smin(t.size()), smax(t.size()))
    return i


def linof(v, w):
    if isinstance(v, int):
        return ((), sg(v, w))
    if v.lin is None:
        v.lin = (((_atom(v), 1),), 0)
    l = v.lin
    if FACTS:
        for i, c in l[0]:
            f = FACTS.get(((i, 1),))
            if f is not None and f[0] is not None and f[0] == f[1]:
                l = lincomb(l, 1, (((i, -c),), c * f[0]), 1)
    if FACTS and WRAP and len(l[0]) == 1:
        i, c = l[0][0]
        if i in WRAP:
            u = unwrap(i, FACTS)
            if u is not None:
                return lincomb(u, c, ((), l[1]), 1)
    return l


def unwrap(i, facts):
    """an atom that is a linear form reduced modulo m into [base, base+m): the linear form itself where the path says which multiple"""
    u, lo, hi, base, m = WRAP[i]
    lo, hi = factrange(u, lo, hi, facts)
    if lo <= hi and (lo - base) // m == (hi - base) // m:
        return (u[0], u[1] - (lo - base) // m * m)
    return None


def wrapped(r, lin, lo, hi, w):
    """r is lin (somewhere in [lo,hi]) reduced to w bits"""
    if LIN[0] and not isinstance(r, int) and lin[0] and len(lin[0]) <= 4:
        i = _atom(r)
        r.lin = (((i, 1),), 0)
        if lin != r.lin and i not in WRAP:
            WRAP[i] = (lin, lo, hi, smin(w), 1 << w)
    return r


def lincomb(x, kx, y, ky):
    d = {}
    for i, c in x[0]:
        d[i] = d.get(i, 0) + c * kx
    for i, c in y[0]:
        d[i] = d.get(i, 0) + c * ky
    return (tuple(sorted((i, c) for i, c in d.items() if c)), x[1] * kx + y[1] * ky)


def setlin(r, lin):
    if LIN[0] and not isinstance(r, int) and lin is not None and len(lin[0]) <= 100:
        r.lin = lin
    return r


def linmat(lin, n):
    """the canonical n-bit term of a linear form"""
    k = (lin, n)
    if k not in MATS:
        t = z3.BitVecVal(lin[1] & mask(n), n)
        for i, c in lin[0]:
            a, aw = ATOMS[i][:2]
            x = sresize(a, aw, n)
            t = t + (x if c == 1 else x * z3.BitVecVal(c & mask(n), n))
        MATS[k] = z3.simplify(t)
    return MATS[k]


def learn(st, c):
    """record what taking condition c says about a linear form; False when it contradicts what is known"""
    val = True
    while z3.is_not(c):
        c, val = c.arg(0), not val
    info = st.lc.get(c.get_id())
    if info is None:
        if z3.is_and(c) and val or z3.is_or(c) and not val:
            for k in range(c.num_args()):
                if learn(st, c.arg(k) if val else z3.Not(c.arg(k))) is False:
                    return False
        return True
    d, op = info
    lo, hi = st.lf.get(d[0], (None, None))
    k = -d[1]
    if op == 'le' and val:
        hi = k if hi is None else min(hi, k)
    elif op == 'le':
        lo = k + 1 if lo is None else max(lo, k + 1)
    elif val:
        lo = k if lo is None else max(lo, k)
        hi = k if hi is None else min(hi, k)
    if lo is not None and hi is not None and lo > hi:
        return False
    st.lf = dict(st.lf)
    return note(st.lf, d[0], lo, hi, st.lw)


def bases(key, wr):
    out = set()
    for i, _ in key:
        if i in wr:
            out |= bases(wr[i][0][0], wr)
        else:
            out.add(i)
    return out


def fresh_cond(st, c):
    """c speaks about input bytes no earlier condition on the path spoke about (then both outcomes are possible)"""
    while z3.is_not(c):
        c = c.arg(0)
    if z3.is_and(c) or z3.is_or(c):
        return all(fresh_cond(st, c.arg(k)) for k in range(c.num_args()))
    info = st.lc.get(c.get_id())
    if info is None:
        return False
    b = bases(info[0][0], st.lw)
    return not any(b & bases(k, st.lw) for k in st.lf)


def note(lf, key, lo, hi, wr):
    lf[key] = (lo, hi)
    if len(key) == 1 and key[0][1] == 1 and key[0][0] in wr and lo is not None and hi is not None:
        # the atom is u - k*m for one k only: the fact carries over to u
        u, ulo, uhi, base, m = wr[key[0][0]]
        ulo, uhi = factrange(u, ulo, uhi, lf)
        ks = [k for k in range((ulo - base) // m, (uhi - base) // m + 1) if lo + k * m <= uhi and hi + k * m >= ulo] if uhi - ulo <= 8 * m else [0, 1]
        if not ks:
            return False
        if len(ks) == 1:
            g = gcd(*[c for _, c in u[0]])
            if u[0][0][1] < 0:
                g = -g
            a, b = max(lo + ks[0] * m, ulo) - u[1], min(hi + ks[0] * m, uhi) - u[1]
            if g < 0:
                a, b = -b, -a
            a, b = -(-a // abs(g)), b // abs(g)
            k2 = tuple((i, c // g) for i, c in u[0])
            x, y = lf.get(k2, (None, None))
            a = a if x is None else max(a, x)
            b = b if y is None else min(b, y)
            if a > b:
                return False
            return note(lf, k2, a, b, wr)
    return True


def factrange(l, lo, hi, facts=None):
    """intersect the interval of linear form l with the facts of the path"""
    FACTS_ = FACTS if facts is None else facts
    if not l[0] or not FACTS_:
        return lo, hi
    g = gcd(*[c for _, c in l[0]])
    if l[0][0][1] < 0:
        g = -g
    f = FACTS_.get(l[0] if g == 1 else tuple((i, c // g) for i, c in l[0]))
    if f is None:
        return lo, hi
    a, b = (None if x is None else x * g for x in f)
    if g < 0:
        a, b = b, a
    if a is not None:
        lo = max(lo, a + l[1])
    if b is not None:
        hi = min(hi, b + l[1])
    return lo, hi


def linrange(l):
    """interval of a linear form from what is known of its atoms"""
    lo = hi = l[1]
    for i, c in l[0]:
        a, b = factrange((((i, 1),), 0), ATOMS[i][2], ATOMS[i][3])
        lo, hi = lo + min(a * c, b * c), hi + max(a * c, b * c)
    return factrange(l, lo, hi)


def known(lin, lo, hi):
    """note that a linear form is within [lo,hi] on this path"""
    if not LIN[0] or not lin[0]:
        return
    g = gcd(*[c for _, c in lin[0]])
    if lin[0][0][1] < 0:
        g = -g
    k = lin[0] if g == 1 else tuple((i, c // g) for i, c in lin[0])
    lo, hi = lo - lin[1], hi - lin[1]
    if g < 0:
        lo, hi, g = -hi, -lo, -g
    lo, hi = -(-lo // g), hi // g
    a, b = FACTS.get(k, (None, None))
    lo, hi = lo if a is None else max(a, lo), hi if b is None else min(b, hi)
    if lo <= hi:
        FACTS[k] = (lo, hi)


def declare(v, raw):
    """an input with a declared range: v (possibly re-encoded) stands for the solver variable raw"""
    if LIN[0] and not isinstance(v, int):
        i = raw.get_id()
        ATOMS[i] = (raw, v.w, v.lo, v.hi)
        v.lin = (((i, 1),), 0)
    return v


def canon(v, w):
    if not LIN[0] or isinstance(v, int) or w == 1:
        return v
    l = linof(v, w)
    if not l[0]:
        return l[1] & mask(w)
    lo, hi = rngf(v, w)
    if lo == hi:
        return lo & mask(w)
    n = min(w, swidth(lo, hi))
    r = BV(sresize(linmat(l, n), n, w), w, lo, hi)
    r.lin = l
    return r


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


def mask(w):
    return (1 << w) - 1


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def smin(w):
    return -(1 << (w - 1))


def smax(w):
    return (1 << (w - 1)) - 1


def rng(v, w):
    if isinstance(v, int):
        x = sg(v, w)
        return x, x
    return v.lo, v.hi


def rngf(v, w):
    """interval, using what the path says about the linear form"""
    if isinstance(v, int) or not LIN[0] or not FACTS:
        return rng(v, w)
    l = linof(v, w)
    lo, hi = factrange(l, v.lo, v.hi)
    if len(l[0]) <= 4:
        a, b = linrange(l)
        lo, hi = max(a, lo), min(b, hi)
    return (lo, hi) if lo <= hi else (v.lo, v.hi)


def term(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v.t


def mk(t, w, lo=None, hi=None):
    mn, mx = smin(w), smax(w)
    if lo is None or lo < mn or hi > mx:
        lo, hi = mn, mx
    if lo == hi:
        return lo & mask(w)
    return BV(t, w, lo, hi)


def swidth(lo, hi):
    """bits of the smallest signed type holding [lo,hi]"""
    return max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1


def sresize(t, w, n):
    if n == w:
        return t
    if n < w:
        return z3.Extract(n - 1, 0, t)
    return z3.SignExt(n - w, t)


def clamp(r, w):
    """re-encode a term whose interval is narrow so that its high bits are syntactically determined"""
    if isinstance(r, int):
        return r
    k = (r.hi - r.lo).bit_length()
    if k + 2 >= w:
        return r
    sw = swidth(r.lo, r.hi)
    if k + 2 >= sw:
        if sw < w:
            return BV(z3.SignExt(w - sw, z3.Extract(sw - 1, 0, r.t)), w, r.lo, r.hi)
        return r
    d = z3.Extract(k - 1, 0, r.t) - z3.BitVecVal(r.lo & mask(k), k)
    t = z3.BitVecVal(r.lo & mask(w), w) + z3.ZeroExt(w - k, d)
    return BV(t, w, r.lo, r.hi)


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    al, ah = rngf(a, w)
    bl, bh = rngf(b, w)
    r = mk(term(a, w) + term(b, w), w, al + bl, ah + bh)
    if LIN[0] and smin(w) <= al + bl and ah + bh <= smax(w):
        return setlin(r, lincomb(linof(a, w), 1, linof(b, w), 1))
    if LIN[0]:
        return wrapped(r, lincomb(linof(a, w), 1, linof(b, w), 1), al + bl, ah + bh, w)
    return r


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if a is b:
        return 0
    al, ah = rngf(a, w)
    bl, bh = rngf(b, w)
    r = mk(term(a, w) - term(b, w), w, al - bh, ah - bl)
    if LIN[0] and smin(w) <= al - bh and ah - bl <= smax(w):
        return setlin(r, lincomb(linof(a, w), 1, linof(b, w), -1))
    if LIN[0]:
        return wrapped(r, lincomb(linof(a, w), 1, linof(b, w), -1), al - bh, ah - bl, w)
    return r


def mulrange(al, ah, bl, bh, same=False):
    if same:
        m = 0 if al <= 0 <= ah else min(al * al, ah * ah)
        return m, max(al * al, ah * ah)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return min(c), max(c)


def _mulraw(a, b, w, n, al, ah, bl, bh):
    """exact product as an n-bit signed term (n large enough)"""
    ka, kb = (ah - al).bit_length(), (bh - bl).bit_length()
    ta, tb = term(a, w), term(b, w)
    wa, wb = swidth(al, ah), swidth(bl, bh)
    if not isinstance(a, int) and not isinstance(b, int) and ka + 3 < wa and kb + 3 < wb:
        da = z3.ZeroExt(n - ka, z3.Extract(ka - 1, 0, ta) - z3.BitVecVal(al & mask(ka), ka)) if ka < n else None
        db = z3.ZeroExt(n - kb, z3.Extract(kb - 1, 0, tb) - z3.BitVecVal(bl & mask(kb), kb)) if kb < n else None
        if da is not None and db is not None:
            if a is b:
                # (l+d)^2 = l^2 + 2*l*d + d^2
                return z3.BitVecVal((al * al) & mask(n), n) + z3.BitVecVal((2 * al) & mask(n), n) * da + \
                    z3.ZeroExt(n - 2 * ka, _wmul(z3.Extract(ka - 1, 0, ta) - z3.BitVecVal(al & mask(ka), ka), None, 2 * ka, ka)) \
                    if 2 * ka <= n else \
                    z3.BitVecVal((al * al) & mask(n), n) + z3.BitVecVal((2 * al) & mask(n), n) * da + da * da
            kk = ka + kb
            if kk <= n:
                dd = z3.ZeroExt(n - kk, z3.ZeroExt(kb, z3.Extract(ka - 1, 0, ta) - z3.BitVecVal(al & mask(ka), ka)) *
                                z3.ZeroExt(ka, z3.Extract(kb - 1, 0, tb) - z3.BitVecVal(bl & mask(kb), kb)))
            else:
                dd = da * db
            return z3.BitVecVal((al * bl) & mask(n), n) + z3.BitVecVal(al & mask(n), n) * db + \
                z3.BitVecVal(bl & mask(n), n) * da + dd
    return sresize(ta, w, n) * sresize(tb, w, n)


def _wmul(x, _, n, k):
    e = z3.ZeroExt(n - k, x)
    return e * e


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
            if ispow2(x):
                return shl(y, x.bit_length() - 1, w)
    al, ah = rngf(a, w)
    bl, bh = rngf(b, w)
    lo, hi = mulrange(al, ah, bl, bh, a is b)
    if lo < smin(w) or hi > smax(w):
        return BV(term(a, w) * term(b, w), w)
    n = swidth(lo, hi)
    n = min(n, w)
    if LIN[0]:
        if isinstance(a, int) or isinstance(b, int):
            x, c = (b, sg(a, w)) if isinstance(a, int) else (a, sg(b, w))
            r = clamp(mk(sresize(_mulraw(a, b, w, n, al, ah, bl, bh), n, w), w, lo, hi), w)
            return setlin(r, lincomb(linof(x, w), c, ((), 0), 0))
        same = a is b
        a, b = canon(a, w), canon(b, w)
        if same:
            b = a
    t = _mulraw(a, b, w, n, al, ah, bl, bh)
    return clamp(mk(sresize(t, n, w), w, lo, hi), w)


def smul_ov(a, b, w):
    """(value mod 2^w, overflow Bool/int)"""
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    lo, hi = mulrange(al, ah, bl, bh, a is b)
    v = mul(a, b, w)
    if smin(w) <= lo and hi <= smax(w):
        return v, 0
    if hi < smin(w) or lo > smax(w):
        return v, 1
    n = max(swidth(lo, hi), w + 1)
    full = _mulraw(a, b, w, n, al, ah, bl, bh)
    val = z3.Extract(w - 1, 0, full)
    ov = z3.SignExt(n - w, val) != full
    return BV(val, w), ov


def ispow2(c):
    return c > 0 and c & (c - 1) == 0


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def sdivrem(a, b, w):
    """signed division truncating toward zero; caller guarantees b != 0. returns (q, r)"""
    if isinstance(a, int) and isinstance(b, int):
        x, y = sg(a, w), sg(b, w)
        q = tdiv(x, y)
        return q & mask(w), (x - q * y) & mask(w)
    a, b = canon(a, w), canon(b, w)
    if isinstance(a, int) and isinstance(b, int):
        return sdivrem(a, b, w)
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    if isinstance(b, int):
        c = sg(b, w)
        if c == 1:
            return a, 0
        if c == -1:
            return sub(0, a, w), 0
        qs = [tdiv(al, c), tdiv(ah, c)]
        if al <= 0 <= ah:
            qs.append(0)
        ql, qh = min(qs), max(qs)
        m = abs(c) - 1
        rl = 0 if al >= 0 else max(-m, al)
        rh = 0 if ah <= 0 else min(m, ah)
        if ispow2(abs(c)):
            k = abs(c).bit_length() - 1
            ta = a.t
            if al < 0:
                bias = z3.LShR(ta >> (w - 1), w - k) if k else z3.BitVecVal(0, w)
                q = (ta + bias) >> k
            else:
                q = ta >> k
            if c < 0:
                q = -q
            if LIN[0] and al >= 0 and c > 0:
                qv = ashr(a, k, w)
                r = sub(a, shl(qv, k, w), w)
                if isinstance(r, int):
                    return qv, r
                return qv, setlin(mk(r.t, w, max(rl, r.lo), min(rh, r.hi)), r.lin)
            qv = clamp(mk(q, w, ql, qh), w)
            r = mk(ta - q * z3.BitVecVal(c & mask(w), w), w, rl, rh)
            return qv, r
        # fresh quotient with a defining constraint; the same dividend and divisor give the same quotient
        n = swidth(min(al, qh * c, ql * c) - abs(c), max(ah, ql * c, qh * c) + abs(c)) + 1
        xn = sresize(a.t, w, n) if n <= w else z3.SignExt(n - w, a.t)
        kq = max(1, (qh - ql).bit_length())
        if kq + 1 > n:
            n = kq + 1
            xn = sresize(a.t, w, n) if n <= w else z3.SignExt(n - w, a.t)
        xn = z3.simplify(xn)
        key = (xn.get_id(), al, ah, c, n)
        if qh == ql:
            qn = z3.BitVecVal(ql & mask(n), n)
        else:
            if key in DIVS:
                dq = DIVS[key][0]
            else:
                dq = z3.BitVec(fresh_name('q'), kq)
                DIVS[key] = (dq, xn)
            if (qh - ql) != mask(kq):
                axiom(z3.ULE(dq, z3.BitVecVal(qh - ql, kq)))
            qn = z3.BitVecVal(ql & mask(n), n) + z3.ZeroExt(n - kq, dq)
        rn = xn - qn * z3.BitVecVal(c & mask(n), n)
        pos = z3.And(rn >= 0, rn <= m)
        neg = z3.And(rn <= 0, rn >= -m)
        if al >= 0:
            axiom(pos)
        elif ah <= 0:
            axiom(neg)
        else:
            axiom(z3.If(xn >= 0, pos, neg))
        q = mk(sresize(qn, n, w), w, ql, qh)
        r = mk(sresize(rn, n, w), w, rl, rh)
        if LIN[0] and not isinstance(q, int):
            q.lin = lincomb(linof(BV(z3.ZeroExt(1, dq), kq + 1, 0, mask(kq)), kq + 1), 1, ((), ql), 1)
            if not isinstance(a, int):
                setlin(r, lincomb(linof(a, w), 1, q.lin, -c))
                if not isinstance(r, int) and r.lin is not None:
                    known(r.lin, r.lo, r.hi)
        elif LIN[0]:
            setlin(r, lincomb(linof(a, w), 1, ((), ql * c), -1))
        return q, r
    # symbolic divisor: canonical widths, so that the same division at different C++ types is the same term
    ta, tb = term(a, w), term(b, w)
    if al >= 0 and bl >= 0:
        n = min(w, max(ah.bit_length(), bh.bit_length(), 1))
        xa, xb = z3.simplify(sresize(ta, w, n)), z3.simplify(sresize(tb, w, n))
        q = z3.UDiv(xa, xb)
        r = z3.URem(xa, xb)
        if n < w:
            q, r = z3.ZeroExt(w - n, q), z3.ZeroExt(w - n, r)
        if bl >= 1:
            return mk(q, w, al // max(bh, 1), ah // max(bl, 1)), mk(r, w, 0, min(ah, max(bh - 1, 0)))
        return BV(q, w), BV(r, w)
    n = min(w, max(swidth(al, ah), swidth(bl, bh)))
    xa, xb = z3.simplify(sresize(ta, w, n)), z3.simplify(sresize(tb, w, n))
    q = xa / xb
    r = z3.SRem(xa, xb)
    if n < w:
        q, r = z3.SignExt(w - n, q), z3.SignExt(w - n, r)
        if al == smin(n) and bl <= -1 <= bh:
            q = z3.If(z3.And(xa == z3.BitVecVal(1 << (n - 1), n), xb == z3.BitVecVal(mask(n), n)), z3.BitVecVal(1 << (n - 1), w), q)
    m = max(abs(al), abs(ah))
    bm = max(abs(bl), abs(bh)) - 1
    # |q| <= |a| when b != 0
    return mk(q, w, -m, m), mk(r, w, 0 if al >= 0 else -min(m, max(bm, 0)), 0 if ah <= 0 else min(m, max(bm, 0)))


def udivrem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a // b, a % b
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    if al >= 0 and bl >= 0:
        return sdivrem(a, b, w)
    if isinstance(b, int) and b < (1 << (w - 1)):
        if ispow2(b):
            k = b.bit_length() - 1
            return lshr(a, k, w), and_(a, b - 1, w)
        # widen by one bit to make it a non-negative signed value
        za = zext(a, w, w + 1)
        q, r = sdivrem(za, b, w + 1)
        return trunc(q, w + 1, w), trunc(r, w + 1, w)
    return BV(z3.UDiv(term(a, w), term(b, w)), w), BV(z3.URem(term(a, w), term(b, w)), w)


def shl(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & mask(w)
        lo, hi = rngf(a, w)
        lo, hi = lo << b, hi << b
        r = mk(a.t << b, w, lo, hi)
        if LIN[0] and smin(w) <= lo and hi <= smax(w):
            return setlin(r, lincomb(linof(a, w), 1 << b, ((), 0), 0))
        if LIN[0]:
            return wrapped(r, lincomb(linof(a, w), 1 << b, ((), 0), 0), lo, hi, w)
        return r
    return BV(term(a, w) << term(b, w), w)


def exact_shift(a, b, w):
    """a >> b when a is a multiple of 2^b"""
    l = linof(a, w)
    m = 1 << b
    lo, hi = rngf(a, w)
    if l[0] and all(c % m == 0 for _, c in l[0]) and l[1] % m == 0:
        r = (tuple((i, c // m) for i, c in l[0]), l[1] // m)
        n = min(w, swidth(lo >> b, hi >> b))
        return setlin(mk(sresize(linmat(r, n), n, w), w, lo >> b, hi >> b), r)
    if lo >> b == hi >> b:
        return (lo >> b) & mask(w)
    g = gcd(l[1], *[c for _, c in l[0]])
    j = (g & -g).bit_length() - 1
    if 0 < j < b:
        # (2^j x) >> b = x >> (b-j)
        r = (tuple((i, c >> j) for i, c in l[0]), l[1] >> j)
        n = min(w, swidth(lo >> j, hi >> j))
        return ashr(setlin(mk(sresize(linmat(r, n), n, w), w, lo >> j, hi >> j), r), b - j, w)
    hp = tuple((i, c // m) for i, c in l[0] if c % m == 0)
    if hp:
        # multiples of 2^b plus something that stays within one step of 2^b
        lp = tuple((i, c) for i, c in l[0] if c % m)
        l0, l1 = linrange((lp, l[1]))
        if l0 >> b == l1 >> b:
            r = (hp, l0 >> b)
            n = min(w, swidth(lo >> b, hi >> b))
            return setlin(mk(sresize(linmat(r, n), n, w), w, lo >> b, hi >> b), r)
    if len(l[0]) == 1 and l[0][0][1] == 1 and l[1] == 0 and l[0][0][0] in WRAP:
        u, ulo, uhi, base, mod = WRAP[l[0][0][0]]
        if base == smin(w) and mod == 1 << w and all(c % m == 0 for _, c in u[0]) and u[1] % m == 0:
            r = clamp(mk(term(canon(a, w), w) >> b, w, lo >> b, hi >> b), w)
            return wrapped(r, (tuple((i, c // m) for i, c in u[0]), u[1] // m), ulo >> b, uhi >> b, w - b)
    return None


def shifted(a, r, b, w):
    """r = a >> b: what is shifted out is within [0, 2^b)"""
    if LIN[0] and not isinstance(r, int):
        known(lincomb(linof(a, w), 1, linof(r, w), -(1 << b)), 0, (1 << b) - 1)
    return r


def lshr(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        if b == 0:
            return a
        if LIN[0] and rngf(a, w)[0] >= 0:
            r = exact_shift(a, b, w)
            if r is not None:
                return r
        a = canon(a, w)
        if isinstance(a, int):
            return a >> b
        if a.lo >= 0:
            return shifted(a, clamp(mk(z3.LShR(a.t, b), w, a.lo >> b, a.hi >> b), w), b, w)
        return mk(z3.LShR(a.t, b), w, 0, mask(w - b))
    lo, hi = rng(a, w)
    if lo >= 0:
        return mk(z3.LShR(term(a, w), term(b, w)), w, 0, hi)
    return BV(z3.LShR(term(a, w), term(b, w)), w)


def ashr(a, b, w):
    if isinstance(b, int):
        if b >= w:
            b = w - 1
        if isinstance(a, int):
            return (sg(a, w) >> b) & mask(w)
        if b == 0:
            return a
        if LIN[0]:
            r = exact_shift(a, b, w)
            if r is not None:
                return r
        a = canon(a, w)
        if isinstance(a, int):
            return ashr(a, b, w)
        return shifted(a, clamp(mk(a.t >> b, w, a.lo >> b, a.hi >> b), w), b, w)
    lo, hi = rng(a, w)
    return mk(term(a, w) >> term(b, w), w, min(lo, 0), max(hi, 0))


def and_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.lo >= 0 and b & (b + 1) == 0 and a.hi <= b:
            return a
        s = sg(b, w)
        if LIN[0] and s >= 0 and s & (s + 1) == 0:
            k = s.bit_length()
            r = sub(a, shl(ashr(a, k, w), k, w), w)
            if isinstance(r, int):
                return r
            return setlin(mk(r.t, w, max(0, r.lo), min(s, r.hi)), r.lin)
        if s >= 0:
            hi = min(s, a.hi) if a.lo >= 0 else s
            return mk(a.t & b, w, 0, hi)
        if a.lo >= 0:
            return mk(a.t & z3.BitVecVal(b, w), w, 0, a.hi)
        # mask of high bits: round down to multiple
        low = (~b) & mask(w)
        if low & (low + 1) == 0:
            return mk(a.t & z3.BitVecVal(b, w), w, a.lo & ~low, a.hi & ~low)
        return BV(a.t & z3.BitVecVal(b, w), w)
    if a.lo >= 0 or b.lo >= 0:
        hi = min(x.hi for x in (a, b) if x.lo >= 0)
        return mk(a.t & b.t, w, 0, hi)
    return BV(a.t & b.t, w)


def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    if al >= 0 and bl >= 0:
        return mk(term(a, w) | term(b, w), w, max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1)
    return BV(term(a, w) | term(b, w), w)


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return mk(~a.t, w, -1 - a.hi, -1 - a.lo)
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    if al >= 0 and bl >= 0:
        return mk(term(a, w) ^ term(b, w), w, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
    return BV(term(a, w) ^ term(b, w), w)


def trunc(a, w, n):
    if isinstance(a, int):
        return a & mask(n)
    t = z3.Extract(n - 1, 0, a.t)
    lo, hi = rngf(a, w)
    if lo >= smin(n) and hi <= smax(n):
        r = mk(t, n, lo, hi)
        return setlin(r, linof(a, w)) if LIN[0] else r
    if LIN[0]:
        c = canon(a, w)
        if isinstance(c, int):
            return c & mask(n)
        r = BV(z3.simplify(z3.Extract(n - 1, 0, c.t)), n)
        return wrapped(r, linof(a, w), lo, hi, n)
    return BV(t, n)


def zext(a, w, n):
    if isinstance(a, int):
        return a
    t = z3.ZeroExt(n - w, a.t)
    lo, hi = rngf(a, w)
    if lo >= 0:
        r = mk(t, n, lo, hi)
        return setlin(r, linof(a, w)) if LIN[0] else r
    r = mk(t, n, 0, mask(w))
    if LIN[0]:
        i = _atom(r)
        if i not in WRAP:
            WRAP[i] = (linof(a, w), lo, hi, 0, 1 << w)
    return r


def sext(a, w, n):
    if isinstance(a, int):
        return sg(a, w) & mask(n)
    r = mk(z3.SignExt(n - w, a.t), n, a.lo, a.hi)
    return setlin(r, linof(a, w)) if LIN[0] else r


# ---- booleans: python 0/1 or z3 BoolRef
def bnot(c):
    if isinstance(c, int):
        return 1 - c
    return z3.Not(c)


def band(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    return z3.And(a, b)


def bor(a, b):
    if isinstance(a, int):
        return 1 if a else b
    if isinstance(b, int):
        return 1 if b else a
    return z3.Or(a, b)


def bxor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return z3.Not(a) if b else a
    return z3.Xor(a, b)


def b2z(c):
    if isinstance(c, int):
        return z3.BoolVal(bool(c))
    return c


def b2bv(c, n):
    if isinstance(c, int):
        return c
    return mk(z3.If(c, z3.BitVecVal(1, n), z3.BitVecVal(0, n)), n, 0, 1) if n > 1 else c


def icmp(pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's':
            x, y = sg(a, w), sg(b, w)
        else:
            x, y = a, b
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    if a is b:
        return int(pred in ('eq', 'sle', 'sge', 'ule', 'uge'))
    if LIN[0] and w > 1 and pred[0] == 'u' and not (al >= 0 and bl >= 0):
        al, ah = rngf(a, w)
        bl, bh = rngf(b, w)
        if isinstance(a, int):      # constant on the right
            a, b, al, ah, bl, bh = b, a, bl, bh, al, ah
            pred = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}[pred]
        if al >= 0 and bl >= 0 or ah < 0 and bh < 0:
            pred = 's' + pred[1:]
        elif isinstance(b, int) and al < 0 <= ah:
            inv = pred in ('ugt', 'uge')
            k = sg(b, w) + (1 if pred in ('ule', 'ugt') else 0)      # a <u k
            if smin(w) <= k <= smax(w) and not (k == 0):
                c1 = icmp('sge', a, 0, w)
                c2 = icmp('slt', a, k & mask(w), w)
                c = band(c1, c2) if k > 0 else bor(c1, c2)
                return bnot(c) if inv else c
    if LIN[0] and w > 1 and (pred in ('eq', 'ne') or pred[0] == 's' or (al >= 0 and bl >= 0)):
        d = lincomb(linof(a, w), 1, linof(b, w), -1)
        if not d[0]:
            k = d[1]
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': k == 0, 'ne': k != 0, 'lt': k < 0, 'le': k <= 0, 'gt': k > 0, 'ge': k >= 0}[p])
        al, ah = rngf(a, w)
        bl, bh = rngf(b, w)
        lo, hi = factrange(d, al - bh, ah - bl)
        if lo > hi:
            lo, hi = al - bh, ah - bl
        n = swidth(lo, hi)
        if n <= 140 and not (ah < bl or bh < al):
            # one canonical comparison with zero: d, or -d when its leading coefficient is negative
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if d[0][0][1] < 0:
                d = lincomb(d, -1, ((), 0), 0)
                lo, hi = -hi, -lo
                p = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(p, p)
            if p in ('lt', 'ge'):      # d < 0  <=>  d <= -1
                d = (d[0], d[1] + 1)
                p = {'lt': 'le', 'ge': 'gt'}[p]
                lo, hi = lo + 1, hi + 1
            if p in ('le', 'gt'):
                if hi <= 0:
                    return int(p == 'le')
                if lo > 0:
                    return int(p == 'gt')
            elif lo > 0 or hi < 0:
                return int(p == 'ne')
            g = gcd(*[c for _, c in d[0]])
            if g > 1:
                if p in ('le', 'gt'):      # g*m + k <= 0  <=>  m + ceil(k/g) <= 0
                    d = (tuple((i, c // g) for i, c in d[0]), -(-d[1] // g))
                    lo, hi = -(-lo // g), -(-hi // g)
                elif d[1] % g:
                    return int(p == 'ne')
                else:
                    d = (tuple((i, c // g) for i, c in d[0]), d[1] // g)
                    lo, hi = -(-lo // g), hi // g
            if p in ('le', 'gt'):
                if hi <= 0:
                    return int(p == 'le')
                if lo > 0:
                    return int(p == 'gt')
            elif lo > 0 or hi < 0:
                return int(p == 'ne')
            elif lo == hi == 0:
                return int(p == 'eq')
            m = max(swidth(lo, hi), 2)
            t = linmat(d, m)
            z = z3.BitVecVal(0, m)
            if p in ('eq', 'ne'):
                c = t == z
                CONDS[c.get_id()] = (d, 'eq')
                KEEP.append(c)
                return c if p == 'eq' else z3.Not(c)
            c = t <= z
            CONDS[c.get_id()] = (d, 'le')
            KEEP.append(c)
            return c if p == 'le' else z3.Not(c)
    ta, tb = term(a, w), term(b, w)
    if pred in ('eq', 'ne'):
        if ah < bl or bh < al:
            return int(pred == 'ne')
        return ta == tb if pred == 'eq' else ta != tb
    if pred[0] == 'u':
        if (al >= 0 and bl >= 0) or (ah < 0 and bh < 0):
            pred = 's' + pred[1:]      # same sign: unsigned order = signed order
        elif al >= 0 and bh < 0:
            return int(pred in ('ult', 'ule'))
        elif bl >= 0 and ah < 0:
            return int(pred in ('ugt', 'uge'))
        else:
            return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[pred](ta, tb)
    if pred == 'slt':
        return 1 if ah < bl else 0 if al >= bh else ta < tb
    if pred == 'sle':
        return 1 if ah <= bl else 0 if al > bh else ta <= tb
    if pred == 'sgt':
        return 1 if al > bh else 0 if ah <= bl else ta > tb
    if pred == 'sge':
        return 1 if al >= bh else 0 if ah < bl else ta >= tb
    raise ValueError(pred)


def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    al, ah = rng(a, w)
    bl, bh = rng(b, w)
    return mk(z3.If(c, term(a, w), term(b, w)), w, min(al, bl), max(ah, bh))
