import mpmath as mp
from props import register
from vp.core import Ob, Sym, Con
from vp import acc as A
from vp.core import line


@register('C21', 'c21.cpp')
def c21(tier, rnd):
    obs = []
    for n, fn in (('sin', mp.sin), ('cos', mp.cos)):
        obs += A.cover(n + '32', 32, 16, fn, A.TRIG, -411775, 411775, 1024, 8, parts=16)
    for n, fn in (('sin', mp.sin), ('cos', mp.cos)):
        obs += A.cover(n + '64', 64, 32, fn, A.TRIG, -26986075409, 26986075409, 1 << 25, 32768 if tier == "quick" else 20000, parts=24, S=24, min=1 << 10)
    # the cosine beyond one period: the ends of the range and a random place, against the cosine of the remainder by the format's 2*pi
    for W, f, P, step, tol, parts, kw in ((32, 16, 411774, 1024, 9, 4, {}), (64, 32, 26986075409, 1 << 25, 32800, 3, dict(S=24, min=1 << 10))):
        top, n = (1 << (W - 1)) - 1, P if W == 32 else P // 4 + 1000
        mid = rnd.randrange(-top + n, top - n)
        for a in (top - n, -top - 1, mid):
            off = mp.mpf((a + n // 2) // P * P) / 2 ** f
            obs += A.cover('cos%d' % W, W, f, lambda t, off=off: mp.cos(t - off), A.TRIG, a, a + n, step, tol, parts=parts, **kw)
    for W, lim in ((32, 8), (64, 644244)):
        obs.append(Ob('per%d' % W, 'per%d' % W, [Sym(W)], tmo=100, weight=99, mode='fork'))
        obs.append(Ob('small%d' % W, 'small%d' % W, [Sym(W, -lim, lim)], tmo=60))
    return obs


def tan2(a, b):
    m = max(abs(a), abs(b))
    t = mp.tan(m)
    return 2 * t * (1 + t * t)


def tantol(u, f):
    """u units times 1 + tan^2, the way an error of the angle or of the quotient grows"""
    def tol(a, b):
        if a <= 0 <= b:
            return u
        t = mp.tan(mp.mpf(min(abs(a), abs(b))) / 2 ** f)
        return u * (1 + t * t)
    return tol


@register('C22', 'c22.cpp')
def c22(tier, rnd):
    obs = [Ob('quot32', 'quot32', [Sym(32)], tmo=100, weight=99, mode='fork'), Ob('quot64', 'quot64', [Sym(64)], tmo=100, weight=99, mode='fork')]
    obs += A.cover('tan32', 32, 16, mp.tan, tan2, -98304, 98304, 256, tantol(10, 16), parts=16)
    if tier == 'quick':
        for k in range(14):
            c = rnd.choice([-1, 1]) * rnd.randrange(0, 6442450944 - (1 << 22))
            c = 6442450944 - (1 << 21) if k == 0 else c
            obs += A.cover('tan64', 64, 32, mp.tan, tan2, c, c + (1 << 21), 1 << 20, tantol(2000, 32), parts=1, S=24, min=1 << 10, exectmo=100)
    else:
        obs += A.cover('tan64', 64, 32, mp.tan, tan2, -6442450944, 6442450944, 1 << 22, tantol(2000, 32), parts=64, S=24, min=1 << 10, exectmo=2000)
    return obs


def atan2d(a, b):
    # |2x/(1+x^2)^2| has its maximum 0.6496 at 1/sqrt(3)
    m = mp.mpf(0) if a <= 0 <= b else min(abs(a), abs(b))
    return mp.mpf('0.65') if m < 0.6 else 2 * m / (1 + m * m) ** 2


def octaves(f, top):
    """[lo,hi] ranges of one octave each, from 1 up"""
    return [(1 << k, (1 << (k + 1)) - 1) for k in range(f, top)]


@register('C23', 'c23.cpp')
def c23(tier, rnd):
    obs = [Ob('dom32', 'dom32', [Sym(32)]), Ob('dom64', 'dom64', [Sym(64)])]
    obs += [Ob('odd32', 'odd32', [Sym(32, 1)], tmo=60, weight=99, mode='fork'), Ob('odd64', 'odd64', [Sym(64, 1)], tmo=60, weight=99, mode='fork')]
    obs += A.cover('atan32', 32, 16, mp.atan, atan2d, -65536, 65536, 512, 20, parts=8)
    for lo, hi in octaves(16, 31):
        obs += A.cover('atan32', 32, 16, mp.atan, atan2d, lo, hi, max(512, (hi - lo) // 64), 20, parts=1, mono=True)
    obs += A.cover('atan64', 64, 32, mp.atan, atan2d, -(1 << 32), 1 << 32, 1 << 26, 1000000, parts=8, S=24, min=1 << 10)
    for W, f, tol in ((32, 16, 20), (64, 32, 1000000)):
        obs += A.cover('atan%d' % W, W, f, mp.atan, atan2d, -(1 << (W - 1)), -(1 << (W - 1)), 8, tol, parts=1)
    for lo, hi in octaves(32, 63):
        obs += A.cover('atan64', 64, 32, mp.atan, atan2d, lo, hi, (hi - lo) // 64, 1000000, parts=1, S=16, mono=True, min=1 << 10)
    def asin2(a, b):
        m = max(abs(a), abs(b))
        return m / (1 - m * m) ** mp.mpf(1.5) if m < 1 else mp.mpf(10) ** 9
    for n, one in ((32, 1 << 16), (64, 1 << 32)):
        for x in (-one, 0, one):
            obs.append(Ob('ends%d_%d' % (n, x), 'ends%d' % n, [Con(n, x)], witness=False))
    for k in range(8):
        a = -65536 + k * 16384
        obs.append(Ob('compl32_%d' % k, 'compl32', [Sym(32, max(a, -65535), a + 16383)], tmo=100, weight=99, mode='fork'))
    if tier == 'quick':
        for sg in (1, -1):
            def win(lo, hi, step, parts):
                lo, hi = (lo, hi) if sg > 0 else (-hi, -lo)
                return A.cover('asin32', 32, 16, mp.asin, asin2, lo, hi, step, 24, parts=parts, exectmo=150)
            obs += win(0 if sg > 0 else 1, 24000, 128, 12) + win(65473, 65536, 16, 4)
            for k in range(8):
                c = 24001 + k * 5184 + rnd.randrange(0, 5184 - 128)
                obs += win(c, c + 127, 32, 1)
    else:
        obs += A.cover('asin32', 32, 16, mp.asin, asin2, -65536, 65536, 128, 24, parts=64, exectmo=2000)
    one = 1 << 32
    for n, fn in (('asin64', mp.asin), ('acos64', mp.acos)):
        if tier == 'quick':
            for k in range(-6, 6):
                lo = k * (one // 6) + rnd.randrange(0, one // 6 - (1 << 23))
                wd = 1 << 23 if -5 <= k < 5 else 1 << 19
                obs += A.cover(n, 64, 32, fn, asin2, lo, lo + wd, wd // 2, 1000000, parts=1, S=24, exectmo=150, points=32)
            for lo, hi in ((one - 16384, one - 4096), (4096 - one, 16384 - one), (one - 31, one), (-one, 31 - one)):
                obs += A.cover(n, 64, 32, fn, asin2, lo, hi, 1024, 1000000, parts=2, S=24, exectmo=150, points=32)
        else:
            obs += A.cover(n, 64, 32, fn, asin2, -one, one, 1 << 23, 1000000, parts=64, S=24, exectmo=2000)
    return obs


@register('C26', 'c26.cpp')
def c26(tier, rnd):
    def d2(a, b):
        return mp.mpf(2) / 9 * mp.mpf(min(abs(a), abs(b))) ** (mp.mpf(-5) / 3)

    def cb(x):
        return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)
    obs = []
    def windows(name, W, f, lo, top, n, rel, tol, S, sg=1):
        # in every octave, windows of a fixed relative width
        out = []
        for a, b in octaves(lo, top):
            for k in range(n):
                wd = min(1 << 17, max(1, a >> rel))
                x = a + (b - a - wd) * k // n + rnd.randrange(0, max(1, (b - a - wd) // n))
                if sg < 0:
                    x = 1 - x - wd
                out += A.cover(name, W, f, cb, d2, x, x + wd - 1, wd, tol, parts=1, points=4, S=S, exectmo=60)
            # both sides of every power of two
            wd = min(1 << 10, max(1, a >> rel))
            for x in (a, b - wd + 1) if wd > 1 else ():
                if sg < 0:
                    x = 1 - x - wd
                out += A.cover(name, W, f, cb, d2, x, x + wd - 1, wd, tol, parts=1, points=4, S=S, exectmo=60)
        return out
    q = tier == 'quick'
    obs += A.cover('cbrt32', 32, 16, cb, d2, 5, 63, 1, 8, parts=8)
    obs += windows('cbrt32', 32, 16, 6, 31, 4 if q else 64, 10, 8, 16)
    obs += A.cover('cbrt32', 32, 16, cb, d2, (1 << 31) - 4096, (1 << 31) - 1, 4096, 8, parts=1, points=4)
    obs += A.cover('cbrt64', 64, 32, cb, d2, 327680, 327680 + 7, 4, 4096, parts=1, points=4)
    obs += windows('cbrt32', 32, 16, 6, 31, 1 if q else 16, 11, 8, 16, -1)
    obs += windows('cbrt64', 64, 32, 19, 63, 1 if q else 16, 18, 32, 16)
    obs += windows('cbrt64', 64, 32, 19, 63, 1 if q else 16, 20, 32, 16, -1)
    for W, f in ((32, 16), (64, 32)):
        eps = 5 if W == 32 else 327680
        obs.append(Ob('tiny%d' % W, 'tiny%d' % W, [Sym(W, 1 - eps, eps - 1)]))
    return obs


@register('C20', 'c20.cpp')
def c20(tier, rnd):
    q = tier == 'quick'

    def d2(a, b):
        return mp.mpf(1) / 4 * mp.mpf(min(abs(a), abs(b))) ** (mp.mpf(-3) / 2)
    obs = []
    for n, W in (('32', 32), ('64', 64), ('_8', 32)):
        obs.append(Ob('neg' + n, 'neg' + n, [Sym(W, None, -1)]))
        obs.append(Ob('zero' + n, 'zero' + n, [Con(W, 0)], witness=False))
    obs.append(Ob('root32[0,65535]', 'root32', [Sym(32, 0, 65535)], tmo=60))
    for a, b in octaves(16, 31):
        n = min(4 if q else 40, a >> 16)
        for k in range(n):
            x = a + (b - a - 65535) * k // n + rnd.randrange(0, max(1, (b - a - 65535) // n))
            obs.append(Ob('root32[%d,%d]' % (x, x + 65535), 'root32', [Sym(32, x, x + 65535)], tmo=60))
    obs.append(Ob('root32[end]', 'root32', [Sym(32, (1 << 31) - 65536, (1 << 31) - 1)], tmo=60))
    obs.append(Ob('root32[fast path]', 'root32', [Sym(32, 0x40000200 - 32768, 0x40000200 + 32768)], tmo=60))
    for nm, W, f, lo, top, rel in (('sqrt64', 64, 32, 2, 63, 12), ('sqrt_8', 32, 8, 1, 31, 8)):
        for a, b in octaves(lo, top):
            wd = min(1 << 20, max(1, a >> rel))
            n = min(1 if q else 8, a // wd)
            for k in range(n):
                x = a + (b - a - wd) * k // n + rnd.randrange(0, max(1, (b - a - wd) // n))
                obs += A.cover(nm, W, f, mp.sqrt, d2, x, x + wd - 1, wd, 1.5, parts=1, points=4, S=15, exectmo=60)
            # both sides of every power of two
            wd = min(wd, 1 << 12)
            for x in (a, b - wd + 1) if wd > 1 else ():
                obs += A.cover(nm, W, f, mp.sqrt, d2, x, x + wd - 1, wd, 1.5, parts=1, points=4, S=15, exectmo=60)
    for k in range(4 if q else 40):
        x, y, z = (rnd.choice([-1, 1]) * rnd.getrandbits(rnd.choice([10, 16, 20, 22])) for _ in range(3))
        obs.append(Ob('hypot2_%d' % k, 'hypot2', [Sym(32, x, x + 63), Sym(32, y, y + 63)], tmo=60))
        obs.append(Ob('hypot3_%d' % k, 'hypot3', [Sym(32, x, x + 15), Sym(32, y, y + 15), Sym(32, z, z + 15)], tmo=60))
    return obs


@register('C24', 'c24.cpp')
def c24(tier, rnd):
    q = tier == 'quick'
    obs = []

    def d2(a, b):
        return mp.log(2) ** -1 / mp.mpf(a) ** 2
    for n, W in (('32', 32), ('64', 64)):
        for g in ('log2', 'log', 'log10'):
            obs.append(Ob('dom_%s_%s' % (g, n), 'dom_%s_%s' % (g, n), [Sym(W)], tmo=60))
    for n, W, f in (('32', 32, 16), ('64', 64, 32), ('8', 32, 8)):
        for k in range(W - 1):
            a, b = 1 << k, (2 << k) - 1
            if k != f:
                obs.append(Ob('dbl_%s_%d' % (n, k), 'dbl_' + n, [Sym(W, a, b)], tmo=60, weight=W))
            if n != '8':
                for g, c in (('ln', mp.log(2) ** -1), ('lg', mp.log(10) / mp.log(2))):
                    obs.append(Ob('%s_%s_%d' % (g, n, k), '%s_%s' % (g, n), [Sym(W, a, b), Con(64, int(mp.nint(c * 2 ** (f + 16)))), Con(32, 5 if W == 32 else 12)], tmo=60, weight=W, relax=True))

    def lines(nm, W, f, x, n, tol, S):
        v = A.Fn(lambda t: mp.log(t) / mp.log(2), d2, f)
        c0, c1, slack = line(dict(F=v.F, D2=v.D2, S=S), x, x + n - 1)
        return Ob('%s[%d,%d]' % (nm, x, x + n - 1), nm, [Sym(W, x, x + n - 1), Con(64, x), Con(64, c0), Con(64, c1), Con(64, int(tol * 2 ** S) - slack), Con(32, S)], tmo=100)
    # one octave of mantissas; dbl carries it to all the others
    n = 16 if q else 256
    for k in range(n):
        x = 65536 + 65536 * k // n
        x += rnd.randrange(0, 65536 // n - 256 + 1) if q and 0 < k < n - 1 else 65536 // n - 256 if k else 0
        obs.append(lines('log2_32', 32, 16, x, 256, 5, 16))
    n, one = 6 if q else 64, 1 << 32
    for k in range(n):
        x = one + one * k // n
        x += rnd.randrange(0, one // n - 64) if 0 < k < n - 1 else one // n - 64 if k else 0
        obs.append(lines('log2_64', 64, 32, x, 64, 6, 16))
    obs.append(lines('log2_8', 32, 8, 256, 256 if not q else 64, 5, 16))
    return obs


@register('C32', 'c32.cpp')
def c32(tier, rnd):
    q = tier == 'quick'
    obs = [Ob('odd32', 'odd32', [Sym(32, 1)], tmo=100, weight=99)]
    for n, W, f in (('32', 32, 16), ('64', 64, 32)):
        p = int(mp.pi * 2 ** f) * 2
        top = (1 << (W - 1)) // p
        for k in [1, 2, 3, top - 1] + [rnd.randrange(4, top - 1) for _ in range(4 if q else 40)]:
            obs.append(Ob('per%s_%d' % (n, k), 'per' + n, [Sym(W, k * p, k * p + p - 1)], tmo=100))
        if W == 64:
            for k in range(8):
                x = k * (p // 4) + rnd.randrange(1, p // 4 - 65536)
                obs.append(Ob('odd%s_%d' % (n, k), 'odd' + n, [Sym(W, x, x + 65535)], tmo=100))
            obs.append(Ob('oddw', 'odd' + n, [Sym(W, (1 << 63) - 65536, (1 << 63) - 1)], tmo=100))

    def lines(nm, W, f, x, n, tol, S):
        v = A.Fn(mp.sin, A.TRIG, f)
        c0, c1, slack = line(dict(F=v.F, D2=v.D2, S=S), x, x + n - 1)
        return Ob('%s[%d,%d]' % (nm, x, x + n - 1), nm, [Sym(W, x, x + n - 1), Con(64, x), Con(64, c0), Con(64, c1), Con(64, int(tol * 2 ** S) - slack), Con(32, S)], tmo=100)
    for n, W, f, wd in (('32', 32, 16, 1024), ('64', 64, 32, 1024)):
        h = int(mp.pi * 2 ** f) // 2
        for k in range(4):             # around the quadrant boundaries, and inside the quadrants
            obs.append(lines('cordic' + n, W, f, k * h - wd // 2, wd, 30, 16))
            m = (4 if W == 32 else 2) if q else 101 if W == 32 else 20
            for j in range(m):
                x = k * h + h * j // m + (rnd.randrange(0, h // m - wd) if q or W == 64 else 0)
                obs.append(lines('cordic' + n, W, f, x, wd, 30, 16))
        obs.append(lines('cordic' + n, W, f, 4 * h - wd, wd, 30, 16))
        x = -rnd.randrange(wd, 4 * h)
        obs.append(lines('cordic' + n, W, f, x, wd, 30, 16))
    return obs


@register('C25', 'c25.cpp')
def c25(tier, rnd):
    q = tier == 'quick'

    def d2(a, b):
        return mp.exp(max(a, b))
    obs = []
    for n, W, f, rel, add in (('32', 32, 16, '6.6e-5', 3), ('64', 64, 32, '2e-6', 16)):
        top = int(mp.floor(mp.log((1 << (W - 1 - f)) - 1) * 2 ** f)) - (1 << (f - 7))
        one = 1 << f

        def tol(a, b, rel=rel, add=add, f=f, one=one):
            return mp.mpf(rel) * mp.exp(mp.mpf(a) / one) * one + add
        for k in range(0, top // one + 1):
            S = 16 if W == 32 else max(0, min(16, 60 - f - int((k + 1) / mp.log(2))))
            p, m = (k * one, min(k * one + one - 1, top)), (max(-(k * one + one - 1), -top), -k * one - (k == 0))
            if W == 32 or not q:
                obs += A.cover('exp' + n, W, f, mp.exp, d2, p[0], p[1], one >> 6, tol, parts=1 if q else 8, S=S, exectmo=100 if q else 2000)
                obs += A.cover('exp' + n, W, f, mp.exp, d2, m[0], m[1], one >> (6 if W == 32 else 12), tol, parts=1 if q else 8, S=16, exectmo=100 if q else 2000)
            else:
                x = rnd.randrange(p[0], p[1] - (1 << 27))
                obs += A.cover('exp' + n, W, f, mp.exp, d2, x, x + (1 << 27) - 1, 1 << 26, tol, parts=1, S=S, exectmo=100)
                x = rnd.randrange(m[0], m[1] - (1 << 22))
                obs += A.cover('exp' + n, W, f, mp.exp, d2, x, x + (1 << 22) - 1, 1 << 20, tol, parts=1, S=16, exectmo=100)
        lim = int(mp.ceil(mp.log(2) * (W - 1 - f) * one)) + W
        obs.append(Ob('tiny' + n, 'tiny' + n, [Sym(W, None, -lim)]))
        obs.append(Ob('zero' + n, 'zero' + n, [Con(W, 0)], witness=False))
        obs.append(Ob('base0' + n, 'base0' + n, [Sym(W)]))
        obs.append(Ob('base0i' + n, 'base0i' + n, [Sym(32)]))
        for e in (0, 1, 2, -1):
            obs.append(Ob('law%s_%d' % (n, e), 'law' + n, [Sym(W), Con(32, e)], tmo=60))
        for e in list(range(0, 9)) + [12, 15] + ([20, 30] if W == 64 else []):
            m = int(mp.floor(mp.mpf((1 << (W - 1 - f)) - 1) ** (mp.mpf(1) / e))) if e else (1 << (W - 1 - f)) - 1
            obs.append(Ob('whole%s_%d' % (n, e), 'whole' + n, [Sym(32, -m, m), Con(32, e)], tmo=60))
        for e in range(1, 7):
            for a, b in ((1, 32767),) if W == 32 else ((1, 2047), (32700, 32900), ((1 << 31) - 1024, (1 << 31) - 1)):
                obs.append(Ob('inverse%s_%d_%d' % (n, e, a), 'inverse' + n, [Sym(32, a, b), Con(32, e)], tmo=60, mode='fork', relax=True))
        for e in (-3, -2, -1, 0, 1, 2, 3, 5):
            obs.append(Ob('same%s_%d' % (n, e), 'same' + n, [Sym(W), Con(32, e)], tmo=60))
            obs.append(Ob('reject%s_%d' % (n, e), 'reject' + n, [Sym(W, None, -1 if e >= -1 else -one), Sym(W, e * one + 1, e * one + one - 1)], tmo=60))
    # fractional exponents: windows of bases
    for n, W, f, rel, cnt, wd in (('32', 32, 16, '2e-4', 12 if q else 96, 16), ('64', 64, 32, '4e-6', 4 if q else 32, 4)):
        one = 1 << f
        for k in range(cnt):
            e = mp.mpf([1, 3, 6, 9, -2, -5][k % 6]) / 4 if k % 2 == 0 or k % 6 == 5 else mp.mpf(rnd.randrange(-2 * one, 3 * one) | 1) / one
            big = mp.mpf(1 << (W - 3 - f))
            hi = min(big, big ** (1 / abs(e)))
            lo = mp.mpf(1) / 64 if e > 0 else max(mp.mpf(1) / 64, 1 / hi)
            x = int(lo * (hi / lo) ** (mp.mpf(rnd.random())) * one)
            nn = max(wd, min(1024, x >> (14 if W == 32 else 29)))
            v = A.Fn(lambda t: t ** e, lambda a, b: abs(e * (e - 1)) * max(a ** (e - 2), b ** (e - 2)), f)
            t = min(v.F(x), v.F(x + nn)) * mp.mpf(rel) + 4
            S = max(0, min(16, 61 - int(mp.log(max(v.F(x), v.F(x + nn), 1), 2))))
            c0, c1, slack = line(dict(F=v.F, D2=v.D2, S=S), x, x + nn - 1)
            assert t * 2 ** S > 2 * slack
            obs.append(Ob('pow%s[%d,%d]^%d' % (n, x, x + nn - 1, int(e * one)), 'pow' + n,
                          [Sym(W, x, x + nn - 1), Con(64, x), Con(64, c0), Con(64, c1), Con(64, int(t * 2 ** S) - slack), Con(32, S), Con(W, int(e * one))], tmo=100))
    return obs
