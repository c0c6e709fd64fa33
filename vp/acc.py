"""Accuracy obligations: the true function by mpmath, curvature bounds, and the cutting of a range into obligations."""
import mpmath as mp
from .core import Ob, Sym, Con

mp.mp.prec = 200


def TRIG(a, b):
    return mp.mpf(1)                   # |f''| <= 1


def curve(g):
    """bound on |f''| from a function of the magnitude that is decreasing in |x|"""
    def f(a, b):
        m = mp.mpf(0) if a <= 0 <= b else min(abs(a), abs(b))
        return g(m)
    return f


class Fn:
    """fixed point view of a real function: raw value -> exact result in raw units"""

    def __init__(s, fn, d2, f):
        s.fn, s.d2, s.f = fn, d2, f

    def F(s, x):
        return s.fn(mp.mpf(x) / 2 ** s.f) * mp.mpf(2) ** s.f

    def D2(s, lo, hi):
        return s.d2(mp.mpf(lo) / 2 ** s.f, mp.mpf(hi) / 2 ** s.f) / mp.mpf(2) ** s.f


def cover(name, W, f, fn, d2, lo, hi, step, tol, parts=8, S=16, min=8, fn_name=None, exectmo=300, mono=False, points=0, **kw):
    """|implementation - fn| <= tol (raw units) for every raw value in [lo,hi], as `parts` obligations"""
    n = -(-(hi - lo + 1) // parts)
    v = Fn(fn, d2, f)
    out = []
    for i in range(parts):
        a, b = lo + i * n, lo + i * n + n - 1
        if b > hi:
            b = hi
        if a > b:
            break
        acc = dict(F=v.F, D2=v.D2, S=S, tol=tol, range=(a, b), step=step, w=W, min=min, mono=mono, points=points)
        out.append(Ob('%s[%d,%d]' % (name, a, b), fn_name or name, [Sym(W, a, b)], acc=acc, exectmo=exectmo, **kw))
    return out
