import mpmath as mp
from props import register
from vp.core import Ob, Sym, Con, Buf
from props.arith import FM, SIGNED, PLAIN, ROUND, w


@register('C27', 'c27.cpp')
def c27(tier, rnd):
    obs = []
    for f in ('q32_16', 'q32_16r', 'q32_8', 'q64_32', 'q64_16', 'q64_48'):
        W, s, fr, r = FM[f]
        most = (((1 << (W - 1)) - 1) // 180 - 4) * int(mp.nint(mp.pi * 2 ** fr)) // 2 ** fr + 2
        obs.append(Ob('deg_' + f, 'deg_' + f, [Sym(W, -most, most)], tmo=60, weight=W, mode='fork', relax=True))
        obs.append(Ob('rad_' + f, 'rad_' + f, [Sym(W)], tmo=60, weight=W, mode='fork', relax=True))
    return obs


@register('C30', 'c30.cpp')
def c30(tier, rnd):
    obs = []
    for n, W in (('32', 32), ('64', 64)):
        obs.append(Ob('value_' + n, 'value_' + n, [Sym(W), Sym(64)], ubsan=True, tmo=100))
        for m in range(0, 9 if tier == 'quick' else 33):
            obs.append(Ob('discard_%s_%d' % (n, m), 'discard_' + n, [Sym(W), Sym(64), Con(32, m)], ubsan=True, tmo=100))
        obs.append(Ob('split_' + n, 'split_' + n, [Sym(W), Sym(64), Sym(64)], ubsan=True, tmo=100))
        obs.append(Ob('seed_' + n, 'seed_' + n, [Sym(W), Sym(64), Sym(W)], ubsan=True, tmo=100))
        obs.append(Ob('equal_' + n, 'equal_' + n, [Sym(W), Sym(W), Sym(64), Sym(64)], ubsan=True, tmo=100))
    obs.append(Ob('adapt_32', 'adapt_32', [Sym(32), Sym(64)], ubsan=True, tmo=100))
    obs.append(Ob('adapt_64', 'adapt_64', [Sym(64), Sym(64)], ubsan=True, tmo=100))
    obs.append(Ob('adapt_64_32', 'adapt_64_32', [Sym(64), Sym(64)], ubsan=True, tmo=100))
    return obs


@register('C31', 'c31.cpp')
def c31(tier, rnd):
    obs = []
    for n, W in (('int32', 32), ('fix32', 32), ('int64', 64), ('fix64', 64)):
        obs.append(Ob('any_' + n, 'any_' + n, [Sym(W)] * 4 + [Sym(W)] * 2, tmo=100))
    return obs


@register('C34', 'c34.cpp')
def c34(tier, rnd):
    obs = [Ob('sum', 'sum', [Sym(64)] * 4), Ob('saturate', 'saturate', [Sym(64)] * 2), Ob('bits', 'bits', [Sym(64)] * 2), Ob('sum64', 'sum64', [Sym(64)] * 2)]
    for n in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64'):
        obs.append(Ob('from_' + n, 'from_' + n, [Sym(int(n[1:]))]))
    for e in (0, 1):
        obs.append(Ob('from_f64_%d' % e, 'from_f64', [Sym(64, -(1 << 53), 1 << 53), Con(32, e)], fp=True))
    return obs


@register('C28', 'c28.cpp')
def c28(tier, rnd):
    obs = [Ob('c' + n, 'c' + n, [Sym(32), Sym(32)], tmo=60) for n in ('32', '32r', '64', '64r', '16')]
    obs.append(Ob('named', 'named', [Sym(32)], tmo=60))
    for f in ('q32_16', 'q32_8', 'q64_32', 'q64_16'):
        obs.append(Ob('lim_' + f, 'lim_' + f, [Sym(FM[f][0])], tmo=60))
    return obs


@register('C33', 'c33.cpp')
def c33(tier, rnd):
    obs = []
    for n, k in (('turn4', 4), ('turn2', 2)):
        for i in range(k):
            hs = [0, 6, -1, -8, (1 << 31) - 1, -(1 << 31)] + [rnd.randrange(-(1 << rnd.randrange(4, 32)), 1 << rnd.randrange(4, 32)) for _ in range(10 if tier == 'quick' else 200)]
            for h in hs:
                obs.append(Ob('%s_%d[%d]' % (n, i, h), n, [Sym(64, max(-(1 << 63), (h << 32) - (1 << 36)), min((1 << 63) - 1, (h << 32) + (1 << 36))) if j == i else Sym(64) for j in range(k)] + [Con(32, i)], flags=('-mavx2',), tmo=60))
        # the same source with AVX-512 enabled takes other branches; executed symbolically only
        obs.append(Ob('%s_avx512' % n, n, [Sym(64, -(1 << 37), 1 << 37)] + [Sym(64)] * (k - 1) + [Con(32, 0)], flags=('-mavx2', '-mavx512dq', '-mavx512vl'), tmo=100, witness=False))
    return obs
