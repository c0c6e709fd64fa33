from props import register
from vp.core import Ob, Sym, Con

# name: (width, signed, fraction, rounding)
FM = dict(q8_4=(8, 1, 4, 0), q16_8=(16, 1, 8, 0), q16_13=(16, 1, 13, 0), q32_16=(32, 1, 16, 0), q32_8=(32, 1, 8, 0), q32_24=(32, 1, 24, 0),
          q64_32=(64, 1, 32, 0), q64_48=(64, 1, 48, 0), q64_16=(64, 1, 16, 0),
          q8_4r=(8, 1, 4, 1), q16_8r=(16, 1, 8, 1), q32_16r=(32, 1, 16, 1), q32_24r=(32, 1, 24, 1), q64_32r=(64, 1, 32, 1),
          u16_8=(16, 0, 8, 0), u32_16=(32, 0, 16, 0), u64_32=(64, 0, 32, 0))
SIGNED = [k for k, v in FM.items() if v[1]]
PLAIN = [k for k, v in FM.items() if not v[3]]
ROUND = [k for k, v in FM.items() if v[3]]
MAIN = ['q32_16', 'q64_32']


def w(f):
    return FM[f][0]


@register('C01', 'c01.cpp')
def c01(tier, rnd):
    obs = []
    for f in FM:
        for op in ('add', 'sub'):
            obs.append(Ob('%s_%s' % (op, f), '%s_%s' % (op, f), [Sym(w(f)), Sym(w(f))]))
        for op in ('self', 'inc', 'dec'):
            obs.append(Ob('%s_%s' % (op, f), '%s_%s' % (op, f), [Sym(w(f))]))
        if f in SIGNED:
            obs.append(Ob('neg_' + f, 'neg_' + f, [Sym(w(f))]))
        for n, k in (('i8', 8), ('i32', 32), ('u32', 32), ('i64', 64), ('u64', 64)):
            obs.append(Ob('add%s_%s' % (n, f), 'add%s_%s' % (n, f), [Sym(w(f)), Sym(k)]))
    return obs


@register('C02', 'c02.cpp')
def c02(tier, rnd):
    obs = []
    for f in FM:
        big = w(f) == 64
        hard = 40 if w(f) >= 32 else 10
        if tier == 'thorough':
            hard *= 6
        obs.append(Ob('mul_' + f, 'mul_' + f, [Sym(w(f)), Sym(w(f))], tmo=hard, weight=w(f)))
        obs.append(Ob('self_' + f, 'self_' + f, [Sym(w(f))], tmo=hard, weight=w(f)))
        lim = 1 << (w(f) - 1)
        one = 1 << FM[f][2]
        for c in [1, -1, one, -one, 3 * one + 1, -one // 2 - 1, lim - 1, -lim, one // 2, 5]:
            if -lim <= c < lim:
                obs.append(Ob('mul_%s_by_%d' % (f, c), 'mul_' + f, [Sym(w(f)), Con(w(f), c)], tmo=20))
        for n, k in (('i8', 8), ('i32', 32), ('u32', 32), ('i64', 64)):
            if f == 'u64_32' and n == 'i64':
                continue
            if f[0] == 'u' and n[0] == 'i':
                a = [Sym(w(f)), Sym(k, 0)]
            else:
                a = [Sym(w(f)), Sym(k)]
            obs.append(Ob('mul%s_%s' % (n, f), 'mul%s_%s' % (n, f), a, tmo=hard, weight=w(f) // 2))
    return obs


@register('C03', 'c03.cpp')
def c03(tier, rnd):
    obs = []
    t = 40 if tier == 'quick' else 240
    for f in FM:
        lim = 1 << (w(f) - 1)
        one = 1 << FM[f][2]
        obs.append(Ob('div_' + f, 'div_' + f, [Sym(w(f)), Sym(w(f))], tmo=t, weight=w(f)))
        obs.append(Ob('self_' + f, 'self_' + f, [Sym(w(f))], tmo=20))
        obs.append(Ob('zero_' + f, 'zero_' + f, [Sym(w(f))]))
        for c in [1, -1, one, -one, 3 * one + 1, -one // 2 - 1, lim - 1, -lim, one // 2, 5, -7]:
            if -lim <= c < lim and (f[0] != 'u' or c > 0):
                obs.append(Ob('div_%s_by_%d' % (f, c), 'div_' + f, [Sym(w(f)), Con(w(f), c)], tmo=20))
        for n, k in (('i8', 8), ('i32', 32), ('u32', 32), ('i64', 64)):
            a = [Sym(w(f)), Sym(k, 0) if f[0] == 'u' and n[0] == 'i' else Sym(k)]
            obs.append(Ob('div%s_%s' % (n, f), 'div%s_%s' % (n, f), a, tmo=t, weight=w(f) // 2))
        obs.append(Ob('idiv_' + f, 'idiv_' + f, [Sym(w(f)), Sym(32, 0) if f[0] == 'u' else Sym(32)], tmo=t, weight=w(f) // 2))
    return obs


@register('C04', 'c04.cpp')
def c04(tier, rnd):
    obs = []
    t = 40 if tier == 'quick' else 240
    for f in FM:
        lim = 1 << (w(f) - 1)
        one = 1 << FM[f][2]
        obs.append(Ob('mod_' + f, 'mod_' + f, [Sym(w(f)), Sym(w(f))], tmo=t, weight=w(f)))
        obs.append(Ob('self_' + f, 'self_' + f, [Sym(w(f))], tmo=20))
        if w(f) <= 8 or tier == 'thorough' and w(f) <= 16:
            obs.append(Ob('law_' + f, 'law_' + f, [Sym(w(f)), Sym(w(f))], tmo=t, weight=w(f)))
        for c in [1, -1, one, -one, 3 * one + 1, -one // 2 - 1, lim - 1, -lim, 5, -7]:
            if -lim <= c < lim and (f[0] != 'u' or c > 0):
                obs.append(Ob('mod_%s_by_%d' % (f, c), 'mod_' + f, [Sym(w(f)), Con(w(f), c)], tmo=20))
                if w(f) <= 16:
                    obs.append(Ob('law_%s_by_%d' % (f, c), 'law_' + f, [Sym(w(f)), Con(w(f), c)], tmo=20))
        for n in ('i32', 'u32'):
            a = [Sym(w(f)), Sym(32, 0) if f[0] == 'u' and n[0] == 'i' else Sym(32)]
            obs.append(Ob('mod%s_%s' % (n, f), 'mod%s_%s' % (n, f), a, tmo=t, weight=w(f) // 2))
    return obs


@register('C05', 'c05.cpp')
def c05(tier, rnd):
    obs = []
    for f in FM:
        obs.append(Ob('cmp_' + f, 'cmp_' + f, [Sym(w(f)), Sym(w(f))]))
        if f in SIGNED and (f in PLAIN or f in ('q32_16r', 'q64_32r')):
            obs.append(Ob('near_' + f, 'near_' + f, [Sym(w(f)), Sym(w(f))]))
    return obs


@register('C06', 'c06.cpp')
def c06(tier, rnd):
    obs = [Ob('literal', 'literal', [Sym(64)])]
    for f in FM:
        for n, k in (('i8', 8), ('u8', 8), ('i16', 16), ('i32', 32), ('u32', 32), ('i64', 64), ('u64', 64)):
            if f == 'q8_4' or f == 'q8_4r' or True:
                obs.append(Ob('from%s_%s' % (n, f), 'from%s_%s' % (n, f), [Sym(k)]))
                obs.append(Ob('to%s_%s' % (n, f), 'to%s_%s' % (n, f), [Sym(w(f))]))
    return obs


@register('C07', 'c07.cpp', assumptions=['IEEE binary32/binary64 arithmetic, round to nearest even, as z3 FloatingPoint models it', 'long double conversions are outside the claim'])
def c07(tier, rnd):
    obs = []
    t = 60 if tier == 'quick' else 400
    for f in SIGNED:
        obs.append(Ob('fromd_' + f, 'fromd_' + f, [Sym(64)], fp=True, tmo=t, weight=10))
        obs.append(Ob('tod_' + f, 'tod_' + f, [Sym(w(f))], fp=True, tmo=t, weight=10))
        obs.append(Ob('rt_' + f, 'rt_' + f, [Sym(w(f))], fp=True, tmo=t, weight=20))
        if f in PLAIN:
            obs.append(Ob('fromf_' + f, 'fromf_' + f, [Sym(32)], fp=True, tmo=t, weight=5))
            obs.append(Ob('tof_' + f, 'tof_' + f, [Sym(w(f))], fp=True, tmo=t, weight=5))
    return obs


PAIRS = '''q64_32 q32_16, q32_16 q64_32, q32_24 q8_4, q16_8 q32_24, q32_8 q64_48, q32_24 q32_16, q32_16 q32_24, q8_4 q16_13, q64_48 q16_13,
q32_16r q64_32, q16_8r q32_16, q64_32r q32_16r, q32_16r q64_32r, q64_32 q32_16r, q8_4r q32_24r, q32_16 q16_8, q64_32 q8_4, q64_16 q64_32,
q64_32 q64_16, q16_8 q64_32, q32_16r q32_16, q32_16 q32_16r, u32_16 u16_8, u16_8 u32_16, u64_32 u32_16, u32_16 u64_32'''


@register('C08', 'c08.cpp')
def c08(tier, rnd):
    obs = []
    for p in PAIRS.replace('\n', ' ').split(','):
        d, s = p.split()
        obs.append(Ob('cv_%s_%s' % (s, d), 'cv_%s_%s' % (s, d), [Sym(w(s))]))
    for d, s in (('q64_32', 'q32_16'), ('q32_24', 'q8_4'), ('q64_48', 'q16_13'), ('q64_32r', 'q32_16r'), ('u64_32', 'u32_16')):
        obs.append(Ob('rt_%s_%s' % (s, d), 'rt_%s_%s' % (s, d), [Sym(w(s))]))
    return obs


@register('C09', 'c09.cpp')
def c09(tier, rnd):
    obs = []
    for f in SIGNED:
        obs.append(Ob('parts_' + f, 'parts_' + f, [Sym(w(f))]))
        obs.append(Ob('abs_' + f, 'abs_' + f, [Sym(w(f))]))
        obs.append(Ob('mm_' + f, 'mm_' + f, [Sym(w(f)), Sym(w(f))]))
    return obs


@register('C10', 'c10.cpp')
def c10(tier, rnd):
    return [Ob('%s_%s' % (op, f), '%s_%s' % (op, f), [Sym(w(f))]) for f in SIGNED for op in ('floor', 'ceil', 'trunc', 'round')]


@register('C11', 'c11.cpp')
def c11(tier, rnd):
    t = 25 if tier == 'quick' else 400
    obs = []
    for f in SIGNED:
        if f not in PLAIN:
            continue
        one = 1 << FM[f][2]
        lim = 1 << (w(f) - 1)
        for op in ('fmod', 'any') if w(f) <= 16 or tier == 'thorough' else ('any',):
            if w(f) <= 16 or tier == 'thorough':
                obs.append(Ob('%s_%s' % (op, f), '%s_%s' % (op, f), [Sym(w(f)), Sym(w(f))], tmo=t, weight=w(f)))
            else:
                # both operands symbolic in a window around interesting magnitudes
                for k, (lo, hi, bl, bh) in enumerate([(-4096, 4096, -256, 256), (-2 * one - 64, -2 * one + 64, one - 64, one + 64), (2 * one - 256, 2 * one + 256, one - 64, one + 64),
                                                      (5 * one // 2, 5 * one // 2 + 511, one // 2 - 31, one // 2 + 32), (7 * one, 7 * one + 511, 3, 66)]):
                    if k == 4 and 9 * one >= lim >> FM[f][2]:
                        continue
                    obs.append(Ob('%s_%s_w%d' % (op, f, k), '%s_%s' % (op, f), [Sym(w(f), lo, hi), Sym(w(f), bl, bh)], tmo=t, weight=w(f)))
            for c in [1, 2, one, 2 * one, one // 2, 3 * one, 3 * one + 1, 10 * one + one // 3, 5, lim - 1] + ([] if op == 'fmod' else [-1, -one, -3 * one, -one // 2, -lim]):
                if -lim <= c < lim:
                    obs.append(Ob('%s_%s_by_%d' % (op, f, c), '%s_%s' % (op, f), [Sym(w(f)), Con(w(f), c)], tmo=t, witness=False))
    return obs
