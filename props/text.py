from props import register
from vp.core import Ob, Sym, Con, Buf
from props.arith import FM, SIGNED, PLAIN, ROUND, w

DIG = b'0123456789'


def shape(neg, ni, nf, zeros=0):
    """alphabets of -?0{zeros}d{ni}[.d{nf}] (nf None: no point)"""
    per, k = {}, 0
    if neg:
        per[0] = b'-'
        k = 1
    for _ in range(zeros):
        per[k] = b'0'
        k += 1
    k += ni
    if nf is not None:
        per[k] = b'.'
        k += 1 + nf
    return Buf(k, DIG, b'', per), k


def intdigits(f):
    W, s, fr, r = FM[f]
    return len(str(1 << (W - s - fr)))


def fracdigits(f):
    W, s, fr, r = FM[f]
    return len(str(((1 << fr) - 1) // 10)) + 1


@register('C12', 'c12.cpp')
def c12(tier, rnd):
    obs = []

    def add(fn, ni, nf, neg, zeros=0, **kw):
        b, n = shape(neg, ni, nf, zeros)
        nm = '%s_%s%s%d%s' % (fn, 'm' if neg else '', 'z%d+' % zeros if zeros else '', ni, '' if nf is None else 'p%d' % nf)
        obs.append(Ob(nm, fn, [b, Con(64, n)], mode='fork', lin=True, tmo=40, weight=n, **kw))
    for f in FM:
        I, F = intdigits(f), fracdigits(f)
        big = w(f) == 64
        for fn in ('parse_', 'cstr_'):
            if f in ROUND and fn == 'cstr_' and tier == 'quick':
                continue
            for neg in (0, 1):
                shapes = [(I, None), (I, 1), (1, F + 1), (0, F)]
                if tier == 'thorough':
                    shapes += [(I, F), (I + 1, F + 2), (I - 1, F + 1), (2, F - 1), (1, F + 6)]
                elif not big:
                    shapes += [(I, F), (I + 1, F + 2)]
                elif f in ('q64_32', 'u64_32') and neg == (f == 'q64_32'):
                    shapes += [(I, F)]
                for ni, nf in shapes:
                    add(fn + f, ni, nf, neg)
    # long texts: leading zeros and digits far below the resolution
    for f in ('q32_16', 'q64_32', 'q16_8'):
        for fn in ('parse_', 'cstr_'):
            add(fn + f, 1, 24 if f == 'q64_32' else 70, 0)
            add(fn + f, 2, 1, 1, zeros=40)
    add('f32', 1, 70, 0)
    add('f32', 2, 1, 1, zeros=40)
    for neg in (0, 1):
        for ni, nf in ((5, None), (5, 1), (5, 5), (6, 7), (1, 6), (0, 5), (1, 0)):
            add('f32', ni, nf, neg)
        for ni, nf in ((5, None), (5, 5), (2, 7)):
            add('lit32', ni, nf, neg)
        for ni, nf in ((10, None), (2, 10)):
            add('lit64', ni, nf, neg)
    return obs


TXT = b'-+. 0123456789eEx,/:'


@register('C13', 'c13.cpp')
def c13(tier, rnd):
    obs = []

    def add(fn, n, alpha=None, per=None, tag=''):
        obs.append(Ob('%s_%d%s' % (fn, n, tag), fn, [Buf(n, alpha, b'', per), Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=40, weight=n))
    for f in FM:
        if f in ROUND and f not in ('q32_16r',):
            continue
        for n in list(range(0, 8)) + (([9, 11] if f in ('q32_16', 'q64_32') else [9]) if tier == 'quick' else list(range(8, 17))):
            for fn in ('parse_', 'cstr_'):
                add(fn + f, n)
    for n in list(range(0, 8)) + ([9, 11] if tier == 'quick' else list(range(8, 17))):
        add('f32', n)
    # long texts that go wrong (or do not) late: leading zeros, or digits below the resolution, then any bytes
    for fn in [a + f for f in ('q32_16', 'q64_32', 'q16_8', 'u32_16') for a in ('parse_', 'cstr_')] + ['f32']:
        add(fn, 43, per=dict([(0, b'-')] + [(k, b'0') for k in range(1, 40)]), tag='z')
        nf = 12 if '64' in fn else 24
        add(fn, nf + 4, per=dict([(0, DIG), (1, b'.')] + [(k, DIG) for k in range(2, nf + 2)]), tag='f')
        add(fn, nf + 4, per=dict([(0, DIG), (1, b'.')] + [(k, DIG) for k in range(2, nf + 4) if k != 9]), tag='i')
    return obs


@register('C14', 'c14.cpp')
def c14(tier, rnd):
    obs = []
    top = 9 if tier == 'quick' else 13
    for n in range(0, top):
        obs.append(Ob('view_%d' % n, 'view', [Buf(n, None, b''), Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
        obs.append(Ob('cstr_%d' % n, 'ptrs', [Buf(n, None, b'\0'), Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
        if n < top - 1:
            for t in b';5.-':
                obs.append(Ob('until_%02x_%d' % (t, n), 'ptrs', [Buf(n, None, bytes([t])), Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
    for neg in (0, 1):
        for ni, nf in ((5, 5), (6, 7), (5, None), (1, 12)):
            b, n = shape(neg, ni, nf)
            obs.append(Ob('view_%s%d_%s' % ('m' if neg else '', ni, nf), 'view', [b, Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
        for ni, nf, z in ((1, 60, 0), (2, 3, 40)):
            b, n = shape(neg, ni, nf, z)
            obs.append(Ob('view_%s%d_%d_z%d' % ('m' if neg else '', ni, nf, z), 'view', [b, Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
            b, n = shape(neg, ni, nf, z)
            b.tail = b'\0'
            obs.append(Ob('cstr_%s%d_%d_z%d' % ('m' if neg else '', ni, nf, z), 'ptrs', [b, Con(64, n)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
    return obs


@register('C15', 'c15.cpp', assumptions=['the stream is a model of std::basic_istream (good/eof/fail/bad rules of peek, get and setstate) over a symbolic character array; buffering, locales and wide characters are outside the claim'])
def c15(tier, rnd):
    obs = []
    for f in FM:
        if f in ROUND and f != 'q32_16r':
            continue
        for n in list(range(0, 7)) + ([9] if f in ('q32_16', 'q64_32') else []) + (list(range(7, 13)) if tier == 'thorough' else []):
            if n == 9 and tier == 'thorough' and f in ('q32_16', 'q64_32') and any(o.name == 'ext_%s_9' % f for o in obs):
                continue
            obs.append(Ob('ext_%s_%d' % (f, n), 'ext_' + f, [Buf(n, None, b''), Con(64, n), Con(32, 0), Con(32, 0)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
    for f in ('q32_16', 'q64_32', 'u32_16'):
        for st in range(1, 8):
            obs.append(Ob('ext_%s_state%d' % (f, st), 'ext_' + f, [Buf(3, None, b''), Con(64, 3), Con(32, st), Con(32, 0)], mode='fork', lin=True, ubsan=True, tmo=60))
        for n in range(0, 7):
            obs.append(Ob('ext_%s_throw%d' % (f, n), 'ext_' + f, [Buf(n, None, b''), Con(64, n), Con(32, 0), Con(32, 1)], mode='fork', lin=True, ubsan=True, tmo=60))
    for f in FM:
        I, F = intdigits(f), fracdigits(f)
        for neg in (0, 1):
            for ni, nf, z in ((I, None, 0), (1, F + 1, 0)) + (((1, 16 if w(f) == 64 else 40, 0), (1, 2, 40)) if f in ('q32_16', 'q64_32', 'q16_8') else ()):
                b, n = shape(neg, ni, nf, z)
                b.tail = b' '
                obs.append(Ob('ext_%s_%s%d_%s%s' % (f, 'm' if neg else '', ni, nf, '_z%d' % z if z else ''), 'ext_' + f, [b, Con(64, n + 1), Con(32, 0), Con(32, 0)], mode='fork', lin=True, ubsan=True, tmo=60, weight=n))
    return obs


def topint(f):
    """largest integer part considered (unsigned 64-bit formats: the lower half of the range)"""
    W, s, fr, r = FM[f]
    return (1 << (W - (s or W == 64) - fr)) - 1


def parts(f, base=10):
    """the integer parts of the format, by number of digits"""
    W, s, fr, r = FM[f]
    top = topint(f)
    out, lo = [], 0
    while lo <= top:
        hi = min(top, max(lo, 1) * base - 1)
        out.append((lo, hi))
        lo = hi + 1
    return out


def composed(f, base, tier, few=False):
    """(ip range, t, neg) combinations: every value of the format but the most negative one (few: some of them)"""
    W, s, fr, r = FM[f]
    ps = parts(f, 10) if base == 10 else [(0, topint(f))]
    for t in range(fr + 1):
        for k, p in enumerate(ps):
            if few and t not in (0, fr // 2, fr - 1, fr):
                continue
            if tier == 'quick' and W >= 32 and base == 10 and not ((W < 64 and not few and t < 4) or t in (0, 7, fr - 1, fr) or k in (0, len(ps) - 1)):
                continue
            if few and base == 10 and W > 16 and k not in (0, len(ps) - 1):
                continue
            for neg in (0, 1) if s else (0,):
                yield p, t, neg


@register('C16', 'c16.cpp')
def c16(tier, rnd):
    obs = []

    def add(fn, f, base, few=False):
        W, s, fr, r = FM[f]
        for (lo, hi), t, neg in composed(f, base, tier, few):
            obs.append(Ob('%s_%s_%s%d_t%d' % (fn, f, 'm' if neg else '', lo, t), '%s_%s' % (fn, f),
                          [Sym(64, lo, hi), Sym(64, 0, (1 << (fr - t - 1)) - 1) if fr - t > 1 else Con(64, 0), Con(32, neg), Con(32, t)],
                          mode='fork', lin=True, ubsan=True, tmo=60, weight=W, nsample=8))
    quick = tier == 'quick'
    for f in FM:
        for k, b in (('chars', 10), ('hexl', 16), ('hexu', 16), ('octal', 8), ('binary', 2)):
            if f in ROUND and (f != 'q32_16r' or k != 'chars') and quick:
                continue
            add(k, f, b, few=quick and k != 'chars' and (w(f) > 16 and k != 'hexl' or f[0] == 'u' or w(f) == 64))
        for b in (10, 16, 8, 2):
            obs.append(Ob('min_%s_%d' % (f, b), 'min_' + f, [Con(32, b), Con(32, 0)], mode='fork', lin=True, ubsan=True))
    for f in ('q16_8', 'q32_16', 'u32_16', 'q64_32'):
        for k, b in (('dec', 10), ('hex', 16), ('hexup', 16), ('oct', 8), ('bin', 2)):
            if f == 'q64_32' and quick:
                continue
            add(k, f, b, few=quick and (f != 'q16_8' or b == 2))
    return obs


NOEXT = ('-D_GLIBCXX_EXTERN_TEMPLATE=0',)


@register('C18', 'c18.cpp')
def c18(tier, rnd):
    obs = []

    def add(f, rng, t, neg, type='g', sign='-', alt=0, zero=0, width=0, prec=-1, align='', fill=None):
        W, s, fr, r = FM[f]
        nm = 'fmt_%s_%s%d_t%d_%s%s%s%s%s%s%s' % (f, 'm' if neg else '', rng[0], t, type or 'none', {'-': '', '+': '_plus', ' ': '_space'}[sign], '_alt' if alt else '', '_0' if zero else '',
                                        '_w%d' % width if width else '', '_p%d' % prec if prec >= 0 else '', {'': '', '<': '_left', '>': '_right', '^': '_mid'}[align])
        obs.append(Ob(nm, 'fmt_' + f, [Sym(64, *rng), Sym(64, 0, (1 << (fr - t - 1)) - 1) if fr - t > 1 else Con(64, 0), Con(32, neg), Con(32, t),
                                       Con(32, ord(type) if type else 0), Con(32, ord(sign)), Con(32, alt), Con(32, zero), Con(32, width), Con(32, prec & 0xffffffff), Con(32, ord(align) if align else 0), Sym(8)],
                      mode='fork', lin=True, tmo=60, weight=W, nsample=8, flags=NOEXT))
    q = tier == 'quick'
    for f in ('q32_16', 'q64_32', 'q16_8', 'u32_16', 'q32_16r', 'q64_16'):
        W, s, fr, r = FM[f]
        main = f == 'q32_16'
        ps = parts(f, 10)
        few = [ps[0], ps[-1]] if len(ps) < 4 or not main else [ps[0], ps[2], ps[-1]]
        negs = (0, 1) if s else (0,)
        # digits: types and precisions
        for k, (ty, pr) in enumerate([('', -1), ('g', -1), ('G', 2), ('f', -1), ('F', 4), ('g', 0), ('f', 0), ('g', 1), ('f', 1), ('g', 20), ('f', 20), ('f', 9)]):
            for t in ((fr - 8, fr) if q and W == 64 and pr > 6 else (0, fr // 2, fr - 3, fr - 1, fr) if main or not q else (0, fr - 3, fr) if k < 5 else (1, fr)):
                for j, rng in enumerate(few if main or not q else few[:1] if k % 2 else few[-1:]):
                    for neg in negs if not q else (negs[(k + t + j) % len(negs)],):
                        add(f, rng, t, neg, type=ty, prec=pr)
        # whole numbers in the bases
        for ty in 'dxXoB' + 'b?':
            for rng in (few if ty == 'd' else [(0, min(15, topint(f))), (topint(f) // 2 + 1, topint(f))]):
                for neg in negs:
                    add(f, rng, (0 if ty in 'x?' else fr // 3), neg, type=ty, alt=neg)
        # sign, padding, alignment, fill
        for k, (ty, w, al, z) in enumerate([('g', 3, '', 0), ('g', 24, '', 0), ('f', 25, '<', 0), ('f', 24, '>', 0), ('d', 20, '^', 0), ('x', 21, '^', 0), ('g', 24, '', 1), ('x', 24, '', 1), ('f', 2, '', 1), ('?', 30, '<', 0),
                                            ('b', 40, '', 1), ('o', 17, '', 1)]):
            for sg in '-+ ':
                for neg in negs:
                    if q and not main and (k + ord(sg) + neg) % 3:
                        continue
                    add(f, ps[1] if len(ps) > 1 else ps[0], fr // 2, neg, type=ty, sign=sg, alt=k % 2, width=w, align=al, zero=z, prec=3 if ty in 'gf' else -1)
        # wide fields and long fractions
        if f in ('q32_16', 'q64_32'):
            for k, (ty, w, al, z, pr) in enumerate([('f', 0, '', 0, 64), ('g', 0, '', 0, 70), ('f', 90, '^', 0, 60), ('g', 130, '<', 0, -1), ('f', 120, '', 1, 2), ('x', 100, '>', 0, -1)]):
                add(f, ps[0], fr // 2 if k < 3 and W == 32 else fr - 3, negs[k % 2], type=ty, width=w, align=al, zero=z, prec=pr, alt=k % 2)
        for ty in 'gfdxob?':
            obs.append(Ob('min_%s_%s' % (f, ord(ty)), 'min_' + f, [Con(32, ord(ty)), Con(32, 40)], mode='fork', lin=True, flags=NOEXT))
    return obs


@register('C19', 'c19.cpp')
def c19(tier, rnd):
    obs = []
    q = tier == 'quick'

    def shape(fn, t):
        # ~ any byte, 9 any digit, everything else itself
        args = [Sym(8) if c == '~' else Sym(8, 48, 57) if c == '9' else Con(8, ord(c)) for c in t]
        obs.append(Ob('%s_%s' % (fn, ' '.join('%02x' % ord(c) for c in t) or 'empty'), fn, [Con(32, len(t))] + args + [Con(8, 0)] * (12 - len(t)), mode='fork', lin=True, tmo=60, flags=NOEXT, exectmo=300, desc=t))
    for t in ('', '~', '~~', '<~~', '^~~', '>~~', '+~~', '#~~', '0~~', '.~~', ':~~', '~<~', '~^~', '~>~', '~:~', '9:~', '1~~', '6~~', '9~}', '~}~', 'x~~', '~~d',
              '~<7~', '~^8.0~', '~>+#5~', ':<+9.2~', ':+9~', '12:~<7~', '~<-#9x', '+#08~', ' 08.3~', '#7.1~', '9.1~', '*^24.9~', '~~12f', '~~>7'):
        shape('any', t)
        if len(t) > 3 or not q:
            shape('pos', t)
    for n in range(5 if q else 7):
        shape('grammar', '~' * n)
    for t in ('99999999~', '999999999~', '9999999999~', '0999999999~', '~<999999999~', '.9999999~', '.999999999~', '.9999999999~', '9999999999.9', '9.999999999~', '#0999999999~', '2147483647~', '2147483648~', '~~999999~'):
        shape('grammar', t)
    return obs
