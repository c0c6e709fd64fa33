"""Obligations: build the IR from /repo's current tree, execute symbolically, ask the solver, replay the answers."""
import ctypes
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(ROOT, 'harness')
UBFULL = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,bounds,float-cast-overflow', '-fsanitize-trap=all']
UBBASIC = ['-fwrapv', '-fsanitize=integer-divide-by-zero,shift-exponent,bounds', '-fsanitize-trap=all']
BASE = ['-std=c++20', '-I' + os.path.join(REPO, 'include'), '-I' + HARN, '-DNDEBUG', '-w']
IRFLAGS = ['-O1', '-fno-unroll-loops', '-fno-vectorize', '-fno-slp-vectorize', '-S', '-emit-llvm']


class Sym:
    """a symbolic machine integer in [lo,hi] (signed reading)"""

    def __init__(s, w, lo=None, hi=None):
        s.w = w
        s.lo = -(1 << (w - 1)) if lo is None else lo
        s.hi = (1 << (w - 1)) - 1 if hi is None else hi

    def desc(s):
        return 'i%d in [%d,%d]' % (s.w, s.lo, s.hi)


class Con:
    def __init__(s, w, v):
        s.w, s.v = w, v

    def desc(s):
        return 'i%d = %d' % (s.w, s.v)


class Buf:
    """pointer to n symbolic bytes (each restricted to `alpha` if given) followed by the concrete bytes `tail`"""

    def __init__(s, n, alpha=None, tail=b'\0', per=None):
        s.n, s.alpha, s.tail, s.per = n, alpha, tail, per or {}

    def desc(s):
        a = 'any byte' if s.alpha is None else 'bytes from %r' % bytes(sorted(s.alpha)).decode('latin-1')
        return 'buffer of %d symbolic (%s)%s + %r' % (s.n, a, ''.join(', [%d] in %r' % (k, bytes(v)) for k, v in sorted(s.per.items())), s.tail)


class Ob:
    def __init__(s, name, fn, args, mode='merge', unwind=70, tmo=60, desc='', fp=False, src=None, flags=(), ubsan=False,
                 shrink=None, witness=True, tier='quick', z3first=8.0, engines=('z3', 'kissat', 'z3'), perexit=False,
                 max_steps=3000000, feas_ms=2000, exectmo=300, opt=(), check_all=None, group=None, extra=(), weight=0, judge=None, refine=None, known=None, nsample=48, lin=False, nofeas=0, acc=None, relax=False):
        s.name, s.fn, s.args, s.mode, s.unwind, s.tmo, s.desc, s.fp, s.src = name, fn, args, mode, unwind, tmo, desc, fp, src
        s.flags, s.ubsan, s.shrink, s.witness, s.tier, s.z3first, s.engines = tuple(flags), ubsan, shrink, witness, tier, z3first, engines
        s.perexit, s.max_steps, s.feas_ms, s.exectmo, s.opt = perexit, max_steps, feas_ms, exectmo, tuple(opt)
        s.check_all = check_all
        s.group = group
        s.extra = tuple(extra)
        s.weight, s.judge, s.refine, s.known, s.nsample = weight, judge, refine, known, nsample
        s.lin, s.nofeas, s.acc, s.relax = lin, nofeas, acc, relax

    def key(s):
        return (s.src, s.flags, s.ubsan, s.opt)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build_ir(src, flags, ubsan, opt, out):
    cmd = ['clang++', *BASE, *IRFLAGS, *(UBFULL if ubsan else UBBASIC), *flags, *opt, os.path.join(HARN, src), '-o', out]
    p = run(cmd)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[:4000]))


def build_so(src, flags, kind, out):
    if kind == 'rel':
        cmd = ['g++', *BASE, '-O2', '-shared', '-fPIC', *flags, os.path.join(HARN, src), '-o', out]
    else:
        cmd = ['clang++', *BASE, '-O1', '-shared', '-fPIC', *(UBFULL if kind == 'ubfull' else UBBASIC), *flags, os.path.join(HARN, src), '-o', out]
    p = run(cmd)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[:4000]))


# ------------------------------------------------------------------------------------------------ native replay
CT = {8: ctypes.c_int8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}


def native_many(so, fn, calls, tmo=20):
    """several calls in one child process; falls back to one child per call if one of them crashes"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (tmo, tmo + 1))
            f = getattr(ctypes.CDLL(so), fn)
            f.restype = ctypes.c_int32
            for cargs in calls:
                keep = []
                a = [guarded(c[1], keep) if c[0] == 'b' else CT[c[1]](c[2]) for c in cargs]
                os.write(w, b'%d\n' % int(f(*a)))
        except BaseException:   # noqa
            pass
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    out = [int(x) for x in data.split()]
    if len(out) < len(calls):
        out.append(native_call(so, fn, calls[len(out)], tmo))
    return out


def native_call(so, fn, cargs, tmo=20):
    """cargs: list of ('i',w,val) | ('b',bytes). returns int | 'signal N' | 'timeout'. runs in a child process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (tmo, tmo + 1))
            lib = ctypes.CDLL(so)
            f = getattr(lib, fn)
            f.restype = ctypes.c_int32
            a = []
            keep = []
            for c in cargs:
                if c[0] == 'i':
                    if c[1] == 128:
                        v = c[2] & ((1 << 128) - 1)
                        a.append(ctypes.c_uint64(v & ((1 << 64) - 1)))
                        a.append(ctypes.c_uint64(v >> 64))
                    else:
                        a.append(CT[c[1]](c[2]))
                else:
                    a.append(guarded(c[1], keep))
            v = f(*a)
            os.write(w, str(int(v)).encode())
        except BaseException as e:   # noqa
            os.write(w, ('error %r' % (e,)).encode())
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'signal %d' % os.WTERMSIG(st)
    t = data.decode()
    try:
        return int(t)
    except ValueError:
        return t or 'no result'


libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def guarded(data, keep):
    """place data so that the byte after it is unmapped"""
    pg = 4096
    n = (len(data) + pg - 1) // pg * pg or pg
    base = libc.mmap(None, n + 2 * pg, 3, 0x22, -1, 0)
    libc.mprotect(base, pg, 0)
    libc.mprotect(base + pg + n, pg, 0)
    addr = base + pg + n - len(data)
    ctypes.memmove(addr, data, len(data))
    return ctypes.c_void_p(addr)


# ------------------------------------------------------------------------------------------------ one obligation
def mkinputs(ob, lra=False):
    import z3
    from . import bv
    vals, pre, consts, layout = [], [], [], []
    for i, a in enumerate(ob.args):
        if isinstance(a, Con):
            vals.append(a.v & bv.mask(a.w))
            layout.append(('c', a.w, a.v))
        elif isinstance(a, Sym):
            v = z3.Real('x%d' % i) if lra else z3.BitVec('x%d' % i, a.w)
            consts.append(v)
            if lra:
                pre += [v >= a.lo, v <= a.hi]
                vals.append(bv.BV(v, a.w, a.lo, a.hi) if a.lo < a.hi else a.lo & bv.mask(a.w))
            elif a.lo == a.hi:
                vals.append(a.lo & bv.mask(a.w))
                pre.append(v == a.lo)
            else:
                # bounds
                k = (a.hi - a.lo).bit_length()
                if a.lo > bv.smin(a.w):
                    pre.append(v >= z3.BitVecVal(a.lo & bv.mask(a.w), a.w))
                if a.hi < bv.smax(a.w):
                    pre.append(v <= z3.BitVecVal(a.hi & bv.mask(a.w), a.w))
                vals.append(bv.declare(bv.clamp(bv.BV(v, a.w, a.lo, a.hi), a.w), v))
            layout.append(('s', a.w, 'x%d' % i))
        else:
            bs = []
            names = []
            for k in range(a.n):
                alpha = a.per.get(k, a.alpha)
                nm = 'x%d_%d' % (i, k)
                v = z3.BitVec(nm, 8)
                names.append(nm)
                consts.append(v)
                if alpha is not None:
                    al = sorted(set(alpha))
                    # as ranges
                    rs = []
                    for c in al:
                        if rs and rs[-1][1] == c - 1:
                            rs[-1][1] = c
                        else:
                            rs.append([c, c])
                    pre.append(z3.Or([z3.And(z3.UGE(v, lo), z3.ULE(v, hi)) if lo != hi else v == lo for lo, hi in rs]))
                    if len(al) == 1:
                        bs.append(al[0])
                        continue
                    bs.append(bv.BV(v, 8, min(bv.sg(c, 8) for c in al), max(bv.sg(c, 8) for c in al)))
                else:
                    bs.append(bv.BV(v, 8))
            vals.append(('buf', bs + list(a.tail)))
            layout.append(('b', names, a.tail))
    return vals, pre, consts, layout


def cargs_of(layout, model):
    from . import bv
    out = []
    for l in layout:
        if l[0] == 'c':
            out.append(('i', l[1], l[2]))
        elif l[0] == 's':
            out.append(('i', l[1], bv.sg(model.get(l[2], 0), l[1])))
        else:
            out.append(('b', bytes(model.get(n, 0) for n in l[1]) + l[2]))
    return out


def values_of(layout, cargs, signed=False):
    from . import bv
    val = {}
    for l, c in zip(layout, cargs):
        if l[0] == 's':
            val[l[2]] = bv.sg(c[2] & bv.mask(l[1]), l[1]) if signed else c[2] & bv.mask(l[1])
        elif l[0] == 'b':
            for n, b in zip(l[1], c[1]):
                val[n] = b
    return val


def show(cargs):
    return [c[2] if c[0] == 'i' else c[1].decode('latin-1') for c in cargs]


def symbolic(ob, module, lra=False):
    """symbolically execute; returns dict with bad/good conditions"""
    from . import bv, lra as L
    bv.reset()
    bv.GUARD = ()
    bv.LIN[0] = ob.lin and not lra
    if lra:
        L.install()
    try:
        return symbolic_(ob, module, lra)
    finally:
        if lra:
            L.uninstall()


def symbolic_(ob, module, lra):
    import z3
    from . import bv, symex
    vals, pre, consts, layout = mkinputs(ob, lra)
    ex = symex.Exec(module, mode=ob.mode, unwind=ob.unwind, max_steps=ob.max_steps, feas_ms=ob.feas_ms, check_all=ob.check_all,
                    deadline=time.time() + ob.exectmo)
    ex.lra = lra
    ex.pre = pre
    ex.usefp = ob.fp
    ex.nofeas_below = ob.nofeas
    st = symex.State()
    args = []
    for v in vals:
        if isinstance(v, tuple):
            i = ex.alloc(st, len(v[1]), 'input buffer')
            o = st.mem[i]
            for k, b in enumerate(v[1]):
                o.cells[k] = (1, b)
            args.append(symex.Ptr(i, 0))
        else:
            args.append(v)
    fname = '@' + ob.fn
    if fname not in module.funcs:
        raise BuildError('harness function %s missing' % ob.fn)
    outs = ex.call_function(st, fname, args)
    bad, good, outside = [], [], []
    for (x, kind, v) in outs:
        if kind == 'exc':
            bad.append(('uncaught ' + x.exc[0], symex.conj(x.pc)))
            continue
        if isinstance(v, int):
            c = symex.conj(x.pc)
            if v >= 2:
                bad.append(('result %d' % v, c))
            elif v == 1:
                good.append(c)
            continue
        t = v.t
        if v.hi >= 2:
            bad.append(('result', symex.conj(x.pc + (t >= 2 if lra else z3.UGE(t, 2),))))
        if v.lo <= 1 <= v.hi:
            good.append(symex.conj(x.pc + (t == 1,)))
    for e in ex.events:
        bad.append((e.kind + ': ' + e.detail, symex.conj(e.pc)))
    return dict(ex=ex, pre=pre, axioms=list(bv.AXIOMS), consts=consts, layout=layout, bad=bad, good=good, outs=len(outs))


def line(acc, lo, hi):
    """a line c0 + c1*(x-lo) that is within slack of the true function on [lo,hi], in units of 2^-S raw units"""
    import mpmath as mp
    S = acc['S']
    f0, f1 = acc['F'](lo), acc['F'](hi)
    n = hi - lo
    c1 = int(mp.nint((f1 - f0) * 2 ** S / n)) if n else 0
    dev = acc['D2'](lo, hi) * n * n / 8 if n else 0        # chord error, one sided or not: |f - chord| <= dev
    c0 = int(mp.nint(f0 * 2 ** S))
    slack = int(mp.ceil(dev * 2 ** S)) + n // 2 + 2
    if acc.get('mono') and abs(f1 - f0) * 2 ** (S - 1) + 2 < slack:
        # a constant is closer than a line with an integer slope
        return int(mp.nint((f0 + f1) * 2 ** (S - 1))), 0, int(mp.ceil(abs(f1 - f0) * 2 ** (S - 1))) + 2
    assert abs(c0) < 2 ** 63 and abs(c1) < 2 ** 63
    return c0, c1, slack


def decide_acc(ob, module, sos, seed, budget):
    """|implementation - true function| <= tolerance on [lo,hi]: linear relaxation per chunk, bit-precise where it does not suffice"""
    import copy
    import z3
    from . import solve as S, bv
    t0 = time.time()
    acc = ob.acc
    lo, hi = acc['range']
    res = dict(name=ob.name, fn=ob.fn, args=['x in [%d,%d]' % (lo, hi)], desc=ob.desc, status='unknown', queries=0,
               solver_s=0.0, engine='', paths=0, branches=0, feas=0, steps=0, events=0, funcs=[], stubs=[], note='', validated=0, chunks=0, bitprecise=0)
    funcs, stubs, eng = set(), set(), set()
    W = acc['w']
    X = acc.get('extra', [])

    def mk(a, b):
        o = copy.copy(ob)
        c0, c1, slack = line(acc, a, b)
        tol = acc['tol'](a, b) if callable(acc['tol']) else acc['tol']
        tol = int(tol * 2 ** acc['S']) - slack
        o.args = [Sym(W, a, b) if a < b else Con(W, a), Con(64, a), Con(64, c0), Con(64, c1), Con(64, tol), Con(32, acc['S'])] + X
        o.mode, o.lin = 'fork', False
        return o, tol

    def native(a):
        o, tol = mk(a, a)
        ca = [('i', x.w, x.v) for x in o.args]
        return native_call(sos['rel'], ob.fn, ca), ca

    def violated(a):
        v, ca = native(a)
        if isinstance(v, int) and v < 2:
            return False
        res['status'] = 'sat'
        res['cex'] = dict(args=[(c[0], c[1], c[2]) for c in ca], shown=show(ca), why='x=%d: result off the true value by more than the tolerance, or it failed (%s)' % (a, v), native={'rel': v}, reproduced=True)
        return True

    def fin():
        res['wall_s'] = time.time() - t0
        res['funcs'], res['stubs'], res['engine'] = sorted(funcs), sorted(stubs), '+'.join(sorted(e for e in eng if e))
        return res
    rnd = random.Random(seed)
    for a in [lo, hi] + [rnd.randint(lo, hi) for _ in range(4)]:
        if violated(a):
            return fin()
        res['validated'] += 1
    step = acc['step']
    work = []
    a = lo
    while a <= hi:
        b = min(hi, a + step - 1)
        work.append((a, b))
        a = b + 1
    work.reverse()
    tend = t0 + ob.exectmo
    minw = acc.get('min', 8)
    while work:
        if time.time() > tend:
            res['note'] = 'time budget: %d chunks left, from %d' % (len(work), work[-1][0])
            return fin()
        a, b = work.pop()
        o, tol = mk(a, b)
        res['chunks'] += 1
        st = 'unknown'
        if tol > 0 and not acc.get('nolra') or a == b:
            try:
                r = symbolic(o, module, lra=True)
                ex = r['ex']
                funcs |= set(f[1:] for f in ex.funcs)
                stubs |= set(ex.stubs)
                res['steps'] += ex.steps
                res['paths'] += r['outs']
                res['queries'] += ex.nfeas
                res['solver_s'] += ex.feas_s
                if not r['bad']:
                    st = 'unsat'
                else:
                    sol = z3.SolverFor('QF_LRA')
                    sol.set('timeout', 4000)
                    sol.add(*(r['pre'] + r['axioms']))
                    sol.add(z3.Or([c for _, c in r['bad']]))
                    t1 = time.time()
                    k = sol.check()
                    res['solver_s'] += time.time() - t1
                    res['queries'] += 1
                    eng.add('z3-lra')
                    if k == z3.unsat:
                        st = 'unsat'
                    elif k == z3.sat and a < b:
                        x = sol.model().eval(r['consts'][0], model_completion=True)
                        x = max(a, min(b, int(x.as_fraction())))
                        if violated(x):
                            return fin()
            except Exception as e:
                if type(e).__name__ not in ('Budget', 'Unsupported', 'IRError', 'Z3Exception'):
                    res['note'] = 'linear relaxation: %s %s' % (type(e).__name__, traceback.format_exc()[-800:])
                    return fin()
                res['note'] = 'relaxation not applicable: %s' % (e,)
        if st == 'unsat':
            continue
        if a == b:
            if violated(a):
                return fin()
            continue
        if b - a + 1 <= acc.get('points', 0):
            work += [(x, x) for x in range(b, a - 1, -1)]
            continue
        if b - a + 1 > minw or tol <= 0:
            m = (a + b) // 2
            work += [(m + 1, b), (a, m)]
            continue
        # bit-precise
        try:
            r = symbolic(o, module)
        except Exception as e:
            res['note'] = 'symbolic execution: %s: %s' % (type(e).__name__, str(e)[:300])
            return fin()
        ex = r['ex']
        funcs |= set(f[1:] for f in ex.funcs)
        res['bitprecise'] += 1
        bad = z3.Or([c for _, c in r['bad']]) if r['bad'] else z3.BoolVal(False)
        k = S.solve(r['pre'] + r['axioms'] + [bad], r['consts'], tmo=max(5, min(ob.tmo, tend - time.time())), z3first=4)
        res['queries'] += 1
        res['solver_s'] += k.secs
        eng.add(k.engine)
        if k.status == 'unsat':
            continue
        if k.status == 'sat':
            x = bv.sg(k.model['x0'], W)
            if violated(x):
                return fin()
        m = (a + b) // 2
        work += [(m + 1, b), (a, m)]
    res['status'] = 'unsat'
    return fin()


def relaxed_proof(ob, module, res):
    """the obligation over the linear relaxation; None when that does not settle it"""
    import z3
    try:
        r = symbolic(ob, module, lra=True)
    except Exception as e:
        if type(e).__name__ not in ('Budget', 'Unsupported', 'IRError', 'Z3Exception', 'AttributeError'):
            raise
        res['note'] = 'relaxation not applicable: %s' % (str(e)[:200],)
        return None
    if not r['bad']:
        return r
    sol = z3.SolverFor('QF_LRA')
    sol.set('timeout', int(1000 * ob.tmo))
    sol.add(*(r['pre'] + r['axioms']))
    sol.add(z3.Or([c for _, c in r['bad']]))
    t1 = time.time()
    k = sol.check()
    res['solver_s'] += time.time() - t1
    res['queries'] += 1
    return r if k == z3.unsat else None


def decide(ob, module, sos, seed, budget):
    """returns a plain dict"""
    if ob.acc:
        return decide_acc(ob, module, sos, seed, budget)
    import z3
    from . import solve as S
    t0 = time.time()
    res = dict(name=ob.name, fn=ob.fn, args=[a.desc() for a in ob.args], desc=ob.desc, status='unknown', queries=0,
               solver_s=0.0, engine='', paths=0, branches=0, feas=0, steps=0, events=0, funcs=[], stubs=[], note='', validated=0)
    relaxed = False
    try:
        r = None
        if ob.relax:
            r = relaxed_proof(ob, module, res)
            relaxed = r is not None
        if r is None:
            r = symbolic(ob, module)
    except Exception as e:
        res['note'] = 'symbolic execution: %s: %s' % (type(e).__name__, str(e)[:300])
        if not type(e).__name__ in ('Budget', 'Unsupported', 'IRError'):
            res['note'] += '\n' + traceback.format_exc()[-1500:]
        res['wall_s'] = time.time() - t0
        return res
    ex = r['ex']
    res.update(paths=r['outs'], branches=ex.nbranch, feas=ex.nfeas, steps=ex.steps, events=len(ex.events),
               funcs=sorted(f[1:] for f in ex.funcs), stubs=sorted(ex.stubs), sym_s=time.time() - t0)
    res['solver_s'] += ex.feas_s
    res['queries'] += ex.nfeas
    hyp = r['pre'] + r['axioms']
    inputs = r['consts']
    # the property: no bad outcome
    qs = []
    if r['bad'] and not relaxed:
        if ob.perexit:
            groups = [[b] for b in r['bad']]
        else:
            groups = [r['bad']]
        for g in groups:
            qs.append((g, z3.Or([c for _, c in g]) if len(g) > 1 else g[0][1]))
    status = 'unsat'
    eng = {'z3-lra'} if relaxed else set()
    tend = time.time() + ob.tmo
    cexs = []
    for g, q in qs:
        left = tend - time.time()
        if left <= 0:
            status = 'unknown'
            res['note'] = 'solver budget exhausted'
            break
        k = S.solve(hyp + [q], inputs, tmo=left, fp=ob.fp, z3first=ob.z3first, engines=ob.engines, extra=ob.extra)
        res['queries'] += 1
        res['solver_s'] += k.secs
        eng.add(k.engine)
        if k.status == 'sat':
            why = '; '.join(sorted(set(d for d, c in g)))[:200] if len(g) < 3 else explain(g, hyp, inputs, k.model)
            ca = cargs_of(r['layout'], k.model)
            nat = {}
            for kind in ('rel', 'ubfull' if ob.ubsan else 'ubsan'):
                if kind in sos:
                    nat[kind] = native_call(sos[kind], ob.fn, ca)
            rep = any((not isinstance(v, int)) or v >= 2 for v in nat.values())
            res['cex'] = dict(args=[(c[0], c[1], c[2]) if c[0] == 'i' else (c[0], list(c[1])) for c in ca], shown=show(ca),
                              why=why, native=nat, reproduced=rep)
            status = 'sat' if rep else 'spurious'
            if rep:
                break
            res['note'] = 'counterexample not reproduced natively: %s %s %s' % (show(ca), nat, why)
            continue
        if k.status == 'unknown':
            if status == 'unsat':
                status = 'unknown'
            res['note'] = 'solver gave no answer in time'
    res['status'] = status
    res['engine'] = '+'.join(sorted(e for e in eng if e))
    # vacuity witness and encoder validation: runs of the compiled library, checked against the encoding
    if status == 'unsat' and ob.witness:
        rnd = random.Random(seed)
        cand = [rand_args(ob, rnd) for _ in range(ob.nsample)]
        vals = native_many(sos['rel'], ob.fn, cand)
        goodq = z3.Or(r['good']) if len(r['good']) != 1 else r['good'][0]
        slow = 0
        for ca, v in zip(cand, vals):
            if v == 0:
                continue
            if v != 1:
                res['status'] = 'encoding-mismatch'
                res['note'] = 'sample %s gives %r natively although the query is unsat' % (show(ca), v)
                natbad(res, ca, v)
                break
            if res['validated'] >= 2 or not r['good'] or slow >= 2:
                continue
            k = S.fixed_check(hyp + [goodq], inputs, values_of(r['layout'], ca, relaxed), 5000)
            if k == z3.unsat:
                res['status'] = 'encoding-mismatch'
                res['note'] = 'native run %s satisfies the property but the encoding excludes it' % (show(ca),)
                break
            if k == z3.sat:
                res['validated'] += 1
                res.setdefault('samples', []).append(dict(args=show(ca), native=v))
            else:
                slow += 1
        if slow and not res['validated'] and res['status'] == 'unsat':
            res['native_only'] = slow         # the library's runs satisfy the property; evaluating the encoding on them is too slow
            res['note'] = 'non-vacuous by %d native runs; the encoding was not evaluated on them in time' % slow
        elif not res['validated'] and res['status'] == 'unsat':
            # rare precondition: ask the solver for a model that satisfies it
            for gq in (r['good'][:6] if ob.perexit or len(r['good']) > 12 else [goodq] if r['good'] else []):
                k = S.solve(hyp + [gq], inputs, tmo=15, fp=ob.fp, z3first=15, engines=('z3',), extra=ob.extra)
                res['queries'] += 1
                res['solver_s'] += k.secs
                if k.status == 'sat':
                    ca = cargs_of(r['layout'], k.model)
                    v = native_call(sos['rel'], ob.fn, ca)
                    res.setdefault('samples', []).append(dict(args=show(ca), native=v))
                    if v == 1:
                        res['validated'] += 1
                    else:
                        res['status'] = 'encoding-mismatch'
                        res['note'] = 'witness %s gives %r natively' % (show(ca), v)
                        natbad(res, ca, v)
                    break
            if not res['validated'] and res['status'] == 'unsat':
                res['status'] = 'vacuous'
    res['wall_s'] = time.time() - t0
    return res


def natbad(res, ca, v):
    if not isinstance(v, int) or v >= 2:
        res['native_bad'] = True
        res['cex'] = dict(args=[(c[0], c[1], c[2]) if c[0] == 'i' else (c[0], list(c[1])) for c in ca], shown=show(ca),
                          why='found while validating the encoding', native={'rel': v}, reproduced=True)


def rand_args(ob, rnd):
    out = []
    for a in ob.args:
        if isinstance(a, Con):
            out.append(('i', a.w, a.v))
        elif isinstance(a, Sym):
            k = rnd.randrange(8)
            if k < 3:
                v = rnd.randint(a.lo, a.hi)
            elif k < 7:
                v = rnd.choice([-1, 1]) * rnd.getrandbits(rnd.randint(1, a.w - 1))
                if not a.lo <= v <= a.hi:
                    v = rnd.randint(a.lo, a.hi)
            else:
                v = rnd.choice([a.lo, a.hi])
            out.append(('i', a.w, v))
        else:
            out.append(('b', bytes(rnd.choice(sorted(a.per.get(k, a.alpha))) if (a.per.get(k, a.alpha)) is not None else rnd.randrange(256)
                                   for k in range(a.n)) + a.tail))
    return out


def explain(g, hyp, inputs, model):
    import z3
    s = z3.Solver()
    s.set('timeout', 5000)
    for x in inputs:
        s.add(x == z3.BitVecVal(model.get(x.decl().name(), 0), x.size()))
    for h in hyp:
        s.add(h)
    if s.check() != z3.sat:
        return ''
    out = []
    for d, c in g[:400]:
        s.push()
        s.add(c)
        if s.check() == z3.sat:
            out.append(d)
        s.pop()
        if len(out) > 3:
            break
    return '; '.join(dict.fromkeys(out))[:300]


def _child(conn, ob, module, sos, seed, budget):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        r = decide(ob, module, sos, seed, budget)
    except MemoryError:
        r = dict(name=ob.name, status='unknown', note='out of memory')
    except BaseException as e:   # noqa
        r = dict(name=ob.name, status='unknown', note='internal: %r\n%s' % (e, traceback.format_exc()[-1500:]))
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(name=ob.name, status='unknown', note='send: %r' % e))
    conn.close()
    os._exit(0)


def pool(jobs, modules, sos, seed, workers, deadline, stop_on_violation=False, progress=None, max_viol=0):
    """jobs: list of Ob. one process per job, `workers` at a time"""
    results = []
    running = {}
    q = list(jobs)
    stopped = False
    nv = 0
    while q or running:
        while q and len(running) < workers and not stopped:
            if time.time() > deadline:
                break
            ob = q.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, ob, modules[ob.key()], sos[(ob.src, ob.flags)], seed, None))
            p.start()
            b.close()
            running[p] = (a, ob, time.time())
        now = time.time()
        if not running:
            break
        mp.connection.wait([v[0] for v in running.values()], timeout=1.0)
        for p in list(running):
            a, ob, ts = running[p]
            fin = None
            if a.poll():
                try:
                    fin = a.recv()
                except (EOFError, OSError):
                    fin = dict(name=ob.name, status='unknown', note='worker died (memory?)')
                p.join(5)
            elif not p.is_alive():
                fin = dict(name=ob.name, status='unknown', note='worker died (exit %s)' % p.exitcode)
            elif now - ts > ob.exectmo + ob.tmo + 120 or now > deadline or stopped:
                kill(p)
                fin = dict(name=ob.name, status='unknown', note='killed: time budget')
            if fin is not None:
                fin.setdefault('args', [x.desc() for x in ob.args])
                fin.setdefault('fn', ob.fn)
                fin['ob'] = ob
                results.append(fin)
                a.close()
                del running[p]
                if progress:
                    progress(fin)
                if fin.get('status') == 'sat' and not ob.known and ob.judge is None:
                    nv += 1
                    if max_viol and nv >= max_viol:
                        stopped = True
        if time.time() > deadline and q:
            for ob in q:
                results.append(dict(name=ob.name, status='unknown', note='not started: time budget', ob=ob, args=[x.desc() for x in ob.args], fn=ob.fn))
            q = []
        if stopped:
            q = []
    return results


def kill(p):
    try:
        # solver subprocesses are children of p
        subprocess.run(['pkill', '-KILL', '-P', str(p.pid)], capture_output=True)
        p.kill()
        p.join(5)
    except Exception:
        pass
