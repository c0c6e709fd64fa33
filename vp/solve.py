"""Solver portfolio: z3 (word level + bit-blasting), then kissat on z3's CNF."""
import os
import re
import subprocess
import tempfile
import time
import z3

KISSAT = next((p for p in ('/usr/local/bin/kissat', '/usr/bin/kissat', '/opt/veriftools/bin/kissat') if os.path.exists(p)), None)


class Result:
    def __init__(s, status, model=None, engine='', secs=0.0):
        s.status, s.model, s.engine, s.secs = status, model, engine, secs


def bits_of(inputs):
    """inputs: list of z3 consts -> (substitution list, name map)"""
    sub = []
    names = {}
    for x in inputs:
        if z3.is_bv(x):
            w = x.size()
            bs = [z3.Bool('in|%s|%d' % (x.decl().name(), i)) for i in range(w)]
            parts = [z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in reversed(bs)]
            sub.append((x, z3.Concat(*parts) if w > 1 else parts[0]))
            names[x.decl().name()] = w
    return sub, names


def cnf(asserts, inputs, fp, tmo):
    g = z3.Goal()
    sub, names = bits_of(inputs)
    for a in asserts:
        g.add(z3.substitute(a, *sub) if sub else a)
    steps = ['simplify', 'propagate-values']
    if fp:
        steps += ['fpa2bv', 'simplify']
    steps += ['solve-eqs', 'simplify', 'bit-blast', 'simplify', 'propagate-values', 'tseitin-cnf']
    t = z3.TryFor(z3.Then(*steps), int(tmo * 1000))
    r = t(g)
    if len(r) != 1:
        return None, None
    return r[0], names


def kissat(goal, names, tmo, extra=()):
    if goal.inconsistent():
        return 'unsat', None
    if len(goal) == 0:
        return 'sat', {n: 0 for n in names}
    txt = goal.dimacs()
    ids = {}
    for m in re.finditer(r'^c (\d+) (in\|\S+)', txt, re.M):
        ids[int(m.group(1))] = m.group(2)
    fd, path = tempfile.mkstemp(suffix='.cnf', prefix='vpk')
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        del txt
        p = subprocess.run([KISSAT, '-q', '--time=%d' % max(1, int(tmo)), *extra, path], capture_output=True, text=True,
                           timeout=tmo + 60)
    except subprocess.TimeoutExpired:
        return 'unknown', None
    finally:
        os.unlink(path)
    if p.returncode == 20:
        return 'unsat', None
    if p.returncode == 10:
        val = {n: 0 for n in names}
        for ln in p.stdout.splitlines():
            if ln.startswith('v '):
                for x in ln.split()[1:]:
                    v = int(x)
                    if v > 0 and v in ids:
                        _, nm, i = ids[v].split('|')
                        val[nm] |= 1 << int(i)
        return 'sat', val
    return 'unknown', None


def fixed_check(asserts, inputs, val, ms=20000):
    sub = []
    for x in inputs:
        v = val.get(x.decl().name(), 0)
        if z3.is_bv(x):
            sub.append((x, z3.BitVecVal(v, x.size())))
        elif z3.is_real(x):
            sub.append((x, z3.RealVal(v)))
    s = z3.Solver()
    s.set('timeout', ms)
    for a in asserts:
        a = z3.simplify(z3.substitute(a, *sub)) if sub else a
        if z3.is_false(a):
            return z3.unsat
        if not z3.is_true(a):
            s.add(a)
    return s.check()


def solve(asserts, inputs, tmo=60.0, fp=False, z3first=8.0, engines=('z3', 'kissat', 'z3'), extra=()):
    t0 = time.time()
    asserts = [z3.simplify(a) for a in asserts]
    if any(z3.is_false(a) for a in asserts):
        return Result('unsat', None, 'simplifier', time.time() - t0)
    for k, e in enumerate(engines):
        left = tmo - (time.time() - t0)
        if left <= 0.5:
            break
        if e == 'z3':
            s = z3.Solver() if fp else z3.SolverFor('QF_BV')
            s.set('timeout', int(1000 * (min(z3first, left) if k == 0 and len(engines) > 1 else left)))
            for a in asserts:
                s.add(a)
            r = s.check()
            if r == z3.unsat:
                return Result('unsat', None, 'z3', time.time() - t0)
            if r == z3.sat:
                m = s.model()
                val = {}
                for x in inputs:
                    v = m.eval(x, model_completion=True)
                    val[x.decl().name()] = v.as_long()
                return Result('sat', val, 'z3', time.time() - t0)
        elif e == 'kissat' and KISSAT:
            try:
                g, names = cnf(asserts, inputs, fp, left)
            except z3.Z3Exception:
                g = None
            left = tmo - (time.time() - t0)
            if g is None or left < 1:
                continue
            r, val = kissat(g, names, left if k == len(engines) - 1 or engines[-1] == 'z3' else left, extra)
            if r == 'unsat':
                return Result('unsat', None, 'kissat', time.time() - t0)
            if r == 'sat':
                if fixed_check(asserts, inputs, val) == z3.unsat:
                    return Result('unknown', None, 'kissat-model-mismatch', time.time() - t0)
                return Result('sat', val, 'kissat', time.time() - t0)
    return Result('unknown', None, '', time.time() - t0)
