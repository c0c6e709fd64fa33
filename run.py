#!/usr/bin/env python3-vt
"""run.py <property>: decide one property of /repo's current tree.  VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import core, irparse          # noqa: E402
import props                           # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
TIER = TIER if TIER in ('quick', 'thorough') else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = float(os.environ.get('VP_BUDGET', '560' if TIER == 'quick' else '7200'))
WORKERS = int(os.environ.get('VP_WORKERS', str(max(2, min(8, os.cpu_count() or 2)))))


def build_all(obs, tmp):
    mods, sos = {}, {}
    jobs = {}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for i, k in enumerate(dict.fromkeys(o.key() for o in obs)):
            src, flags, ub, opt = k
            out = os.path.join(tmp, 'm%d.ll' % i)
            jobs[ex.submit(core.build_ir, src, flags, ub, opt, out)] = ('ir', k, out)
        for i, k in enumerate(dict.fromkeys((o.src, o.flags) for o in obs)):
            full = any(o.ubsan for o in obs if (o.src, o.flags) == k)
            for kind in ('rel', 'ubfull' if full else 'ubsan'):
                out = os.path.join(tmp, 's%d_%s.so' % (i, kind))
                jobs[ex.submit(core.build_so, k[0], k[1], kind, out)] = ('so', k, kind, out)
        for j in cf.as_completed(jobs):
            j.result()
            v = jobs[j]
            if v[0] == 'so':
                sos.setdefault(v[1], {})[v[2]] = v[3]
    for v in jobs.values():
        if v[0] == 'ir':
            mods[v[1]] = irparse.parse_module(open(v[2]).read())
    return mods, sos


def windows(ob, rnd, n=10):
    """reduced-domain versions of an obligation the solver did not decide"""
    out = []
    syms = [i for i, a in enumerate(ob.args) if isinstance(a, core.Sym) and a.hi - a.lo > 4096]
    if not syms or ob.acc:
        return []

    def win(a, kind):
        W = 1 << 11
        if kind == 'zero' and a.lo <= 0 <= a.hi:
            return max(a.lo, -W), min(a.hi, W)
        if kind == 'lo':
            return a.lo, min(a.hi, a.lo + W)
        if kind == 'hi':
            return max(a.lo, a.hi - W), a.hi
        b = rnd.choice([10, 14, 18, 22, 26, 30, 40, 50, 62])
        c = rnd.choice([-1, 1]) * rnd.getrandbits(b)
        c = min(max(c, a.lo), a.hi)
        return max(a.lo, c - W // 2), min(a.hi, c + W // 2)
    kinds = [['zero'] * len(syms), ['lo'] * len(syms), ['hi'] * len(syms), ['rnd'] * len(syms)]
    while len(kinds) < n:
        kinds.append([rnd.choice(['zero', 'lo', 'hi', 'rnd', 'rnd']) for _ in syms])
    for j, ks in enumerate(kinds[:n]):
        args = list(ob.args)
        for i, k in zip(syms, ks):
            lo, hi = win(args[i], k)
            args[i] = core.Sym(args[i].w, lo, hi)
        import copy
        o = copy.copy(ob)
        o.args, o.name, o.tmo, o.shrink, o.reduced_from = args, ob.name + '~w%d' % j, min(ob.tmo, 20), None, ob.name
        out.append(o)
    return out


def replay_write(pid, k, r):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, k))
    ob = r['ob']
    with open(p, 'w') as f:
        json.dump(dict(property=pid, obligation=r['name'], desc=r.get('desc', ''), fn=ob.fn, src=ob.src, flags=list(ob.flags), ubfull=ob.ubsan,
                       cex=r['cex'], how='python3-vt replay.py ' + p), f, indent=1)
    return p


def main():
    pid = sys.argv[1]
    t0 = time.time()
    deadline = t0 + BUDGET
    prop = props.get(pid)
    rnd = random.Random(SEED)
    obs = prop.obligations(TIER, rnd)
    if len(sys.argv) > 2:
        obs = [o for o in obs if re.search(sys.argv[2], o.name)]
    for o in obs:
        o.src = o.src or prop.src
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), 'duplicate obligation names %s' % [n for n in names if names.count(n) > 1][:5]
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    verbose = os.environ.get('VP_VERBOSE')
    try:
        try:
            mods, sos = build_all(obs, tmp)
        except core.BuildError as e:
            print('BUILD FAILED\n%s' % e)
            return 2
        tb = time.time() - t0

        def prog(r):
            if verbose:
                print('%-44s %-9s %6.1fs %s %s' % (r['name'], r['status'], r.get('wall_s', 0), r.get('engine', ''), r.get('note', '')[:200].replace('\n', ' ') +
                                                   (' CEX %s %s %s' % (r['cex']['shown'], r['cex']['native'], r['cex']['why'][:100]) if 'cex' in r else '')), flush=True)
        results = []
        todo = sorted(obs, key=lambda o: -o.weight)
        rnds = 0
        vio = []
        while todo and time.time() < deadline and rnds < 14:
            rs = core.pool(todo, mods, sos, SEED, WORKERS, deadline, stop_on_violation=False, progress=prog, max_viol=3)
            todo = []
            for r in rs:
                ob = r['ob']
                if r['status'] == 'sat' and ob.judge is not None:
                    # accuracy obligations: the bounding lines are stricter than the property; ask the oracle
                    v = ob.judge(r)
                    if v == 'violation':
                        pass
                    elif isinstance(v, list):
                        r['status'] = 'split'
                        todo += v
                    else:
                        r['status'] = 'unknown'
                elif r['status'] in ('unknown', 'spurious') and ob.refine is not None:
                    v = ob.refine(r)
                    if v:
                        r['status'] = 'split'
                        todo += v
                if r['status'] in ('unknown', 'spurious', 'encoding-mismatch') and not getattr(ob, 'reduced_from', None):
                    w = ob.shrink(ob, rnd) if ob.shrink else windows(ob, rnd)
                    r['fallback'] = len(w)
                    todo += w
                if r['status'] == 'vacuous' and getattr(ob, 'reduced_from', None):
                    continue
                results.append(r)
            for o in todo:
                o.src = o.src or prop.src
            rnds += 1
            if any(r['status'] == 'sat' and not r['ob'].known for r in results):
                break
        for o in todo:
            if time.time() >= deadline:
                results.append(dict(name=o.name, status='unknown', note='not started: time budget', ob=o, args=[x.desc() for x in o.args], fn=o.fn))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # verdicts
    known, vio, kf_gone = [], [], []
    for r in results:
        ob = r['ob']
        bad = r['status'] == 'sat' or (r['status'] == 'encoding-mismatch' and r.get('native_bad'))
        if ob.known:
            (known if bad else kf_gone).append(r)
            continue
        if bad:
            vio.append(r)
    decided = [r for r in results if r['status'] in ('unsat', 'sat')]
    undecided = [r for r in results if r['status'] not in ('unsat', 'sat', 'split')]
    ev = evidence(pid, prop, results, vio, known, undecided, time.time() - t0, tb)
    ep = os.path.join(ROOT, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ep), exist_ok=True)
    with open(ep, 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%s %s: %d obligations, %d proved, %d undecided, %d violated, %d known; %d queries, solver %.1f s, wall %.1f s' % (
        pid, TIER, len(results), c['obligations_unsat'], len(undecided), len(vio), len(known), c['queries'], c['solver_s'], time.time() - t0))
    for r in undecided[:20]:
        print('  undecided: %s (%s) %s' % (r['name'], r['status'], r.get('note', '')[:300].replace('\n', ' | ')))
    for r in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, r['ob'].known))
    if vio:
        for k, r in enumerate(vio[:5]):
            p = replay_write(pid, k, r)
            print('  counterexample: %s %s args=%s native=%s why=%s' % (r['name'], r.get('desc', ''), r['cex']['shown'], r['cex']['native'], r['cex']['why'][:200]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    good = sum(1 for r in results if r['status'] == 'unsat')
    if good == 0:
        print('too little was decided')
        return 2
    return 0


def evidence(pid, prop, results, vio, known, undecided, wall, tb):
    funcs, stubs = set(), set()
    for r in results:
        funcs.update(r.get('funcs', ()))
        stubs.update(r.get('stubs', ()))
    lib = demangle(sorted(f for f in funcs if f.startswith('_Z')))
    uns = [r for r in results if r['status'] == 'unsat']
    samples = []
    for r in uns[:400]:
        if len(samples) >= 12:
            break
        samples.append(dict(obligation=r['name'], inputs=r['args'], verdict=r['status'], engine=r.get('engine', ''), solver_s=round(r.get('solver_s', 0), 3),
                            witness=r.get('samples', [])[:1]))
    cov = dict(
        states=sum(r.get('steps', 0) for r in results),
        transitions=sum(r.get('branches', 0) for r in results),
        traces_validated_against_impl=sum(r.get('validated', 0) for r in results) + sum(1 for r in vio + known if r.get('cex', {}).get('reproduced')),
        samples=samples,
        meaning='states = symbolic instructions executed, transitions = symbolic branches taken, traces_validated = solver models replayed on the compiled library',
        obligations_total=len(results), obligations_unsat=len(uns),
        queries=sum(r.get('queries', 0) for r in results), feasibility_queries=sum(r.get('feas', 0) for r in results),
        solver_s=round(sum(r.get('solver_s', 0) for r in results), 2), build_s=round(tb, 2),
        engines=sorted(set(r.get('engine', '') for r in uns)),
        functions_encoded=lib, harness_functions=sorted(f for f in funcs if not f.startswith('_Z'))[:200], modelled_externals=sorted(stubs),
        bounds=[dict(obligation=r['name'], inputs=r['args']) for r in results if r['status'] == 'unsat'][:400],
        undecided=[dict(obligation=r['name'], inputs=r['args'], status=r['status'], note=r.get('note', '')[:300]) for r in undecided],
        violated=[dict(obligation=r['name'], cex=r.get('cex', {}).get('shown'), native=r.get('cex', {}).get('native')) for r in vio],
        known_findings=[r['ob'].known for r in known],
    )
    return dict(property=pid, tier=TIER, seed=SEED, level='model_checking', coverage=cov, wall_s=round(wall, 2), violations=len(vio),
                assumptions=list(prop.assumptions) + [
                    'clang 18 -O1 LLVM IR of the harness + headers (fwrapv) is executed symbolically by /verif/vp; z3 / kissat decide; the encoder, clang and the solvers are trusted (models are replayed on the g++ -O2 build)',
                    'everything outside the listed bounds is outside the claim'])


def demangle(fs):
    if not fs:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(fs), capture_output=True, text=True)
        out = p.stdout.split('\n')
    except OSError:
        out = fs
    return [x[:180] for x in out if 'eirin' in x][:150]


if __name__ == '__main__':
    sys.exit(main())
