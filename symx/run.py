"""python -m symx.run PROPERTY [--tier quick|thorough]: decide one property."""
import argparse
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time

from . import env

env.setup()


def _worker(args):
    key, cfg, tier, seed, deadline, prefixes = args
    from . import registry, engine
    h = registry.HARNESSES[key]
    budget = h.budget
    dl = deadline if budget is None else min(deadline, time.time() + budget * (1 if tier == 'quick' else 4))
    try:
        r = engine.Job(h, key, cfg, tier, seed, dl, prefixes, 12 if prefixes is None else 25).run()
    except Exception as e:
        import traceback
        r = dict(key=key, cfg=cfg, error=f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
    r['functions'] = COV.functions()
    return r


def merge(rs):
    out = dict(rs[0])
    for r in rs:
        if 'error' in r:
            return r
    for k, v in out.items():
        if isinstance(v, bool) or k in ('key', 'cfg', 'functions', 'samples'):
            continue
        if isinstance(v, (int, float)):
            out[k] = sum(r.get(k, 0) for r in rs)
        elif isinstance(v, list):
            out[k] = [x for r in rs for x in r[k]]
        elif k == 'stats':
            out[k] = {n: sum(r[k][n] for r in rs) for n in v}
        elif k == 'violation':
            out[k] = next((r[k] for r in rs if r[k]), None)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--cfg')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 420 if a.tier == 'quick' else 3000
    deadline = t0 + budget
    env.check_repo()
    from . import registry, patch, core
    registry.load()
    hs = {k: h for k, h in registry.HARNESSES.items() if h.prop == a.property and (a.harness is None or h.name == a.harness)}
    if not hs:
        print(f'no harness for {a.property}', file=sys.stderr)
        return 2
    stub = all(h.stub_bounds_check for h in hs.values())
    global COV
    COV = patch.Coverage()
    COV.start()
    patched = patch.install(stub_bounds_check=stub)
    jobs = []
    for k, h in hs.items():
        for c in h.configs(a.tier):
            jobs.append((k, c, a.tier, seed, deadline, None))
    if a.cfg:
        jobs = [j for j in jobs if j[1] == json.loads(a.cfg)]
    results, violation = [], None
    ctxmp = mp.get_context('fork')
    pool = ctxmp.Pool(a.jobs)
    done = queue.Queue()
    pending = 0
    left, agg = {}, {}

    def submit(job):
        pool.apply_async(_worker, (job,), callback=done.put, error_callback=lambda e: done.put(dict(key=job[0], cfg=job[1], error=str(e))))
    try:
        for j in jobs:
            submit(j)
            pending += 1
            left[(j[0], json.dumps(j[1], sort_keys=True, default=str))] = 1
        while pending:
            r = done.get()
            pending -= 1
            results.append(r)
            spill = r.pop('spill', None)
            if spill:
                n = min(len(spill), 2 * a.jobs)
                for i in range(n):
                    submit((r['key'], r['cfg'], a.tier, seed, deadline, spill[i::n]))
                    pending += 1
            ck = (r['key'], json.dumps(r['cfg'], sort_keys=True, default=str))
            left[ck] += (n if spill else 0) - 1
            agg.setdefault(ck, []).append(r)
            if a.v and (left[ck] == 0 or r.get('violation')):
                r = merge(agg[ck])
                print(f"{r['key']} {r['cfg']} " + (r['error'] if 'error' in r else
                      f"paths={r['paths']} infeas={r['infeasible']} br={r['branches']} obl={r['obligations']} dis={r['discharged']} "
                      f"triv={r['trivial']} tol={r['tolerance']} val={r['validated']} mism={len(r['mismatches'])} und={len(r['undecided'])} "
                      f"exc={r['exceptions']} q={r['stats']['queries']} st={r['stats']['time']:.1f} wall={r['wall']:.1f}"), flush=True)
                for u in r.get('undecided', [])[:4]:
                    print('   undecided:', u)
                for u in r.get('unreproduced', [])[:2]:
                    print('   unreproduced:', u)
                for u in r.get('mismatches', [])[:2]:
                    print('   mismatch:', u)
                for u in r.get('incomplete', [])[:2]:
                    print('   incomplete:', u)
                if r.get('violation'):
                    print('   candidate:', r['violation'])
            if r.get('violation') and violation is None:
                violation = r['violation']
                break
        pool.terminate()
    finally:
        pool.terminate()
        pool.join()

    rc = 0
    if violation is not None:
        d = os.path.join(env.VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{a.property}.json')
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        # independent confirmation: a fresh, unpatched interpreter
        p = subprocess.run([sys.executable, '-m', 'symx.replay', path], cwd=env.VERIF, capture_output=True, text=True)
        if p.returncode == 1:
            rc = 1
            print(f"property {a.property}: {violation['label']}")
            print(f"  {violation['detail']}")
            print(f"  harness {violation['harness']} cfg {violation['cfg']} inputs {violation['inputs']}")
            print(f'VIOLATION property={a.property} replay={path}')
        else:
            print('counterexample did not reproduce in a fresh process', file=sys.stderr)
            rc = 2
    evidence(a, seed, hs, results, violation if rc == 1 else None, patched, time.time() - t0)
    ok = [r for r in results if 'error' not in r]
    und = sum(len(r['undecided']) for r in ok)
    inc = sum(len(r['incomplete']) for r in ok)
    mism = sum(len(r['mismatches']) for r in ok)
    errs = [r for r in results if 'error' in r]
    print(f"{a.property} {a.tier}: {sum(r['paths'] for r in ok)} paths, {sum(r['obligations'] + r['trivial'] for r in ok)} obligations "
          f"({sum(r['discharged'] for r in ok)} by solver, {sum(r['trivial'] for r in ok)} by simplification), "
          f"{sum(r['stats']['queries'] for r in ok)} queries, {sum(r['stats']['time'] for r in ok):.1f} s solver, "
          f"{sum(r['validated'] for r in ok)} traces validated, {und} undecided, {inc} concretised, {mism} mismatches, {len(errs)} errors, "
          f"{time.time() - t0:.1f} s")
    if rc == 0:
        for r in errs[:3]:
            print('ERROR in', r['key'], r['cfg'], r['error'], file=sys.stderr)
        incon = {}
        for r in ok:
            if r['undecided']:
                e = incon.setdefault(f"{r['key']} {r['cfg']}", [0, r['undecided'][0]])
                e[0] += len(r['undecided'])
        for k, (n, u) in incon.items():
            print(f'INCONCLUSIVE {k}: {n} undecided, e.g. {u}')
        paths = sum(r['paths'] for r in ok)
        made, held = sum(r['obligations'] + r['trivial'] for r in ok), sum(r['discharged'] + r['trivial'] for r in ok)
        if errs or not paths or made == 0 or held < 0.5 * made:
            rc = 2   # (almost) nothing was decided
    return rc


def evidence(a, seed, hs, results, violation, patched, wall):
    from . import patch
    ok = [r for r in results if 'error' not in r]
    S = lambda k: sum(r[k] for r in ok)
    funcs = sorted(set(f for r in results for f in r.get('functions', [])))
    harnesses = {}
    for k, h in hs.items():
        rs = [r for r in ok if r['key'] == k]
        harnesses[h.name] = dict(bounds=h.bounds, configurations=len(set(json.dumps(r['cfg'], sort_keys=True, default=str) for r in rs)), paths=sum(r['paths'] for r in rs),
                                 obligations=sum(r['obligations'] + r['trivial'] for r in rs),
                                 reachable_paths_with_checks=sum(1 for r in rs if r['obligations'] + r['trivial'] > 0))
    samples = [s for r in ok for s in r['samples']][:6]
    cross = [c for r in ok for c in r['cross']]
    ev = dict(
        property=a.property, tier=a.tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        violations=1 if violation else 0,
        coverage=dict(
            states=S('paths'), transitions=S('branches'), traces_validated_against_impl=S('validated'), samples=samples,
            states_means='feasible execution paths of the real code followed to their end (each stands for all inputs that take it)',
            transitions_means='decisions on symbolic values taken or refuted',
            obligations=S('obligations') + S('trivial'), discharged_by_solver=S('discharged'),
            discharged_by_simplification=S('trivial'), holds_within_tolerance_only=S('tolerance'),
            infeasible_alternatives_refuted=S('infeasible'), solver_queries=sum(r['stats']['queries'] for r in ok),
            solver_sat=sum(r['stats']['sat'] for r in ok), solver_unsat=sum(r['stats']['unsat'] for r in ok),
            solver_unknown=sum(r['stats']['unknown'] for r in ok), solver_time_s=round(sum(r['stats']['time'] for r in ok), 2),
            undecided=sum(len(r['undecided']) for r in ok), undecided_examples=[u for r in ok for u in r['undecided']][:5],
            concretised_paths=sum(len(r['incomplete']) for r in ok), concretised_examples=[u for r in ok for u in r['incomplete']][:5],
            unreproduced=[u for r in ok for u in r['unreproduced']][:3],
            encoding_mismatches=[u for r in ok for u in r['mismatches']][:3],
            second_solver_agreements=sum(1 for c in cross if c[0] == c[1]), second_solver_other=[c for c in cross if c[0] != c[1]][:5],
            harnesses=harnesses, functions_encoded=funcs, redirected_names=patched,
            exhaustive=bool(ok) and not violation and not any(r['undecided'] or r['incomplete'] for r in ok)),
        assumptions=['floats are treated as exact reals within the stated bounds; counterexamples are replayed in floats on unpatched code'] + patch.STUBS)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(env.VERIF, 'evidence', f'{a.property}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
