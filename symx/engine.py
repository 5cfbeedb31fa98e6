"""Explores one harness configuration and discharges its obligations."""
import json
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core, env
from .core import Explorer, PathAbort, Session, solve, solve_hard, STATS
from .ctx import make_symctx, SkipCase


class ReplayServer:
    def __init__(self):
        self.p = None

    def ask(self, key, cfg, inputs):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, '-m', 'symx.replay', '--server'], cwd=env.VERIF,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            self.p.stdin.write(json.dumps(dict(harness=key, cfg=cfg, inputs=inputs)) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except (BrokenPipeError, json.JSONDecodeError):
            self.p = None
            return dict(status='error', detail='replay process died', observed=[], nchecks=0)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(timeout=10)


SERVER = ReplayServer()


def nice_model(constraints, inputs, model, budget=6.0):
    """Greedily move the inputs of a model to short dyadic numbers (exact floats)."""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 400)
    s.add(*constraints)
    vals = {}
    pend, loose = [], []
    for name, (kind, z) in inputs.items():
        v = model.eval(z, model_completion=True)
        if kind == 'bool':
            s.add(z == v)
            vals[name] = z3.is_true(v)
        elif kind == 'int':
            s.add(z == v)
            vals[name] = v.as_long()
        else:
            pend.append((name, z))
    for name, z in pend:
        f = core.z3_to_fraction(model.eval(z, model_completion=True))
        done = False
        if time.time() - t0 < budget:
            cands = []
            for den in (1, 2, 4, 16, 64, 1024):
                c = Fraction(round(f * den), den)
                if c not in cands:
                    cands.append(c)
            for c in cands:
                s.push()
                s.add(z == core.real_const(c))
                t1 = time.time()
                r = s.check()
                STATS.queries += 1
                STATS.time += time.time() - t1
                if r == z3.sat:
                    model = s.model()
                    vals[name] = float(c)
                    done = True
                    break          # keep the pushed scope
                s.pop()
                if time.time() - t0 > budget:
                    break
        if not done:
            loose.append((name, z))
    for name, z in loose:
        # values of the final model, so that inputs and observations agree
        vals[name] = float(core.z3_to_fraction(model.eval(z, model_completion=True)))
    return vals, model


def witness_value(model, z):
    try:
        return float(core.z3_to_fraction(model.eval(z, model_completion=True)))
    except Exception:
        return None


class Job:
    def __init__(self, harness, key, cfg, tier, seed, deadline, prefixes=None, slice_s=1e9):
        self.prefixes, self.slice_s = prefixes, slice_s
        self.h, self.key, self.cfg, self.tier = harness, key, cfg, tier
        self.rng = random.Random(f'{seed}/{key}/{json.dumps(cfg, sort_keys=True, default=str)}')
        self.deadline = deadline
        self.res = dict(key=key, cfg=cfg, paths=0, infeasible=0, branches=0, aborted=0, obligations=0, discharged=0, trivial=0,
                        tolerance=0, undecided=[], violation=None, validated=0, mismatches=[], samples=[], unreproduced=[],
                        exceptions=0, incomplete=[], wall=0.0, reach=0, cross=[])

    # ----------------------------------------------------------------- main
    def run(self):
        t0 = time.time()
        stats0 = STATS.as_dict()
        SymCtx = make_symctx()
        ex = Explorer(self.deadline, self.h.max_paths)
        ex.trivial = 0
        ex.start(self.prefixes)
        self.ex = ex
        res = self.res
        nval = 0
        maxval = (12 if self.tier == 'quick' else 40) if self.prefixes is None else 2
        timeout = 8000 if self.tier == 'quick' else 30000
        while True:
            if time.time() - t0 > self.slice_s and len(ex.work) > 1 and time.time() < self.deadline - 5:
                res['spill'] = [d for d, _ in ex.work]      # the rest goes back to the pool
                ex.work.clear()
                break
            path = ex.next_path()
            if path is None:
                break
            Session.cur = path
            Session.random = None
            Session.rounding, Session.landmarks = False, ()
            core.clear_tokens()
            ctx = SymCtx(path)
            status, exc = 'ok', None
            try:
                self.h.fn(ctx, self.cfg)
            except PathAbort as e:
                status = e.why
            except SkipCase:
                status = 'skip'
            except Exception as e:
                status, exc = 'exception', e
            if path.model is None and not path.no_model and status in ('ok', 'skip', 'exception'):
                try:
                    path.pos = max(path.pos, len(path.prefix))
                    path.remodel()
                except PathAbort as e:
                    status = e.why
            if status in ('infeasible', 'assume'):
                ex.infeasible += 1
                continue
            if status in ('unknown', 'deadline', 'choose'):
                res['aborted'] += 1
                res['undecided'].append(f'path given up: {status}')
                if status == 'deadline':
                    res['undecided'].append(f'{len(ex.work)} alternatives not explored: budget')
                    break
                continue
            res['paths'] += 1
            ex.completed += 1
            if path.incomplete:
                res['incomplete'].extend(path.incomplete[:2])
                del res['incomplete'][10:]
            if exc is not None:
                res['exceptions'] += 1
                tb = traceback.extract_tb(exc.__traceback__)
                loc = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-4:]))
                path.obligations.append((f'unexpected {type(exc).__name__}: {str(exc)[:120]} at {loc}', z3.BoolVal(False), None))
            self.discharge(path, timeout)
            if res['violation']:
                break
            # path witness -> validate the encoding against the real code
            if nval < maxval and (nval < 4 or self.rng.random() < 0.25):
                nval += 1
                self.validate(path)
                if res['violation']:
                    break
        res['infeasible'] = ex.infeasible
        res['branches'] = ex.branches
        res['trivial'] += ex.trivial
        res['undecided'].extend(ex.undecided)
        if ex.unknown_feas:
            res['unknown_feasibility'] = ex.unknown_feas
        s1 = STATS.as_dict()
        res['stats'] = {k: s1[k] - stats0[k] for k in s1}
        res['wall'] = time.time() - t0
        return res

    # ------------------------------------------------------------- obligations
    def discharge(self, path, timeout):
        obs = path.obligations
        res = self.res
        if not obs:
            return
        res['obligations'] += len(obs)
        C = path.constraints
        falses = [o for o in obs if z3.is_false(o[1])]
        for lab, z, _ in falses[:2]:
            if self.violate(path, lab, C):
                return
            break
        rest = [o for o in obs if not z3.is_false(o[1])]
        # de-duplicate
        seen, uniq = {}, []
        for o in rest:
            i = o[1].get_id()
            if i not in seen:
                uniq.append(o)
            seen[i] = seen.get(i, 0) + 1
        if not uniq:
            return
        # quick refutation by the path model is not a proof of violation (margin), so go to the solver
        r, m = solve(C + [z3.Or(*[z3.Not(o[1]) for o in uniq])], 3000)
        if r == 'unsat':
            res['discharged'] += len(rest)
            self.maybe_cross(C + [z3.Or(*[z3.Not(o[1]) for o in uniq])], 'unsat')
            return
        for lab, z, tolz in uniq:
            if time.time() > self.deadline:
                res['undecided'].append(f'{lab}: budget')
                continue
            r, m = solve_hard(C + [z3.Not(z)], timeout)
            if r == 'unsat':
                res['discharged'] += seen[z.get_id()]
                continue
            if r == 'sat' and tolz is None:
                if not self.violate(path, lab, C + [z3.Not(z)], m):
                    pass
                if res['violation']:
                    return
                continue
            if tolz is not None:
                r2, m2 = solve_hard(C + [z3.Not(tolz)], timeout)
                if r2 == 'unsat':
                    res['discharged'] += seen[z.get_id()]
                    res['tolerance'] += 1
                    continue
                if r2 == 'sat':
                    self.violate(path, lab, C + [z3.Not(tolz)], m2)
                    if res['violation']:
                        return
                    continue
            if self.instantiate(path, lab, tolz if tolz is not None else z):
                return
            res['undecided'].append(f'{lab}: solver unknown')

    def instantiate(self, path, lab, z):
        """Solver said unknown: pin part of the inputs and ask again (refutation only)."""
        if path.model is None:
            return False
        names = [n for n, (k, _) in path.inputs.items() if k == 'real']
        for _ in range(4):
            if time.time() > self.deadline:
                return False
            sub = [n for n in names if self.rng.random() < 0.6]
            extra = []
            for n in sub:
                v = path.inputs[n][1]
                extra.append(v == core.real_const(core.z3_to_fraction(path.model.eval(v, model_completion=True)).limit_denominator(64)))
            r, m = solve(path.constraints + extra + [z3.Not(z)], 2000)
            if r == 'sat' and self.violate(path, lab, path.constraints + extra + [z3.Not(z)], m):
                return True
        return False

    def violate(self, path, lab, constraints, model=None):
        """Candidate counterexample: replay it on the unpatched code."""
        if model is None:
            r, model = solve_hard(constraints, 8000)
            if r == 'unsat':
                self.res['discharged'] += 1
                return False
            if r != 'sat':
                self.res['undecided'].append(f'{lab}: no model')
                return False
        if len(self.res['unreproduced']) > 25:
            self.res['undecided'].append(f'{lab}: not replayed')
            return False
        for attempt in range(3):
            vals, m2 = nice_model(constraints, path.inputs, model)
            r = SERVER.ask(self.key, self.cfg, vals)
            if r['status'] in ('fail', 'exception'):
                self.res['violation'] = dict(harness=self.key, cfg=self.cfg, inputs=vals, label=lab, detail=r['detail'])
                return True
            # other corner of the region
            reals = [z for (k, z) in path.inputs.values() if k == 'real']
            if not reals:
                break
            z = self.rng.choice(reals)
            f = core.z3_to_fraction(m2.eval(z, model_completion=True))
            st, m3 = solve(constraints + [z3.Or(z > core.real_const(f + 1), z < core.real_const(f - 1))], 2000)
            if st != 'sat':
                break
            model = m3
        self.res['unreproduced'].append(dict(label=lab, inputs=vals, replay=r['status'], detail=r['detail'][:200]))
        self.res['undecided'].append(f'{lab}: counterexample does not reproduce')
        return False

    # -------------------------------------------------------------- validation
    def validate(self, path):
        r, m = solve(path.constraints, 3000)
        if r != 'sat':
            return
        vals, m = nice_model(path.constraints, path.inputs, m, budget=2.0)
        out = SERVER.ask(self.key, self.cfg, vals)
        if len(self.res['samples']) < 2:
            self.res['samples'].append(dict(cfg=self.cfg, inputs=vals, decisions=len(path.decisions), replay=out['status']))
        if out['status'] in ('fail', 'exception'):
            self.res['violation'] = dict(harness=self.key, cfg=self.cfg, inputs=vals, label='path witness', detail=out['detail'])
            return
        if out['status'] == 'skip':
            return
        sym = [(l, None if z is None else witness_value(m, z)) for l, z in path.observed]
        conc = {}
        for l, v in out['observed']:
            conc.setdefault(l, []).append(v)
        bad = None
        for l, v in sym:
            c = conc.get(l)
            if v is None:
                if c:
                    c.pop(0)
                continue
            if not c:
                bad = f'{l}: not observed concretely'
                break
            w = c.pop(0)
            if w is None or abs(w - v) > 1e-6 * (1 + abs(v) + abs(w)):
                bad = f'{l}: encoding {v!r}, implementation {w!r}'
                break
        if bad:
            self.res['mismatches'].append(dict(inputs=vals, what=bad))
        else:
            self.res['validated'] += 1

    def maybe_cross(self, constraints, verdict):
        """thorough: re-ask a sample of the queries of a second solver (cvc5)."""
        if self.tier != 'thorough' or len(self.res['cross']) >= 3 or self.rng.random() > 0.1:
            return
        s = z3.Solver()
        s.add(*constraints)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=8000', '-'], input=txt, capture_output=True, text=True, timeout=20)
            out = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else 'none'
        except Exception:
            out = 'timeout'
        self.res['cross'].append([verdict, out])
