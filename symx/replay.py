"""Runs a harness on concrete inputs against the unpatched code of /repo.

  python -m symx.replay FILE.json      one counterexample; exit 1 if it fails
  python -m symx.replay --server       JSON lines on stdin/stdout (engine use)
"""
import json
import os
import sys
import traceback

from . import env

env.setup(z3=False)

import numpy as np  # noqa: E402

_RANDOM = {n: getattr(np.random, n) for n in ('rand', 'randint', 'normal', 'uniform', 'random', 'choice', 'random_sample', 'default_rng', 'RandomState')}


def run_case(key, cfg, inputs):
    import warnings
    from . import registry
    from .ctx import ConcCtx, SkipCase
    for n, f in _RANDOM.items():
        setattr(np.random, n, f)
    np.random.seed(0)
    h = registry.HARNESSES[key]
    ctx = ConcCtx(inputs)
    status, detail = 'ok', ''
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            h.fn(ctx, cfg)
        except SkipCase:
            status = 'skip'
        except Exception as e:
            status = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            loc = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-4:]))
            detail = f'{type(e).__name__}: {str(e)[:300]} at {loc}'
    if ctx.failures:
        status = 'fail'
        detail = '; '.join(ctx.failures[:5])
    return dict(status=status, detail=detail, observed=ctx.observed, nchecks=ctx.nchecks)


def main():
    from . import registry
    env.check_repo()
    registry.load()
    if sys.argv[1:] == ['--server']:
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        for line in sys.stdin:
            q = json.loads(line)
            r = run_case(q['harness'], q['cfg'], q['inputs'])
            out.write(json.dumps(r) + '\n')
            out.flush()
        return 0
    q = json.load(open(sys.argv[1]))
    r = run_case(q['harness'], q['cfg'], q['inputs'])
    print(json.dumps(dict(harness=q['harness'], cfg=q['cfg'], inputs=q['inputs'], status=r['status'], detail=r['detail']), indent=1))
    return 1 if r['status'] in ('fail', 'exception') else 0


if __name__ == '__main__':
    sys.exit(main())
