"""Mutation campaign (development aid): single-point mutants of the source that survive the repository's tests.

  mutate.py gen SEED PER_FILE OUTDIR      write surviving mutants to OUTDIR/NNN.json (8 parallel test runs in scratch copies)
  mutate.py check OUTDIR [N..]            run the checks of the related properties against each until one reports it
"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

R = '/repo/src/pymgrid/'
FILES = {
 'modules/battery_module.py': 'C02 C03 C09 C11 C21 C15 C16', 'modules/genset_module.py': 'C04 C05 C09 C11 C21 C16 C15', 'modules/grid_module.py': 'C06 C07 C09 C11 C12 C14 C15 C16',
 'modules/load_module.py': 'C08 C11 C12 C13 C14 C15', 'modules/renewable_module.py': 'C08 C09 C11 C12 C13 C14 C15', 'modules/unbalanced_energy_module.py': 'C08 C10 C13 C15',
 'modules/module_container.py': 'C18 C22 C16 C15', 'modules/base/base_module.py': 'C09 C11 C13 C21 C15 C02', 'modules/base/timeseries/base_timeseries_module.py': 'C14 C12 C15 C11',
 'microgrid/microgrid.py': 'C01 C08 C10 C12 C13 C14 C15 C18 C21 C17', 'microgrid/utils/step.py': 'C01 C10 C12 C22', 'microgrid/trajectory/stochastic.py': 'C17 C15', 'microgrid/trajectory/deterministic.py': 'C17 C15',
 'microgrid/trajectory/base.py': 'C17 C15', 'microgrid/reward_shaping/pv_curtailment_shaper.py': 'C10 C15', 'microgrid/reward_shaping/battery_discharge_shaper.py': 'C10 C15', 'microgrid/reward_shaping/base.py': 'C10 C15',
 'envs/base/base.py': 'C22 C16', 'envs/discrete/discrete.py': 'C16 C22', 'envs/continuous/continuous.py': 'C22', 'forecast/forecaster.py': 'C14 C15',
 'algos/priority_list/priority_list.py': 'C16', 'algos/priority_list/priority_list_element.py': 'C16', 'algos/rbc/rbc.py': 'C16', 'algos/mpc/mpc.py': 'C20',
 'convert/convert.py': 'C19', 'convert/get_module.py': 'C19', 'convert/to_nonmodular_ops.py': 'C19', 'utils/logger.py': 'C13 C15', 'utils/serialize.py': 'C15', 'utils/space.py': 'C11 C22',
 '_deprecated/non_modular_microgrid.py': 'C23', 'MicrogridGenerator.py': 'C24',
 'utils/DataGenerator.py': 'C25', 'algos/saa/saa.py': 'C25', 'algos/Control.py': 'C25 C20',
 'algos/rbc/_nonmodular_rbc.py': 'C26',
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult}


def points(tree):
    """(description, mutator on a deep copy located by index) for every mutation point"""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or (isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('warn', 'print')):
            for k in ast.walk(n):
                skip.add(id(k))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Compare):
            out.append((i, 'cmp'))
            out.append((i, 'cmpneg'))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            out.append((i, 'bin'))
            if isinstance(n, ast.BinOp):
                out.append((i, 'left')); out.append((i, 'right'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((i, 'const'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, 'bool'))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'boolop'))
        elif isinstance(n, ast.UnaryOp):
            out.append((i, 'unary'))
        elif isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('min', 'max'):
            out.append((i, 'minmax'))
        elif isinstance(n, ast.Call) and n.keywords:
            out.append((i, 'dropkw'))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((i, 'iftrue')); out.append((i, 'iffalse'))
        elif isinstance(n, (ast.AugAssign, ast.Expr)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((i, 'drop'))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((i, 'slice'))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    return out


def mutate(src, i, kind, rng):
    tree = ast.parse(src)
    n = list(ast.walk(tree))[i]
    line, before = n.lineno, ast.unparse(n).split('\n')[0][:160]
    if kind == 'cmp': n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'cmpneg':
        neg = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if type(n.ops[0]) not in neg: return None
        n.ops[0] = neg[type(n.ops[0])]()
    elif kind == 'bin': n.op = BIN[type(n.op)]()
    elif kind in ('left', 'right'):
        new = n.left if kind == 'left' else n.right
        class T(ast.NodeTransformer):
            def visit(self, x):
                return new if x is n else self.generic_visit(x)
        tree = T().visit(tree)
    elif kind == 'const': n.value = rng.choice([n.value + 1, n.value - 1, 0]) if n.value else 1
    elif kind == 'bool': n.value = not n.value
    elif kind == 'boolop': n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'unary':
        class T(ast.NodeTransformer):
            def visit(self, x):
                return n.operand if x is n else self.generic_visit(x)
        tree = T().visit(tree)
    elif kind == 'minmax':
        f = n.func
        a = 'id' if isinstance(f, ast.Name) else 'attr'
        setattr(f, a, {'min': 'max', 'max': 'min'}[getattr(f, a)])
    elif kind == 'dropkw': n.keywords.pop(rng.randrange(len(n.keywords)))
    elif kind in ('iftrue', 'iffalse'): n.test = ast.Constant(kind == 'iftrue')
    elif kind == 'drop':
        class T(ast.NodeTransformer):
            def visit(self, x):
                return ast.Pass() if x is n else self.generic_visit(x)
        tree = T().visit(tree)
    elif kind == 'slice':
        s = n.slice
        if s.lower is not None and rng.random() < .5: s.lower = ast.BinOp(s.lower, ast.Add(), ast.Constant(1))
        elif s.upper is not None: s.upper = ast.BinOp(s.upper, ast.Sub(), ast.Constant(1))
        else: return None
    ast.fix_missing_locations(tree)
    try:
        new = ast.unparse(tree)
    except Exception:
        return None
    if new == ast.unparse(ast.parse(src)):
        return None
    m = list(ast.walk(tree))
    after = ast.unparse(m[i]).split('\n')[0][:160] if i < len(m) else '?'
    return new, f'{line} {kind}: {before}  =>  {after}'


def tests_pass(d):
    env = dict(os.environ, PYTHONPATH=d + '/src', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MPLCONFIGDIR='/opt/venv/mplconfig')
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=120', '-o', 'log_cli=false'],
                           cwd=d, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    return p.returncode == 0, p.stdout[-600:]


def gen(seed, per, out):
    os.makedirs(out, exist_ok=True)
    rng = random.Random(seed)
    jobs = []
    for f in FILES:
        src = open(R + f).read()
        pts = points(ast.parse(src))
        rng.shuffle(pts)
        k = 0
        for i, kind in pts:
            if k >= per: break
            m = mutate(src, i, kind, rng)
            if m:
                jobs.append((f, m[0], m[1])); k += 1
    rng.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    dirs = []
    for w in range(8):
        d = tempfile.mkdtemp(prefix='mutw_', dir='/tmp')
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        dirs.append(d + '/repo')
    import queue
    q = queue.Queue()
    for d in dirs: q.put(d)
    base = [tests_pass(dirs[0])]
    print('baseline', base[0][0], '' if base[0][0] else base[0][1], flush=True)

    def one(k):
        f, new, desc = jobs[k]
        d = q.get()
        try:
            p = f'{d}/src/pymgrid/{f}'
            old = open(p).read()
            open(p, 'w').write(new)
            ok, _ = tests_pass(d)
            open(p, 'w').write(old)
            if ok:
                json.dump(dict(file=f, desc=desc, new=new), open(f'{out}/{k:04d}.json', 'w'))
            return ok
        finally:
            q.put(d)
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(one, range(len(jobs))))
    print(sum(r), 'survive the tests', flush=True)
    for d in dirs:
        shutil.rmtree(os.path.dirname(d))


def check(out, ids):
    for p in sorted(glob.glob(out + '/*.json')):
        k = os.path.basename(p)[:-5]
        if ids and k not in ids: continue
        if not ids and os.path.exists(out + '/' + k + '.res'): continue
        m = json.load(open(p))
        d = tempfile.mkdtemp(prefix='mutc_', dir='/tmp')
        shutil.copytree('/repo/src', d + '/src', symlinks=True)
        open(f"{d}/src/pymgrid/{m['file']}", 'w').write(m['new'])
        res = 'MISSED'
        for c in FILES[m['file']].split():
            r = subprocess.run([os.environ.get('VERIF_DIR', '/verif') + '/check.sh', c, 'quick'], env=dict(os.environ, SYMX_SRC=d + '/src', VERIF_SEED='1'), capture_output=True, text=True)
            if r.returncode == 1:
                lab = [l for l in r.stdout.splitlines() if l.startswith('property ')]
                res = f'{c} {lab[0][:140] if lab else ""}'
                break
            if r.returncode != 0:
                res = f'MISSED ({c} rc={r.returncode})'
        shutil.rmtree(d)
        open(f'{out}/{k}.res', 'w').write(res)
        print(k, m['file'], m['desc'], '->', res, flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen': gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else: check(sys.argv[2], sys.argv[3:])
