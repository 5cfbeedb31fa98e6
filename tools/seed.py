#!/usr/bin/env python3
"""seed.py ID PROPERTY SPEC.json|- : plant a bug in a scratch copy of /repo, confirm that it builds, passes the
stable tests and that its demonstration fails with it and passes without, and store it under /verif/seeded/ID.

SPEC: {"edits": [[file, old, new], ...], "demo": python source, "needs": str, "breaks": str}
"""
import json, os, shutil, subprocess, sys, tempfile
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp'); r = d + '/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in edits:
            p = f'{r}/src/pymgrid/{f}'; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {r} diff').stdout
        out = f'/verif/seeded/{id}'; os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
            'MPLCONFIGDIR=/opt/venv/mplconfig\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + '/meta.json', 'w'), indent=1)
        a = sh(f'bash {out}/demo.sh', cwd='/repo'); b = sh(f'bash {out}/demo.sh', cwd=r)
        t = sh('/opt/venv/bin/python -m pytest tests --doctest-modules -q -n 8 -p no:cacheprovider --timeout=300 '
               f'--continue-on-collection-errors -o log_cli=false -o junit_family=xunit2 --junitxml={d}/j.xml; '
               f'/usr/bin/python3 /opt/vp/results.py {d}/o.json junit:{d}/j.xml', cwd=r,
               env=dict(os.environ, PYTHONPATH=r + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                        MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))
        o = json.load(open(d + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        miss = [x for x in base['stable'] if x not in set(o['passed'])]
        ok = a.returncode == 0 and b.returncode != 0 and not miss
        print(id, prop, 'OK' if ok else 'BAD', 'demo', a.returncode, b.returncode, 'missing', miss[:4])
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        elif b.returncode == 0: print(b.stdout[-500:])
        else: print('   ', (b.stderr.strip().splitlines() or [''])[-1][:200])
        return ok
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    import importlib.util
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.BUGS:
        if not only or b['id'] in only:
            plant(b['id'], b['prop'], b['edits'], m.PRE + b['demo'], b['needs'], b['breaks'])
