"""Interpreter set-up shared by the engine and the replay process."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('SYMX_SRC', '/repo/src')  # override: development only (mutation runs in scratch copies)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup(z3=True):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if z3 and VT not in sys.path:
        sys.path.append(VT)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


def check_repo():
    import pymgrid
    if not os.path.abspath(pymgrid.__file__).startswith(REPO_SRC + '/'):
        print(f'pymgrid comes from {pymgrid.__file__}, not from {REPO_SRC}', file=sys.stderr)
        sys.exit(2)
