#!/bin/bash
# Nothing to build: the framework is Python. Checks that the pieces are there.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
mkdir -p evidence
/opt/venv/bin/python - <<'EOF'
from symx import env
env.setup()
import z3, numpy, pymgrid
from symx import registry
print('z3', z3.get_version_string(), 'harnesses', len(registry.load()))
EOF
