#!/bin/sh
# Runs a Python file with the simulator and the built code on the path.
bash /opt/vp/build.sh >/dev/null 2>&1
export OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.argv = sys.argv[1:]
from sim import core; core.setup('/opt/pykrylov-py3/build/lib')
exec(compile(open(sys.argv[0]).read(), sys.argv[0], 'exec'))
" "$@"
