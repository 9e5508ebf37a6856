#!/bin/sh
# run.sh check <property> <quick|thorough> | run.sh replay <file> | run.sh determinism <property> <n>
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD:${EDSIM_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPYCACHEPREFIX=/nonexistent/edsim PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
exec "$PY" -m sim.main "$@"
