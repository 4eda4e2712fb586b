#!/bin/bash
# run.sh <property> <quick|thorough>      decide one property on /repo's tree
# run.sh replay <file>                    replay one recorded violation
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$here" || exit 2
exec /opt/pypy-venv/bin/python -W ignore mc/main.py "$@"
