#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$PWD:/opt/venv/lib/python3.12/site-packages:/opt/veriftools/pyvenv/lib/python3.12/site-packages"
exec /opt/venv/bin/python -m se.runner "$1" --tier "${2:-quick}" "${@:3}"
