#!/bin/bash
# Exit 0 when the property holds for this scenario, nonzero when it is broken.
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python -W ignore "$d/demo.py"
