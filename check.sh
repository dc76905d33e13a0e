#!/bin/bash
# ./check.sh <property> [--tier quick|thorough] [--replay FILE]
# Runs one property's generated-input search against the current tree of /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_WAIT_POLICY=passive
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export EUPHONIC_REPO=${EUPHONIC_REPO:-/repo}
exec "${VP_PYTHON:-/opt/venv/bin/python}" -B -W ignore harness/main.py "$@"
