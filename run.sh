#!/bin/bash
# Run one check: run.sh <property id> [--tier quick|thorough] [--replay file] [--sub name] [--seed n]
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=
export VF_REPO="${VF_REPO:-/repo}"
exec /opt/venv/bin/python "$here/run.py" "$@"
