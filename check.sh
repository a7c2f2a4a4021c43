#!/bin/bash
# Runs one monitor against the working tree of /repo: check.sh C01 | check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export LANG=C.UTF-8 PYTHONHASHSEED=0
PYTHONPYCACHEPREFIX=$(mktemp -d) || exit 2
export PYTHONPYCACHEPREFIX
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
/opt/venv/bin/python -W ignore -m vm "$@"
