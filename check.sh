#!/bin/bash
# ./check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPYCACHEPREFIX=$work/pyc PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export HYPOTHESIS_STORAGE_DIRECTORY=$work/hyp
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=$here
unset PYTHONHOME PYTEST_ADDOPTS
cd "$here" || exit 2
python3-vt -W ignore -m harness.run "$@"
rc=$?
exit $rc
