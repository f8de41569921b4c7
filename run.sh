#!/bin/bash
# run.sh <property> [quick|thorough] [options]: one check, with the interpreter MTfit is built for
cd "$(dirname "$(readlink -f "$0")")" || exit 2
p=$(echo "$1" | tr A-Z a-z); shift
t=quick
case "$1" in quick|thorough) t=$1; shift;; esac
export VERIF_TIER=$t VERIF_SEED="${VERIF_SEED:-1}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "checks/$p.py" "$@"
