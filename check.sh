#!/bin/bash
# usage: ./check.sh C01   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 3
export LANG=C.UTF-8 PYTHONUTF8=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore check.py "$@"
