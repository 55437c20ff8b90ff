#!/bin/sh
# run.sh PROPERTY [quick|thorough]: run the check of one property against
# the working tree in /repo.
cd "$(dirname "$0")" || exit 2
unset ALINT_IGNORE PYTHONPATH PYTHONSTARTUP
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 \
PYTHONIOENCODING=utf-8 PYTHONUTF8=1
export PYTHONDONTWRITEBYTECODE PYTHONHASHSEED LC_ALL PYTHONIOENCODING PYTHONUTF8
PY=/usr/bin/pypy3
[ -x "$PY" ] || PY=python3
exec "$PY" -B mc/main.py "$@"
