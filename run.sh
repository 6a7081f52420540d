#!/bin/bash
# Runs a Python program of this framework against the working tree of /repo (pure Python: nothing to compile).
# Byte code is never read from nor written to /repo: it is compiled afresh from the current source in every process.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export PYTHONIOENCODING=utf-8:backslashreplace
export TZ=UTC LC_ALL=C
exec /opt/venv/bin/python "$here/$1" "${@:2}"
