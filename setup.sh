#!/bin/bash
# Nothing to build: checks that the tools are there and that the repository's tests pass on the instrumented modules.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=python3-vt
mkdir -p evidence
exec "$PY" -m sx.selftest
