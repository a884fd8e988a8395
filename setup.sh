#!/bin/sh
# nothing to build: the encoding is regenerated from /repo on every run
cd "$(dirname "$0")" || exit 1
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=python3-vt
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import z3, symx.driver; print('z3', z3.get_version_string())"
