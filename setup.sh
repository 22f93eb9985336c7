#!/bin/bash
# Offline set-up: the property-based testing library, next to the framework (never in /repo's environment).
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ ! -d .lib/hypothesis ]; then
  rm -rf "$PWD/.lib.tmp"
  if "$PY" -m pip install -q --no-index --no-deps --find-links /opt/veriftools/wheels --target "$PWD/.lib.tmp" \
       hypothesis sortedcontainers attrs 2>/dev/null || \
     python3-vt -m pip install -q --no-index --no-deps --find-links /opt/veriftools/wheels --target "$PWD/.lib.tmp" \
       hypothesis sortedcontainers attrs 2>/dev/null; then
    mv "$PWD/.lib.tmp" "$PWD/.lib"
  else
    rm -rf "$PWD/.lib.tmp"
    echo "hypothesis not installed from the wheelhouse; the copy in python3-vt is used instead"
  fi
fi
mkdir -p evidence
PYTHONPATH=. "$PY" -c "
from hv import boot
h = boot.ensure_hypothesis()
print('hypothesis', h.__version__, h.__file__)
"
