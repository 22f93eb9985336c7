#!/bin/bash
# tools/refactor.sh [SEED]: every check on a scratch copy of the repository rewritten by refactor.py; each must exit 0.
cd "$(dirname "$0")/.."
tree=$(mktemp -d /tmp/hv-refactor.XXXXXX)
git clone -q "${VERIF_REPO:-/repo}" "$tree" && python3 tools/refactor.py "$tree" || exit 2
bad=0
for c in $(ls hv/props | sed -n 's/^c\([0-9]*\).py/C\1/p'); do
  VERIF_REPO="$tree" VERIF_SEED="${1:-1}" ./run_check.py "$c" > "$tree/out" 2>&1; rc=$?
  echo "$c rc=$rc"; [ $rc = 0 ] || { bad=1; tail -5 "$tree/out"; }
done
rm -rf -- "${tree:?}"
exit $bad
