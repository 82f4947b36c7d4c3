#!/bin/bash
# usage: check.sh PROPERTY   -- decide one property on /repo's current source
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_T0="$(date +%s)"
export PYTHONHASHSEED=0
CACHE="${VERIF_CACHE:-$HERE/.cache}"
mkdir -p "$CACHE"
OUT="$CACHE/mir-$1-$$.json"
trap 'rm -f "$OUT"' EXIT
if ! bash "$HERE/dump.sh" "$OUT" 2>"$CACHE/dump-$1.log"; then
  echo "check.sh: /repo could not be compiled for analysis"; tail -30 "$CACHE/dump-$1.log"; exit 2
fi
( ulimit -v 16000000; exec python3 "$HERE/analysis/check.py" "$1" "$OUT" )
rc=$?
exit $rc
