#!/bin/bash
# check.sh <property> [quick|thorough|--replay FILE]
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 DUCC0_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
pid=$1; shift
# the extensions are rebuilt from /repo's current working tree
log=$(mktemp)
if ! bash /opt/vp/build.sh ext >"$log" 2>&1; then
    echo "CHECK-ERROR: /repo does not build" >&2; tail -20 "$log" >&2; rm -f "$log"; exit 3
fi
rm -f "$log"
case "$1" in
    quick|thorough) tier=$1; shift; exec python -m vp.run "$pid" --tier "$tier" "$@";;
    *) exec python -m vp.run "$pid" "$@";;
esac
