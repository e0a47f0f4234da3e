#!/bin/bash
# check.sh ID [engine arguments]: build what is needed from /repo and run a check.
# VERIF_SEED and VERIF_TIER (quick, thorough) are read from the environment.
cd "$(dirname "$0")" || exit 2
id=$1; shift
export VERIF_DIR=$PWD
prog=$(python3 build.py "$id" | tail -1) || exit 2
[ -x "$prog" ] || exit 2
if [ "$VERIF_TIER" = thorough ] && [ $# = 0 ]; then exec python3 thorough.py "$id" "$prog"; fi
exec "$prog" "$@"
