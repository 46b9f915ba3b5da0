#!/bin/bash
# check.sh <property> [quick|thorough]   decides one property for the current tree of /repo
# check.sh replay <file>                 runs the case of a replay file again
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT" || exit 2
./build.sh || exit 2
export VH_ROOT=$ROOT
if [ "${1:-}" = replay ]; then exec "$ROOT/target/debug/vh" replay "$2"; fi
exec "$ROOT/target/debug/vh" check "$1" "${2:-${VERIF_TIER:-quick}}"
