#!/bin/bash
# run.sh ID TIER: decides one property on /repo's working tree
. "$(dirname "$0")/env.sh"
build_sa || exit 2
mkdir -p "$ROOT/evidence" "$ROOT/replay"
SA_ROOT="$ROOT" exec "$ROOT/build/sa" check "$1" "${2:-quick}"
