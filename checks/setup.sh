#!/bin/bash
# builds the analyser from the committed sources, offline
set -e
. "$(dirname "$0")/env.sh"
build_sa
mkdir -p "$ROOT/evidence" "$ROOT/replay"
