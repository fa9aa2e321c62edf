#!/bin/bash
# detect.sh [ID...]: runs the check of each planted bug's property on a scratch copy with the patch applied
. "$(dirname "$0")/../checks/env.sh"
build_sa || exit 2
out="$(mktemp -d)"
for d in "$ROOT"/seeded/*/; do
  id="$(basename "$d")"
  if [ $# -gt 0 ] && [[ " $* " != *" $id "* ]]; then continue; fi
  prop="$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")"
  cp -a /repo "$out/repo"
  (cd "$out/repo" && git apply "$d/patch.diff") || echo "$id does not apply"
  mkdir -p "$out/v"
  SA_ROOT="$out/v" SA_REPO="$out/repo" "$ROOT/build/sa" check "$prop" quick > "$out/log" 2>&1
  rc=$?
  if grep -q "VIOLATION property=$prop" "$out/log" && [ $rc = 1 ]; then echo "$id $prop caught: $(grep -v VIOLATION "$out/log" | head -1 | cut -c1-220)"; else echo "$id $prop MISSED rc=$rc"; fi
  rm -rf "$out/repo"
done
rm -rf "$out"
