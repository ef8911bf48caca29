#!/bin/bash
# trybug.sh ID... : runs the check of each planted bug's property against a scratch copy carrying the bug
V="$(cd "$(dirname "$0")/.." && pwd)"
one() {
  b=$1; w=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
  git -C "$w/repo" apply "$V/seeded/$b/patch.diff" || echo "$b PATCH DOES NOT APPLY"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")
  t0=$(date +%s)
  VERIF_REPO="$w/repo" "$V/check" "${2:-$p}" > "$w/out" 2>&1; rc=$?
  echo "$b rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION "$w/out" | grep -o 'no-failing-input-found')"
  [ -n "$VERBOSE" ] && grep -E "obligation failed|FAILING" -A1 "$w/out" | cut -c1-200 | head -12
  rm -rf "$w"
}
for b in "$@"; do one "$b"; done
