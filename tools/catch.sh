#!/bin/sh
# tools/catch.sh [check or -] ids...: apply each planted bug to a scratch clone
# of /repo and run its property's check against the clone (MULTISIM_REPO).
here=$(cd "$(dirname "$0")/.." && pwd)
chk=$1; shift
for id in "$@"; do
  d=$(mktemp -d /tmp/catch.XXXXXX)
  git clone -q /repo "$d/repo" && git -C "$d/repo" apply "$here/seeded/$id/patch.diff" || echo "APPLY FAILED $id"
  p=$chk; [ "$p" = - ] && p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  cp -a "$here/evidence" "$d/ev" 2>/dev/null
  MULTISIM_REPO="$d/repo" "$here/run" "$p" quick > "$d/log" 2>&1
  echo "$id $p exit=$? $(grep -c VIOLATION "$d/log") $(grep -m1 '^   \[' "$d/log" | cut -c1-160)"
  rm -rf "$d"
done
