#!/bin/bash
# trycopy.sh <seeded id | patch>[:Cxx,...]... : like tryall.sh, but on copies of /repo and /verif (development aid)
W="${W:-/tmp/tc}"
mkdir -p "$W/repo" "$W/verif"
sync_all() {
  rsync -a --delete --checksum --exclude target --exclude .git /repo/ "$W/repo/"
  rsync -a --delete --checksum --exclude target --exclude .git --exclude evidence --exclude replays /verif/ "$W/verif/"
  sed -i "s#\"/repo/#\"$W/repo/#" "$W/verif/harness/Cargo.toml"
  sed -i "s#/verif/harness#$W/verif/harness#" "$W/verif/harness/root.rs"
}
export FIX_RS_REPO="$W/repo" FIX_RS_TARGET="$W/vt"
for a in "$@"; do
  i="${a%%:*}"; c="${a#*:}"; [ "$c" = "$a" ] && c=""
  p="$i"; [ -f "$p" ] || p="/verif/seeded/$i/patch.diff"
  [ -z "$c" ] && c=$(python3 -c "import json;print(json.load(open('$(dirname $p)/meta.json'))['property'])")
  sync_all
  (cd "$W/repo" && git apply --unsafe-paths --directory="" "$p" 2>/dev/null || patch -s -p1 <"$p") || { echo "$i: does not apply"; continue; }
  for x in ${c//,/ }; do
    o=$(cd "$W/verif" && timeout 900 ./check.sh $x 2>&1); rc=$?
    echo "$i $x rc=$rc $(echo "$o" | grep -v '^VIOLATION' | grep -v '^case' | tail -1 | cut -c1-200)"
  done
done
