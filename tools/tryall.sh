#!/bin/bash
# tryall.sh [seeded id]... : each planted bug against the check of its property (development aid)
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for i in "$@"; do
  c=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  tools/try.sh "$PWD/seeded/$i/patch.diff" $c
done
