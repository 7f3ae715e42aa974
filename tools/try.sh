#!/bin/bash
# try.sh <patch> <check>... : applies a patch to /repo, runs checks, undoes it (development aid)
P="$1"; shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 9; }
git -C /repo apply $REV "$P" || { echo "$P: does not apply"; exit 8; }
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  o=$(timeout 900 /verif/check.sh $c 2>&1); rc=$?
  echo "$(basename $(dirname $P))/$(basename $P) $c rc=$rc $(echo "$o" | grep -v '^VIOLATION' | grep -v '^case' | tail -1 | cut -c1-200)"
done
