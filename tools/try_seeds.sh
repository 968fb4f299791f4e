#!/bin/bash
# tools/try_seeds.sh [ID...]: runs the matching check against each planted
# change, in a scratch copy of /repo, and prints what it reported.
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  w=$(mktemp -d /tmp/tryseed.XXXXXX)
  cp -a /repo "$w/repo"
  if ! git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$w"; continue; fi
  t0=$(date +%s)
  out=$(VERIF_REPO="$w/repo" timeout 900 ./check "${CHECK:-$prop}" 2>&1); rc=$?
  echo "$id ${CHECK:-$prop} rc=$rc $(( $(date +%s)-t0 ))s $(grep -c '^VIOLATION' <<<"$out") violations: $(grep -m1 '^VIOLATION' <<<"$out")"
  [ $rc -eq 1 ] || tail -3 <<<"$out"
  rm -rf "$w"
done
