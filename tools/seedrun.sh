#!/bin/bash
# dev helper: tools/seedrun.sh SEED...  runs the check of each seed's property on a scratch copy with the patch
cd "$(dirname "$0")/.."
for s in "$@"; do
  d=$(ls -d seeded/$s* | head -1)
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedrun.XXXXXX)
  git clone -q /repo $w/r && git -C $w/r apply $PWD/$d/patch.diff
  echo "== $d"; KWSV_REPO=$w/r ./check.sh ${P:-$p} quick 2>&1 | cut -c1-300 | grep -v "^ " | tail -${N:-3}
  rm -rf "$w"
done
