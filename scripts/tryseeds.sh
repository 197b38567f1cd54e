#!/bin/bash
# run the check of each planted bug's property against a scratch copy with the bug: tryseeds.sh [id...]
here=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$here/seeded"))
for id in "${ids[@]}"; do
  d=$here/seeded/$id; [ -f "$d/patch.diff" ] || continue
  w=$(mktemp -d /tmp/ts.XXXXXX)
  git clone -q /repo "$w/repo" && git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  mkdir "$w/verif" && cp -r "$here"/{tool,contracts,scripts,replay,properties.jsonl} "$w/verif/"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s)
  XV_REPO=$w/repo VERIF_SEED=1 bash "$w/verif/scripts/check.sh" "$p" > "$w/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s: $(grep -c 'not discharged' "$w/out") $(grep VIOLATION "$w/out" | sed 's/replay=[^ ]*//') | $(grep 'not discharged' "$w/out" | head -1 | cut -c1-140) | $(grep 'failing execution' "$w/out" | tail -c 120)"
  rm -rf "$w"
done
