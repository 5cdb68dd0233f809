#!/bin/bash
# Runs the check of each planted bug (all, or those named) with it applied to
# /repo, and notes which entry reports it in tools/caught.json.
cd "$(dirname "$0")/.." || exit 1
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAIL"; continue; }
  t0=$(date +%s)
  out=$(python3 check.py "$p" --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  e=$(grep -m1 '^VIOLATION' <<< "$out" | sed 's/.*replays.C[0-9]*-//; s/-[0-9a-f]*\.json.*//')
  [ $rc = 1 ] && [ -n "$e" ] || e="(missed)"
  python3 - "$id" "\`$e\`" <<'P'
import json,sys,os
f="tools/caught.json"
d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=sys.argv[2]
json.dump(d,open(f,"w"),indent=1,sort_keys=True)
P
  echo "$id $p rc=$rc $(($(date +%s)-t0))s $e"
done
