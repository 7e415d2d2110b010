#!/bin/bash
# tools/runbugs.sh [-p PROP] ID... : run each planted bug against its property's check (or PROP's),
# in a copy of /repo and /verif's working tree (RB_DIR, default /tmp/rb), so both can be edited
# meanwhile. RB_KEEP=1 uses the copy made before. The copies are left behind for RB_KEEP.
D=${RB_DIR:-/tmp/rb}
P=
if [ "$1" = -p ]; then P=$2; shift 2; fi
mkdir -p "$D/verif"
if [ -z "$RB_KEEP" ] || [ ! -d "$D/repo" ]; then
  rm -rf "$D/repo" && git clone -q /repo "$D/repo" && cp /repo/Cargo.lock "$D/repo/" 2>/dev/null
  rm -rf "$D/verif/harness" && cp -a /verif/harness /verif/check.sh /verif/known_findings.txt "$D/verif/"
  cp -a /verif/tools /verif/MANIFEST.json /verif/properties.jsonl "$D/verif/"
  [ -d "$D/verif/target" ] || cp -a /verif/target "$D/verif/target"
  sed -i "s|\"/repo\"|\"$D/repo\"|" "$D/verif/harness/Cargo.toml"
fi
for id in "$@"; do
  d=/verif/seeded/$id
  if [ "$id" = none ]; then p=$P; else
    p=${P:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
    git -C "$D/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  fi
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 "$D/verif/check.sh" "$p" >"$D/out" 2>&1; rc=$?
  git -C "$D/repo" checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' "$D/out") $(grep -m1 '^VIOLATION' "$D/out")"
  [ $rc = 1 ] || { echo "   --- not caught"; tail -5 "$D/out" | cut -c1-400; }
done
