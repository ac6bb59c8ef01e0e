#!/bin/bash
# catch.sh <id>...: runs the check of each planted change's property against a scratch copy with the change
for id in "$@"; do
  W=/tmp/catch.$id; rm -rf /tmp/catch.$id; cp -a /repo $W
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf /tmp/catch.$id; continue; }
  p=$(node -p "require('/verif/seeded/$id/meta.json').property")
  out=$(cd /verif && VERIF_REPO=$W timeout 900 node sim/runner.mjs $p --tier quick --seed 1 2>&1 | grep -v "^WARNING" | tail -4)
  echo "== $id ($p): $(echo "$out" | grep -c "^VIOLATION property=$p") "; echo "$out" | cut -c1-300
  rm -rf /tmp/catch.$id
done
