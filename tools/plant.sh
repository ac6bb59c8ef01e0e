#!/bin/bash
# plant.sh <id>: takes the change made in the scratch copy /tmp/plant/repo as seeded/<id>/patch.diff and confirms it (build, tests, demo).
# plant.sh --reset: fresh scratch copy
set -e
W=/tmp/plant/repo
if [ "$1" = --reset ]; then rm -rf /tmp/plant/repo; mkdir -p /tmp/plant; cp -a /repo $W; exit; fi
D=/verif/seeded/$1
git -C $W diff --quiet || git -C $W diff > $D/patch.diff
git -C $W checkout -q -- .
cp /verif/tools/demolib.mjs $D/lib.mjs
[ -f $D/demo.sh ] || printf '#!/bin/sh\nexec node "$(dirname "$0")/demo.mjs"\n' > $D/demo.sh
chmod +x $D/demo.sh
(cd $W && timeout 250 bash $D/demo.sh 2>&1 | grep -v "^{"; exit ${PIPESTATUS[0]}) || { echo "DEMO FAILS ON UNCHANGED TREE"; exit 1; }
git -C $W apply $D/patch.diff
rc=0; (cd $W && timeout 250 bash $D/demo.sh 2>&1 | grep -v "^{"; exit ${PIPESTATUS[0]}) || rc=$?
git -C $W checkout -q -- .
[ $rc != 0 ] || { echo "DEMO DOES NOT SEE THE CHANGE"; exit 1; }
echo "$1 planted"
