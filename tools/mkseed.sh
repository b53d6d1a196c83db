#!/bin/bash
# mkseed.sh ID PROPERTY: takes the edit made in /tmp/wt (a copy of /repo), stores the patch, runs the demonstration with and
# without it and the check of the property against the changed copy. seeded/ID/{demo.sh,meta.json} must exist.
set -u
id=$1 prop=$2 S=/verif/seeded/$1
git -C /tmp/wt diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
(cd /tmp/wt && timeout 300 bash $S/demo.sh > /tmp/demo_bug.log 2>&1); a=$?
git -C /tmp/wt stash -q
(cd /tmp/wt && timeout 300 bash $S/demo.sh > /tmp/demo_ok.log 2>&1); b=$?
git -C /tmp/wt stash pop -q
echo "demo: with=$a (want !=0) without=$b (want 0)"; [ $b = 0 ] || tail -5 /tmp/demo_ok.log; tail -2 /tmp/demo_bug.log
cd /verif && VERIF_REPO=/tmp/wt timeout 900 /opt/venv/bin/python checks/${prop,,}.py --tier quick --no-evidence | cut -c1-300 | head -14
