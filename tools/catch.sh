#!/bin/bash
# catch.sh ID PROP... : applies a planted bug to /repo, runs the quick checks, and undoes it
id=$1; shift; P=/verif/seeded/$id/patch.diff
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply $P || exit 2
for p in "$@"; do (cd /verif && VERIF_TIER=quick python3 check.py $p quick > /tmp/catch.$id.$p 2>&1); rc=$?; echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/catch.$id.$p) $(grep -m1 -e '--- mismatch' /tmp/catch.$id.$p | cut -c1-300)"; [ $rc = 2 ] && tail -5 /tmp/catch.$id.$p; done
git -C /repo checkout -q -- .
