#!/bin/bash
# try.sh ID [PROP]: runs the check of a planted bug's property against /repo with the bug applied.
i=$1
p=${2:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$i/meta.json)}
git -C /repo apply /verif/seeded/$i/patch.diff || exit 2
( cd /verif; VERIF_SEED=${SEED:-1} timeout 900 python3 run.py $p quick > /tmp/try.$i.$p 2>&1; rc=$?; if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/try.$i.$p; then echo "$i $p CAUGHT $(grep -h 'violation found in phase' /tmp/try.$i.$p | cut -c1-200)"; else echo "$i $p MISSED rc=$rc"; fi )
git -C /repo checkout -q -- .
rm -f /verif/replays/$p-*
