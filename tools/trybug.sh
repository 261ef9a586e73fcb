#!/bin/bash
# trybug.sh ID...: applies seeded changes to /repo one at a time, runs the check
# of their property, and undoes them.
cd /verif || exit 2
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	s=$(date +%s)
	out=$(./check.sh "$p" quick 2>&1)
	rc=$?
	git -C /repo checkout -- .
	echo "$id $p rc=$rc $(($(date +%s) - s))s: $(echo "$out" | grep -A1 -m1 VIOLATION | tail -1 | cut -c1-300)"
	[ $rc = 1 ] || echo "$out" | tail -3
done
