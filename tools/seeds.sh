#!/bin/bash
# seeds.sh [ID...]: applies each planted bug to /repo, runs the check of its property, undoes it.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: doesn't apply"; continue; }
	s=$SECONDS
	bash run.sh check "$p" quick > "/tmp/seed-$id.log" 2>&1
	rc=$?
	git -C /repo checkout -q -- .
	echo "$id $p rc=$rc $((SECONDS-s))s $(grep -c '^VIOLATION' "/tmp/seed-$id.log") $(grep '^VIOLATION' "/tmp/seed-$id.log" | sed 's/.*# //' | cut -c1-60 | sort -u | head -3 | tr '\n' ';')"
done
