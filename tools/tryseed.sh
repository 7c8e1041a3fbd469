#!/bin/bash
# bash tools/tryseed.sh ID...: applies each planted bug to /repo, runs the quick check of its property, undoes it.
for id in "$@"; do
	d=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo apply $d/patch.diff || continue
	s=$(date +%s)
	bash /verif/run.sh $p ${TIER:-quick} > /tmp/try.$id.log 2>&1; rc=$?
	git -C /repo checkout -q -- .
	echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -c VIOLATION /tmp/try.$id.log) $(grep -A1 'is violated' /tmp/try.$id.log | head -2 | tr '\n' ' ' | cut -c1-200)"
done
