#!/bin/bash
# seeds.sh [ID...]: runs the check of each planted bug against it in a scratch copy of /repo.
cd /verif/seeded
for id in ${*:-$(ls)}; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	w=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$w/r"
	(cd $w/r && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || echo "does not apply"
	s=$(date +%s)
	VERIF_REPO=$w/r /verif/check $p ${TIER:-quick} >"/tmp/seed-$id.log" 2>&1; rc=$?
	echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seed-$id.log | cut -c1-150)"
	rm -rf "$w"
done
