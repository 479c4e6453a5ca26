#!/bin/bash
# catch.sh [ID...]: runs the quick check of each planted bug's property against a patched copy of /repo.
cd /verif
for id in ${@:-$(ls seeded)}; do
	prop=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
	W=$(mktemp -d /tmp/catch.XXXXXX)
	cp -a /repo "$W/repo" && git -C "$W/repo" apply "/verif/seeded/$id/patch.diff" || echo "$id: patch does not apply"
	s=$(date +%s)
	VERIF_REPO="$W/repo" bin/check "$prop" ${TIER:-quick} > "$W/out" 2> "$W/err"; rc=$?
	echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "$W/out" | sed 's/replay=.*replays/…/' | cut -c1-80) $(grep -v VIOLATION "$W/out" | head -2 | cut -c1-200 | tr '\n' ' ') $([ $rc = 2 ] && tail -3 "$W/err" | cut -c1-300)"
	rm -rf "$W"
done
