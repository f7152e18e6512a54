#!/bin/bash
# usage: seed.sh <seeded id>... : confirms a planted change in a scratch copy of /repo and runs its property's check there
cd "$(dirname "$0")/.."
for id in "$@"; do
	s=$PWD/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	w=$(mktemp -d /tmp/seed-XXXXXX)
	git -C /repo archive HEAD | tar x -C "$w"
	log=$w.log
	(
		cd "$w" || exit 9
		timeout 300 bash "$s/demo.sh" >$log.d0 2>&1 || { echo "$id: DEMO FAILS UNCHANGED"; tail -5 $log.d0; exit 1; }
		git init -q . && git apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
		go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
		go test ./... >$log.t 2>&1 || { echo "$id: TESTS FAIL"; grep -a FAIL $log.t; exit 1; }
		if timeout 300 bash "$s/demo.sh" >$log.d1 2>&1; then echo "$id: DEMO PASSES PATCHED"; exit 1; fi
		echo "$id: ok, demo: $(grep -a -m1 -E 'BROKEN|panic|setup' $log.d1)"
	)
	if [ $? = 0 ] && [ -z "$NOCHECK" ]; then
		mkdir -p "$w.evid"
		b=$(date +%s)
		GOSYM_REPO=$w GOSYM_EVID=$w.evid timeout 900 ./bin/gosym check $prop ${TIER:-quick} >$log.c 2>&1
		rc=$?
		echo "$id: check $prop rc=$rc $(($(date +%s) - b))s $(grep -a -m1 '^VIOLATION' $log.c) $(grep -a -m1 -A1 '^VIOLATION' $log.c | tail -1 | cut -c1-200)"
		cp $log.c /tmp/seed-$id.out
	fi
	rm -rf "$w" "$w.evid" $log.*
done
