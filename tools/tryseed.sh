#!/bin/bash
# tryseed.sh ID...: run the quick check of the property of each planted bug (or CHECK=...) on a copy of /repo with the bug.
verif=/verif
for id in "$@"; do
	dir=${DIR:-$verif/seeded}/$id
	p=${CHECK:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}
	tmp=$(mktemp -d /tmp/try-XXXXXX)
	git clone -q /repo "$tmp/repo" && mkdir "$tmp/verif" && cp -a "$verif/check.sh" "$verif/mc" "$verif"/*.txt "$verif"/*.jsonl "$tmp/verif/"
	sed -i "s#repo     = \"/repo\"#repo     = \"$tmp/repo\"#" "$tmp/verif/mc/drive/main.go"
	git -C "$tmp/repo" apply "$dir/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$tmp"; continue; }
	s=$(date +%s)
	(cd "$tmp/verif" && timeout 900 ./check.sh "$p" "${TIER:-quick}") > "/tmp/try-$id.log" 2>&1; rc=$?
	rm -rf "$tmp"
	v=$(grep -c "VIOLATION property=$p" "/tmp/try-$id.log")
	if [ $rc = 1 ] && [ "$v" -gt 0 ]; then r=caught; else r="MISSED (exit $rc)"; fi
	echo "$id $p $r $(($(date +%s)-s))s: $(grep -m1 -A1 ': \(result\|race\|panic\|deadlock\|.*\): ' "/tmp/try-$id.log" | head -1 | cut -c1-200)"
done
