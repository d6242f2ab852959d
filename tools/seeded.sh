#!/bin/bash
# usage: tools/seeded.sh [ID...]: runs the check of each planted bug on a copy
# of /repo with the bug, and prints which are caught.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	T=$(mktemp -d /tmp/seeded.XXXXXX) || exit 2
	cp -a /repo "$T/repo"
	if git -C "$T/repo" apply "$PWD/seeded/$id/patch.diff"; then
		out=$(VERIF_REPO=$T/repo ./check.sh "$p" 2>/dev/null)
		rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "caught $id"; else echo "MISSED $id ($p, exit $rc)"; fi
	else
		echo "STALE $id"
	fi
	rm -rf "$T"
done
