#!/bin/bash
# tryseed.sh [ID...]: run the check of each planted bug against it, in a scratch copy.
cd "$(dirname "$0")/.." || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
	t=$(mktemp -d /tmp/tryseed-XXXXXX)
	cp -a /repo/. "$t"
	if ! git -C "$t" apply "$PWD/seeded/$s/patch.diff"; then echo "$s: patch does not apply"; rm -rf "$t"; continue; fi
	b=$(date +%s)
	out=$(REPO_DIR=$t timeout 900 bash check.sh "$p" quick 2>&1); rc=$?
	e=$(date +%s)
	if [ $rc = 1 ]; then echo "$s $p: caught in $((e-b)) s: $(echo "$out" | sed -n 2p | cut -c1-150)"; else echo "$s $p: MISSED rc=$rc"; fi
	rm -rf "$t"
done
