#!/bin/bash
# Development aid: trymut.sh 'IDs' FILE 'perl -0pe script' -- run checks on a
# scratch copy of /repo with one change made.
d=$(mktemp -d /tmp/mut-XXXXXX); trap 'rm -rf "$d"' EXIT
cp -a /repo/. "$d/"
perl -0pi -e "$3" "$d/$2"
if (cd "$d" && git diff --quiet); then echo "NO CHANGE"; exit 3; fi
(cd "$d" && git diff -U0 | grep '^[-+][^-+]' | head -${DIFFN:-8})
for id in $1; do
	REPO_DIR=$d timeout ${TMO:-300} bash "$(dirname "$0")/../check.sh" $id ${TIER:-quick} > "$d/out.$id" 2>&1
	echo "$id exit $? $(grep -m1 -A1 VIOLATION "$d/out.$id" | tail -1 | cut -c1-220)"
	[ -n "$VERB" ] && tail -5 "$d/out.$id"
done
