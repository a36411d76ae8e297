#!/bin/bash
# quiet.sh TIER SEED...: run every check on the current tree with each seed; prints what is not quiet.
cd "$(dirname "$0")/.." || exit 2
tier=$1; shift
for s in "$@"; do
	for c in $(seq -f 'C%02g' 1 21); do
		b=$(date +%s)
		out=$(VERIF_SEED=$s timeout 7200 bash check.sh $c "$tier" 2>&1); rc=$?
		e=$(date +%s)
		echo "$c $tier seed=$s rc=$rc $((e-b)) s: $(echo "$out" | tail -1 | cut -c1-200)"
		[ $rc = 0 ] || echo "$out" | head -20 | cut -c1-400
	done
done
