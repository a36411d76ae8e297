#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. lib/env.sh
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
work=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 2
chmod 755 "$work"
trap 'chmod -R u+w "$work" 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
(cd harness && go build -o "$work/harness" .) || { echo "cannot build the harness" >&2; exit 2; }
kinds=$("$work/harness" kinds "$id") || exit 2
bash lib/build.sh "$work/bin" $kinds || { echo "cannot build sinksmtp" >&2; exit 2; }
mkdir "$work/run"
"$work/harness" run "$id" "$work/bin" "$work/run"
