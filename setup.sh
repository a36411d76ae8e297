#!/bin/bash
# Build the harness once, to fill the build cache and find problems early.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. lib/env.sh
work=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
(cd harness && go build -o "$work/harness" .) || exit 2
bash lib/build.sh "$work/bin" plain race clock
