#!/bin/bash
# check.sh ID [quick|thorough] - decides one property on /repo's working tree.
ID=${1:?usage: check.sh ID [tier]}
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
trap 'rm -rf -- "$B"' EXIT
export HOME=${HOME:-/root}
bash "$HERE/mc/build.sh" "$B" >"$B/log" 2>&1 || { cat "$B/log" >&2; exit 2; }
"$B/mc" check "$ID" "$TIER" "$HERE"
