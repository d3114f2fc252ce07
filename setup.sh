#!/bin/bash
# Warms the Go build cache, so that the checks themselves build quickly.
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 1
trap 'rm -rf -- "$B"' EXIT
bash "$HERE/mc/build.sh" "$B"
