#!/bin/bash
# scratch.sh REPO DIR: builds the checker in DIR against REPO (a copy of /repo) instead of /repo.
set -e
mkdir -p "$2/mcsrc"
cp -r "$(dirname "$0")/../../mc/." "$2/mcsrc/"
cp "$(dirname "$0")/../../known_findings.txt" "$2/" 2>/dev/null || true
sed -i "s#=> /repo#=> $1#" "$2/mcsrc/go.mod"
sed -i "s#const repoDir = \"/repo\"#const repoDir = \"$1\"#" "$2/mcsrc/props_bridge.go"
sed -i "s#\"/repo/#\"$1/#g" "$2/mcsrc/"*.go
bash "$2/mcsrc/build.sh" "$2/b"
