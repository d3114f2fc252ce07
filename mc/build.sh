#!/bin/bash
# build.sh OUT - builds the model checker against /repo's working tree, with the map-order overlay.
set -u
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:?usage: build.sh OUT_DIR}
mkdir -p "$OUT/ov" || exit 2
G=$(go env GOROOT)/src/internal/runtime/maps
sed -e 's/it.entryOffset = rand()/it.entryOffset = verifOffset(m)/' \
    -e 's/it.dirOffset = rand()/it.dirOffset = verifDir()/' \
    -e 's/k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots/k := verifSlot(it.entryIdx, it.entryOffset)/' \
    "$G/table.go" > "$OUT/ov/table.go" || exit 2
sed -e 's/m.seed = uintptr(rand())/m.seed = verifSeed()/' "$G/map.go" > "$OUT/ov/map.go" || exit 2
[ "$(grep -c verifOffset "$OUT/ov/table.go")$(grep -c verifSlot "$OUT/ov/table.go")" = 11 ] || { echo "map overlay does not fit this Go version" >&2; exit 2; }
cp "$HERE/overlay/verif.go.txt" "$OUT/ov/verif.go" || exit 2
cp "$HERE/overlay/runtime.go.txt" "$OUT/ov/runtime.go" || exit 2
R=$(go env GOROOT)/src/runtime
cat > "$OUT/ov/overlay.json" <<J
{"Replace": {"$R/verif.go": "$OUT/ov/runtime.go", "$G/table.go": "$OUT/ov/table.go", "$G/map.go": "$OUT/ov/map.go", "$G/verif.go": "$OUT/ov/verif.go"}}
J
# Build from a private copy so that -mod=mod never rewrites committed files.
mkdir -p "$OUT/src" && cp -r "$HERE"/*.go "$HERE"/*.js "$HERE"/overlay "$HERE"/go.mod "$HERE"/go.sum "$OUT/src/" || exit 2
cd "$OUT/src" || exit 2
go build -tags verif -overlay "$OUT/ov/overlay.json" -o "$OUT/mc" . && exit 0
# The hooks no longer fit the tree: everything that does not need them still runs.
echo "building without the verif hooks" >&2
go build -overlay "$OUT/ov/overlay.json" -o "$OUT/mc" . || exit 2
