#!/bin/bash
# warms the build cache
cd "$(dirname "$0")/mc" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
go build -o /dev/null ./cmd/mc || exit 1
OUT=$(mktemp -d "${TMPDIR:-/tmp}/mcsetup_XXXXXX") || exit 1
trap 'rm -rf "$OUT"' EXIT
go build -o "$OUT/mkoverlay" ./cmd/mkoverlay && "$OUT/mkoverlay" /repo "$OUT" && go build -race -overlay "$OUT/overlay.json" -o /dev/null ./cmd/mcrace
