#!/bin/bash
# check.sh ID            builds the framework against /repo's working tree and runs the check of one property
# check.sh replay FILE   replays a recorded violation
# check.sh case ID TIER INDEX   runs a single case verbosely
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GOFLAGS="-mod=mod"
export HOME=${HOME:-/root}
export MC_ROOT="$ROOT" MC_KNOWN="$ROOT/known_findings.jsonl"
OUT=$(mktemp -d "${TMPDIR:-/tmp}/mcbuild_XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
ID="$1"; shift || true
TARGET="$ID"
[ "$ID" = replay ] && TARGET=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$1" | head -1)
[ "$ID" = case ] && TARGET="$1"
cd "$ROOT/mc" || exit 2
build() { go build "$@" >"$OUT/build.log" 2>&1 || { echo "build failed:"; cat "$OUT/build.log"; exit 2; }; }
case "$TARGET" in
  C29|C30|C31|C32)
    # under the controlled scheduler, with the race detector
    build -o "$OUT/mkoverlay" ./cmd/mkoverlay
    # the hash code that a string caches isn't part of any protocol: its atomics are scheduling points in C32 only
    KEEP=internal/string.go:sync/atomic; [ "$TARGET" = C32 ] && KEEP=
    "$OUT/mkoverlay" /repo "$OUT" $KEEP || exit 2
    export GOMAXPROCS=1
    build -race -overlay "$OUT/overlay.json" -o "$OUT/mc" ./cmd/mcrace
    export GORACE="exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 log_path=$OUT/race"
    ;;
  *) build -o "$OUT/mc" ./cmd/mc ;;
esac
BIN="$OUT/mc"
case "$ID" in
  replay) "$BIN" replay "$1" ;;
  case) "$BIN" case "$@" ;;
  *) "$BIN" run "$ID" "$@" ;;
esac
exit $?
