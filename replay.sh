#!/bin/bash
# Usage: replay.sh REPLAY.json: runs the one execution of a replay file again.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
FILE=$(realpath "$1")
. "$VERIF/env.sh"
OUT=$(mktemp -d /tmp/birchmon.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
cd "$VERIF/harness" || exit 2
FLAGS=()
grep -q '"race": true' "$FILE" && FLAGS=(-race)
go build "${FLAGS[@]}" -o "$OUT/birchmon" ./birchmon || exit 2
GORACE="halt_on_error=1 exitcode=66" "$OUT/birchmon" -replay "$FILE" -verif "$VERIF"
