#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds the monitors with the code of /repo's working tree and runs the
# property's workloads. Exit 0: held. Exit 1 and a VIOLATION line: broken.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
. "$VERIF/env.sh"
OUT=$(mktemp -d /tmp/birchmon.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
cd "$VERIF/harness" || exit 2
go build -o "$OUT/birchmon" ./birchmon || exit 2
RACE=()
if [ "$("$OUT/birchmon" -prop "$PROP" -needs-race)" = race ]; then
	CGO_ENABLED=1 go build -race -o "$OUT/birchmon-race" ./birchmon || exit 2
	RACE=(-racebin "$OUT/birchmon-race")
fi
"$OUT/birchmon" -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$VERIF" "${RACE[@]}"
