#!/bin/bash
# Warms the build cache: the checks build what they need themselves.
set -eu
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
cd "$VERIF/harness"
go build -o /dev/null ./birchmon
CGO_ENABLED=1 go build -race -o /dev/null ./birchmon
