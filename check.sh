#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the engine from the committed sources (cached by the Go build cache or bin/) and decides one property on /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin=$(bash tools/build.sh) || { echo "engine build failed" >&2; exit 2; }
tier="${2:-${VERIF_TIER:-quick}}"
exec "$bin" check -verif "$PWD" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "$tier"
