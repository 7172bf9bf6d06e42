#!/bin/bash
# Builds the engine into bin/ (ignored by git) and prints its path; rebuilt when a source is newer.
cd "$(dirname "$0")/../gosym" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
out=../bin/gosym
if [ ! -x "$out" ] || [ -n "$(find . -newer "$out" -name '*.go' -o -newer "$out" -name 'go.*' | head -1)" ]; then
  mkdir -p ../bin
  go build -o "$out.$$" . >&2 && mv "$out.$$" "$out" || exit 1
fi
readlink -f "$out"
