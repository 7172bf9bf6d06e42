#!/bin/bash
# Builds the engine and warms the Go build cache.
set -e
cd "$(dirname "$0")/.."
bash tools/build.sh
