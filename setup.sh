#!/bin/bash
# builds the explorer once, so that the build cache is warm
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p build evidence
(cd mc && go build -o ../build/mc.setup ./cmd/mc) && rm -f build/mc.setup
