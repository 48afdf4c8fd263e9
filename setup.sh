#!/bin/bash
# Fills the Go build cache, so that the checks start quickly.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null || export GOPROXY=off GOTOOLCHAIN=local
export GOFLAGS=-mod=mod
mkdir -p out/bin evidence
cd mc && go build -o ../out/bin/setup-check ./cmd/check && rm -f ../out/bin/setup-check && go build -race -o ../out/bin/setup-check ./cmd/check && rm -f ../out/bin/setup-check
