#!/bin/bash
# Builds the checker from the committed files, offline.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
exec go build -o bin/wbnfcheck ./cmd/wbnfcheck
