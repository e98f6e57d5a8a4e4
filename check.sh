#!/bin/bash
# check.sh <property>: builds the checker and decides the property on /repo.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
go build -o bin/wbnfcheck ./cmd/wbnfcheck || exit 2
exec bin/wbnfcheck -prop "$1" -repo "${REPO:-/repo}"
