#!/bin/bash
# Compiles the harness once in every variant so that the build cache is warm.
set -eu
cd "$(dirname "$0")/harness"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
go build -o /dev/null ./cmd/vh
go build -o /dev/null ./cmd/yieldgen
go build -race -o /dev/null ./cmd/vh || true
GOARCH=386 CGO_ENABLED=0 go build -o /dev/null ./cmd/vh || true
