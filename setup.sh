#!/usr/bin/env bash
# Builds the monitors once, so that the build cache is warm and a broken setup shows up early.
set -eu
cd "$(dirname "$0")/harness"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1
go build -o /dev/null ./vmon
go test ./ref
go build -race -o /dev/null ./vmon
