#!/bin/bash
# Builds the checker once (fills the build cache, shows build errors early).
set -eu
cd "$(dirname "$0")/mc"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
go build -o /dev/null ./...

