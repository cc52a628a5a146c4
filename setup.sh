#!/bin/bash
# Builds the analyzer from the committed sources (offline, vendored dependencies).
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=vendor GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
export GOCACHE="${VERIF_GOCACHE:-$PWD/../.build/gocache}"
mkdir -p ../.build/bin "$GOCACHE"
go build -o ../.build/bin/vthrift .
