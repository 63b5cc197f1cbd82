#!/bin/bash
# Builds the analyzer from the committed sources (offline, vendored dependencies).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
mkdir -p "$here/bin"
cd "$here/analyzer"
go build -o "$here/bin/analyzer.tmp.$$" .
mv "$here/bin/analyzer.tmp.$$" "$here/bin/analyzer"
