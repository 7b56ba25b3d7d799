#!/bin/bash
# Builds the harness once, with and without the race detector, so that later
# builds find the standard library in the build cache.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
[ -n "$HOME" ] || export HOME=/root
cd "$here/harness" || exit 1
bin="$(mktemp -d "${TMPDIR:-/tmp}/gxverif-setup-XXXXXX")" || exit 1
trap 'rm -rf "$bin"' EXIT
go vet ./... || exit 1
go test ./sat || exit 1
go build -o "$bin/a" . && go build -race -o "$bin/b" .
