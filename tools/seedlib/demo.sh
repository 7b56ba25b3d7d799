#!/bin/bash
# Runs the demonstration against the module in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/*.go "$work"/
cat > "$work/go.mod" <<MOD
module demo

go 1.21.3

require github.com/jtcaraball/goexpdt v0.0.0

replace github.com/jtcaraball/goexpdt => $repo
MOD
cd "$work" || exit 2
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off
go build ${DEMO_BUILD_FLAGS:-} -o demo . || exit 2
timeout 200 ./demo
