#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the harness against /repo's working
# tree and runs the monitors of one property. Exit 0: held; 1: VIOLATION
# printed; anything else: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
unset GOROOT GODEBUG GOMAXPROCS
[ -n "$HOME" ] || export HOME=/root
bin="$(mktemp -d "${TMPDIR:-/tmp}/gxverif-bin-XXXXXX")" || exit 2
trap 'rm -rf "$bin"' EXIT
race=""
[ "$prop" = C20 ] && race="-race"
cd "$here/harness" || exit 2
if ! go build $race -o "$bin/verifharness" . 2>"$bin/log"; then
	echo "the harness does not build against /repo:" >&2
	cat "$bin/log" >&2
	exit 2
fi
if [ "$prop" = C25 ]; then
	# the example programs, with an entry point added by an overlay
	repo="${REPO_DIR:-/repo}"
	printf '{"Replace": {"%s/examples/zz_verif_test.go": "%s/examples/zz_verif_test.go"}}' "$repo" "$here" >"$bin/overlay.json"
	if ! (cd "$repo" && go test -c -vet=off -overlay "$bin/overlay.json" -o "$bin/examples.bin" ./examples) >"$bin/log" 2>&1; then
		echo "the examples do not build:" >&2
		cat "$bin/log" >&2
		exit 2
	fi
	export GX_EXAMPLES_BIN="$bin/examples.bin"
fi
cd "$here" || exit 2
VERIF_DIR="$here" "$bin/verifharness" -prop "$prop" -tier "$tier" -seed "$seed" -out "$here/evidence/$prop.json"
exit $?
