#!/bin/bash
# tryoverlay.sh PATCH [PROPERTY...]: runs checks against /repo's HEAD with a
# patch applied, through a build overlay (neither /repo nor /verif is changed).
# Prints one line per check.
verif="${VERIF_COPY:-$(cd "$(dirname "$0")/.." && pwd)}"
patch="$(realpath "$1")"; shift
props=("$@"); [ $# -gt 0 ] || props=($(seq -f 'C%02.0f' 1 25))
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
t="$(mktemp -d /tmp/tryov-XXXXXX)"; trap 'rm -rf "$t"' EXIT
git clone -q /repo "$t/repo" && git -C "$t/repo" apply "$patch" || { echo "does not apply"; exit 2; }
(cd "$t/repo" && GOFLAGS= go build ./cnf/... ./compute/... ./query/... ) || { echo "does not build"; exit 2; }
python3 - "$t" "$verif" <<'E'
import json,subprocess,sys
t,verif=sys.argv[1:]
fs=subprocess.run(["git","-C",t+"/repo","ls-files","-m","-o"],capture_output=True,text=True).stdout.split()
r={"/repo/"+f:t+"/repo/"+f for f in fs}
json.dump({"Replace":r},open(t+"/ov.json","w"))
r=dict(r); r["/repo/examples/zz_verif_test.go"]=verif+"/examples/zz_verif_test.go"
json.dump({"Replace":r},open(t+"/ovx.json","w"))
# the stable tests, in the scratch clone
o=subprocess.run(["go","test","-json","-vet=off","-count=1","./..."],cwd=t+"/repo",capture_output=True,text=True).stdout
ok=set()
for l in o.splitlines():
    try: d=json.loads(l)
    except ValueError: continue
    if d.get("Action")=="pass" and "Test" in d: ok.add(d["Package"]+"/"+d["Test"])
bad=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])-ok
print("stable tests:", "pass" if not bad else "FAIL %s"%sorted(bad)[:3])
E
cd "$verif/harness" && go build -overlay "$t/ov.json" -o "$t/h" . && go build -race -overlay "$t/ov.json" -o "$t/hr" . || exit 2
(cd /repo && GOFLAGS= go test -c -vet=off -overlay "$t/ovx.json" -o "$t/ex" ./examples) || exit 2
mkdir "$t/evidence"
for p in "${props[@]}"; do
	b="$t/h"; [ "$p" = C20 ] && b="$t/hr"
	s=$(date +%s)
	out=$(cd "$t" && GX_EXAMPLES_BIN="$t/ex" VERIF_DIR="$t" timeout 900 "$b" -prop "$p" -tier "${TIER:-quick}" -seed "${VERIF_SEED:-1}" -out "$t/evidence/$p.json" 2>&1); rc=$?
	echo "$(basename "$(dirname "$patch")")/$(basename "$patch") $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-120)"
	[ -n "${SHOW:-}" ] && [ $rc != 0 ] && echo "$out" | tail -20
done
