#!/usr/bin/env python3
"""sweep.py OUT.jsonl [WORKERS [LIMIT [FILE-SUBSTRING]]]: applies the changes
listed by mutants.go one at a time (through a build overlay: /repo is not
touched), keeps those that build and pass the stable tests, and runs the checks
on each until one reports a violation. Writes one line per change."""
import json, os, random, subprocess, sys, tempfile, shutil, threading, time
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
out = sys.argv[1]
workers = int(sys.argv[2]) if len(sys.argv) > 2 else 4
limit = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
sub = sys.argv[4] if len(sys.argv) > 4 else ""
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOMAXPROCS="4")
henv = dict(env, GOFLAGS="-mod=mod")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lines = subprocess.run(["go", "run", os.path.join(here, "mutants.go"), "/repo"], capture_output=True, text=True, env=env, check=True).stdout.splitlines()
muts = [json.loads(l) for l in lines]
muts = [m for m in muts if sub in m["file"]]
for i, m in enumerate(muts): m["key"] = "%s:%d:%d:%s" % (m["file"][6:], m["Off"], m["End"], m["Repl"])
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)["key"])
random.Random(int(os.environ.get("SWEEP_SEED", "1"))).shuffle(muts)
muts = [m for m in muts if m["key"] not in done][:limit]
ALL = ["C%02d" % i for i in range(1, 26) if i not in (20, 23)] + ["C23"]
PRIM = [("predicates/", ["C01", "C21", "C07", "C22", "C12"]), ("leh/", ["C03", "C21", "C07", "C22"]),
        ("hepr/", ["C03", "C21", "C07", "C22"]), ("extensions/", ["C02", "C21", "C07", "C22", "C12"]),
        ("forallguarded", ["C05", "C06", "C19", "C21", "C04", "C11", "C17", "C22"]),
        ("logop/", ["C04", "C06", "C05", "C21", "C09", "C22"]),
        ("cnf/", ["C08", "C09", "C10", "C04", "C22", "C15"]),
        ("compute/", ["C11", "C12", "C14", "C15", "C16", "C13", "C21", "C17", "C25"]),
        ("query/", ["C18", "C19", "C24", "C17", "C05", "C21", "C06"]), ("examples/", ["C25"])]
lock = threading.Lock()

def stable_ok(ov):
    r = subprocess.run(["go", "test", "-overlay", ov, "-json", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd="/repo", env=dict(env, GOFLAGS=""), capture_output=True, text=True)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and "Test" in d: ok.add(d["Package"] + "/" + d["Test"])
    return stable <= ok

def run(m):
    d = tempfile.mkdtemp(prefix="mut-", dir=os.environ.get("SWEEP_TMP", "/tmp"))
    try:
        src = open(m["file"], "rb").read()
        new = src[:m["Off"]] + m["Repl"].encode() + src[m["End"]:]
        f = os.path.join(d, "m.go"); open(f, "wb").write(new)
        ov = os.path.join(d, "ov.json"); json.dump({"Replace": {m["file"]: f}}, open(ov, "w"))
        if subprocess.run(["go", "build", "-overlay", ov, "./cnf/...", "./compute/...", "./query/..."], cwd="/repo", env=dict(env, GOFLAGS=""), capture_output=True).returncode: return "nobuild"
        if not stable_ok(ov): return "tests"
        hb = os.path.join(d, "h")
        if subprocess.run(["go", "build", "-overlay", ov, "-o", hb, "."], cwd=os.path.join(verif, "harness"), env=henv, capture_output=True).returncode: return "noharness"
        e = dict(env, VERIF_DIR=d, TMPDIR=d)
        os.mkdir(os.path.join(d, "evidence"))
        json.dump({"Replace": {m["file"]: f, "/repo/examples/zz_verif_test.go": verif + "/examples/zz_verif_test.go"}}, open(ov, "w"))
        eb = os.path.join(d, "ex")
        subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", eb, "./examples"], cwd="/repo", env=dict(env, GOFLAGS=""), capture_output=True)
        e["GX_EXAMPLES_BIN"] = eb
        prim = next(p for k, p in PRIM if k in m["file"])
        order = prim + ([c for c in ALL if c not in prim] if os.environ.get("SWEEP_ALL") else [])
        bad = []
        for c in order:
            try: r = subprocess.run([hb, "-prop", c, "-tier", "quick", "-seed", "1", "-out", os.path.join(d, "evidence", c + ".json")], cwd=d, env=e, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: bad.append(c + ":timeout"); continue
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout: return "caught " + c + (" after " + ",".join(bad) if bad else "")
            if r.returncode != 0: bad.append("%s:rc%d" % (c, r.returncode))
        return "MISSED" + (" " + ",".join(bad) if bad else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)

def loop():
    while True:
        with lock:
            if not muts: return
            m = muts.pop()
        t = time.time()
        try: res = run(m)
        except Exception as ex: res = "error %r" % ex
        with lock:
            with open(out, "a") as o:
                o.write(json.dumps({"key": m["key"], "line": m["Line"], "desc": m["Desc"], "res": res, "sec": round(time.time() - t, 1)}) + "\n")
ts = [threading.Thread(target=loop) for _ in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
