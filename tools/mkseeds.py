#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py.

A definition file sets: ID, PROPERTY, NEEDS, BREAKS, EDITS (list of
(file, old, new)), DEMO (Go source of func demo and its imports). For each one
the patch is made in a scratch copy of /repo, where it must build and pass the
stable tests, and the demonstration must pass without and fail with it."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="")

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def base_pass(cwd):
    r = run("go test -json ./... 2>/dev/null", cwd, shell=True)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add((d["Package"], d["Test"]))
    return ok

def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="mkseeds")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        stable = base_pass(repo)
        for fn in sorted(glob.glob(HERE + "/seeds/*.py")):
            d = runpy.run_path(fn)
            if want and d["ID"] not in want and os.path.basename(fn)[:-3] not in want:
                continue
            run("git checkout -q -- .", repo, shell=True)
            dst = os.path.join(OUT, d["ID"])
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            for f in ("lib.go", "demo.sh"):
                shutil.copy(os.path.join(HERE, "seedlib", f), dst)
            open(os.path.join(dst, "main.go"), "w").write(d["DEMO"].lstrip())
            for name, text in d.get("FILES", {}).items():
                open(os.path.join(dst, name), "w").write(text.lstrip())
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
            r = run(["bash", os.path.join(dst, "demo.sh")], repo)
            good = r.returncode
            if good: print(d["ID"], "demo on unchanged:", r.stdout[-1500:])
            for f, old, new in d["EDITS"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(d["ID"], "edit matches", s.count(old), "times in", f); break
                open(p, "w").write(s.replace(old, new))
            fmt = run("gofmt -l cnf compute query examples | grep -v _test.go", repo, shell=True).stdout.strip()
            patch = run("git diff", repo, shell=True).stdout
            open(os.path.join(dst, "patch.diff"), "w").write(patch)
            b = run("go build ./cnf ./compute ./query/... && go vet ./cnf ./compute ./query/logop && go list -export ./examples >/dev/null", repo, shell=True)
            lost = stable - base_pass(repo)
            r = run(["bash", os.path.join(dst, "demo.sh")], repo)
            ok = good == 0 and b.returncode == 0 and not lost and r.returncode not in (0, 2)
            print(("OK   " if ok else "BAD  ") + d["ID"], d["PROPERTY"], "fmt:" + fmt if fmt else "", b.stdout[-800:] if b.returncode else "",
                  "lost %s" % sorted(lost)[:3] if lost else "", "| demo:", r.stdout.strip()[-160:])
    finally:
        shutil.rmtree(tmp)
main()
