package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// Property C16.

// snapDir lists a directory with contents.
func snapDir(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		h := fnv.New64a()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			h.Write(b)
		}
		out = append(out, fmt.Sprintf("%s %v %x", rel, fi.Mode(), h.Sum64()))
		return nil
	})
	sort.Strings(out)
	return out
}

func snapFds() map[string]string {
	out := map[string]string{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("harness: " + err.Error())
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue // the directory itself
		}
		if strings.HasPrefix(l, "anon_inode:[event") {
			continue // the runtime's poller
		}
		out[e.Name()] = l
	}
	return out
}

// children of this process, dead or alive.
func snapChildren() []string {
	var out []string
	me := strconv.Itoa(os.Getpid())
	es, _ := os.ReadDir("/proc")
	for _, e := range es {
		if c := e.Name()[0]; c < '0' || c > '9' {
			continue
		}
		b, err := os.ReadFile("/proc/" + e.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		k := strings.LastIndexByte(s, ')')
		if k < 0 {
			continue
		}
		f := strings.Fields(s[k+1:])
		if len(f) > 1 && f[1] == me {
			out = append(out, e.Name()+" "+s[strings.IndexByte(s, '('):k+1]+" "+f[0])
		}
	}
	sort.Strings(out)
	return out
}

func diff(a, b []string) string {
	in := map[string]int{}
	for _, x := range a {
		in[x]--
	}
	for _, x := range b {
		in[x]++
	}
	var out []string
	for x, n := range in {
		if n > 0 {
			out = append(out, "new: "+x)
		}
		if n < 0 {
			out = append(out, "gone: "+x)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// tmpRoot entries with the name pattern of the code under test in the
// system's temporary directory.
func strayTmp() []string {
	l, _ := filepath.Glob("/tmp/tmp.cnf*")
	sort.Strings(l)
	return l
}

var cleanKinds = append(append(append([]string{"none", "none", "none", "encoding", "encoding", "values"}, crashKinds...), modelKinds...), envKinds...)

func cleanCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	w := newWork(t)
	defer w.done()
	oldCwd, err := os.Getwd()
	if err != nil {
		panic("harness: " + err.Error())
	}
	oldTmp, oldHome := os.Getenv("TMPDIR"), os.Getenv("HOME")
	tmp, cwd, home := mkdir(filepath.Join(w.dir, "T")), mkdir(filepath.Join(w.dir, "C")), mkdir(filepath.Join(w.dir, "H"))
	// files of the user, some of them with likely names
	for _, d := range []string{tmp, cwd} {
		for _, n := range []string{"tmp.cnf", "tmp.cnf1", "tmp.cnf123456789", "tmp", "a.cnf", "x.txt"} {
			if r.Intn(3) > 0 {
				os.WriteFile(filepath.Join(d, n), []byte("user file "+n), 0o644)
			}
		}
		os.Mkdir(filepath.Join(d, "sub"), 0o755)
		os.WriteFile(filepath.Join(d, "sub", "tmp.cnf7"), []byte("user file"), 0o600)
	}
	os.Setenv("TMPDIR", tmp)
	os.Setenv("HOME", home)
	os.Chdir(cwd)
	defer func() {
		os.Chdir(oldCwd)
		os.Setenv("TMPDIR", oldTmp)
		os.Setenv("HOME", oldHome)
	}()
	o := randOp(t, tree)
	kind := cleanKinds[i%len(cleanKinds)]
	at := faultCall(t)
	if r.Intn(3) > 0 {
		at = 1 + r.Intn(2)
	}
	if r.Intn(16) == 0 && (kind == "none" || !has(envKinds, kind)) {
		tree, o = longOp(t)
		at = 1 + r.Intn(35)
		t.Count("long_operations", 1)
	}
	cwdNames := []string{}
	if es, err := os.ReadDir(cwd); err == nil {
		for _, e := range es {
			cwdNames = append(cwdNames, e.Name())
		}
	}
	before := map[string][]string{"temporary directory": snapDir(tmp), "working directory": snapDir(cwd), "home directory": snapDir(home), "/tmp": strayTmp(), "processes": snapChildren()}
	during := ""
	watch := func() {
		if d := diff(before["working directory"], snapDir(cwd)); d != "" && during == "" {
			during = "working directory: " + d
		}
		if d := diff(before["home directory"], snapDir(home)); d != "" && during == "" {
			during = "home directory: " + d
		}
		t.Count("mid_run_listings", 1)
	}
	gor := runtime.NumGoroutine()
	fds := snapFds()
	gc := debug.SetGCPercent(-1) // no finalizer hides an open file
	defer debug.SetGCPercent(gc)
	t.Describe("tree %s\n%s\n%s at call %d", tree, o.desc, kind, at)
	var out any
	reps := 1
	if kind == "none" {
		reps = 1 + r.Intn(3)
	}
	dir := ""
	for k := 0; k < reps; k++ {
		switch {
		case kind == "none" || kind == "values" || has(crashKinds, kind) || has(modelKinds, kind):
			cfg := SolverCfg{Seed: t.Int63(), ListCwd: true}
			if kind != "none" && kind != "values" {
				cfg.Faults = map[string]string{strconv.Itoa(at): kind}
			}
			var sv compute.Solver
			sv, dir = w.solver(t, fmt.Sprintf("gxsolver%d", k), cfg)
			h := &hookSolver{Solver: sv, before: func(int) {}, after: func(int) { watch() }}
			if kind == "values" {
				out, err = o.run(query.BasicQContext(tree), valuesFail{h})
			} else {
				out, err = o.run(query.BasicQContext(tree), h)
			}
		case kind == "encoding":
			var sv compute.Solver
			sv, dir = w.solver(t, "gxsolver", SolverCfg{Seed: t.Int63(), ListCwd: true})
			out, err = o.run(query.BasicQContext(tree), &encFail{Solver: sv, at: at, mid: watch})
		default:
			dir = filepath.Join(w.dir, "gxsolver.d")
			out, err, _, _ = applyEnv(t, kind, at, w, o, tree)
			os.Setenv("TMPDIR", tmp)
		}
		_ = out
		t.Eval(1)
		switch {
		case err != nil:
			t.Count("outcomes_error", 1)
		default:
			t.Count("outcomes_answer", 1)
		}
	}
	t.Count("kind_"+kind, 1)
	after := map[string][]string{"temporary directory": snapDir(tmp), "working directory": snapDir(cwd), "home directory": snapDir(home), "/tmp": strayTmp(), "processes": snapChildren()}
	nfds := snapFds()
	for _, k := range []string{"temporary directory", "working directory", "home directory", "/tmp", "processes"} {
		if d := diff(before[k], after[k]); d != "" {
			t.Violate("left/"+strings.Fields(k)[0], "%s after the operation (result %v): %s", k, err, d)
		}
	}
	if _, err := os.Lstat(filepath.Join(w.dir, "no-tmp")); err == nil {
		t.Violate("left/no-tmp", "a missing temporary directory was created")
	}
	for fd, l := range nfds {
		if fds[fd] != l {
			t.Violate("left/descriptor", "descriptor %s is open after the operation (result %v): %s", fd, err, l)
		}
	}
	for k := 0; runtime.NumGoroutine() > gor; k++ {
		if k > 300 {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			t.Log("%s", buf[:n])
			t.Violate("left/goroutine", "%d goroutines before, %d after the operation (result %v)", gor, runtime.NumGoroutine(), err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	if during != "" {
		t.Violate("outside/parent", "written during the operation: %s", during)
	}
	// what the solver saw
	if es, err := os.ReadDir(dir); err == nil {
		for _, e := range es {
			n := strings.TrimPrefix(e.Name(), "call-")
			switch {
			case strings.HasSuffix(n, ".cwd"):
				b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
				got := strings.Split(string(b), "\n")
				if d := diff(cwdNames, got); d != "" && kind != "fsize" && kind != "full" && kind != "nofiles" {
					t.Violate("outside/solver", "during the solver run: working directory %s", d)
				}
				t.Count("solver_listings", 1)
			case !strings.Contains(n, "."):
				b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
				arg := strings.Split(string(b), "\n")[0]
				if arg != "" && kind != "fsize" && kind != "full" && kind != "nofiles" && !strings.HasPrefix(arg, tmp+"/") {
					t.Violate("outside/file", "the formula file %q is not in the temporary directory", arg)
				}
				t.Count("formula_paths", 1)
			}
		}
	}
	t.Distinct(o.desc + kind + strconv.Itoa(at))
}

// valuesFail cannot read values.
type valuesFail struct{ compute.Solver }

func (valuesFail) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return nil, fmt.Errorf("no values")
}

// encFail makes the encoding of one call fail, after part of it.
type encFail struct {
	compute.Solver
	n, at int
	mid   func()
}

func (e *encFail) Step(q compute.Encodable, ctx query.QContext) error {
	e.n++
	bad := e.n == e.at
	return e.Solver.Step(bodyFunc(func(ctx query.QContext) (cnfT, error) {
		e.mid()
		c, err := q.Encoding(ctx)
		if bad {
			return cnfT{}, fmt.Errorf("cannot be encoded")
		}
		return c, err
	}), ctx)
}

func init() {
	register(&Prop{ID: "C16", Mounts: true, Level: "fault_enumeration",
		Rule:   "evaluations, combinators and optimum computations with every outcome (answers, encoding errors, solver faults of C15, unavailable or full storage) in a scratch temporary, working and home directory with user files; before and after: directory contents, descriptors (garbage collection off), child processes, goroutines; during: the working and home directory, and the path of the formula file; distinct = distinct (operation, outcome, call)",
		Assume: []string{"a file removed again before the next observation and not visible to the solver is not seen"},
		Need:   append([]string{"long_operations", "outcomes_error", "outcomes_answer", "mid_run_listings", "solver_listings", "formula_paths"}, prefixed("kind_", cleanKinds)...),
		Streams: []Stream{
			{Name: "clean", Quick: 2600, Thor: 50000, Run: cleanCase},
		}})
}
