// Command verifharness runs the property monitors against the goexpdt code
// in /repo (see ../DESIGN.md).
//
//	verifharness -prop C01 -tier quick -seed 1 -out evidence/C01.json
//	verifharness -replay replays/<file>.json
//
// The parent process shards the cases of a property over worker processes,
// so that no monitor observes state shared with another shard, and so that a
// crash or a hang of the code under test is attributed to one case.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Stream is a numbered family of cases of a property.
type Stream struct {
	Name  string
	Quick int
	Thor  int
	Run   func(t *T, i int)
}

// Prop is a property's monitor.
type Prop struct {
	ID      string
	Level   string
	Rule    string
	Assume  []string
	Streams []Stream
	// Need lists counters that must be non-zero in a run: a run that did not
	// observe these events decides nothing.
	Need []string
	// Serial runs the property in one worker.
	Serial bool
	// MaxWorkers bounds the workers.
	MaxWorkers int
	// Mounts: the workers can mount file systems of their own (see work.go).
	Mounts bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation found by a monitor.
type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Prop   string `json:"property"`
	Stream string `json:"stream"`
	Index  int    `json:"index"`
	Seed   int64  `json:"seed"`
	Tier   string `json:"tier"`
	Trace  string `json:"trace,omitempty"`
}

// T is handed to each case.
type T struct {
	*rand.Rand
	P      *Prop
	Stream string
	Index  int
	Tier   string
	Seed   int64
	res    *result
	desc   string
	trace  []string
}

type result struct {
	Evals    int64            `json:"evals"`
	Hashes   []uint64         `json:"hashes"`
	Samples  []string         `json:"samples"`
	Counters map[string]int64 `json:"counters"`
	Viol     []Violation      `json:"viol"`
	hset     map[uint64]bool
	ntaken   int
}

type abortCase struct{}

// Eval counts observed executions.
func (t *T) Eval(n int) { t.res.Evals += int64(n) }

// Count adds to a named counter of observed events.
func (t *T) Count(name string, n int) { t.res.Counters[name] += int64(n) }

// Describe sets the description of the current case.
func (t *T) Describe(f string, a ...any) { t.desc = fmt.Sprintf(f, a...) }

// Log adds a line to the case's trace.
func (t *T) Log(f string, a ...any) {
	if len(t.trace) < 400 {
		t.trace = append(t.trace, fmt.Sprintf(f, a...))
	}
}

// Distinct records a distinct non-trivial case.
func (t *T) Distinct(key string) {
	h := fnv.New64a()
	io.WriteString(h, t.Stream)
	io.WriteString(h, key)
	x := h.Sum64()
	if !t.res.hset[x] {
		t.res.hset[x] = true
		t.res.Hashes = append(t.res.Hashes, x)
		if len(t.res.Samples) < 3 {
			s := t.Stream + ": " + key
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			t.res.Samples = append(t.res.Samples, s)
		}
	}
}

// Violate records a violation and abandons the case.
func (t *T) Violate(key, f string, a ...any) {
	t.res.Viol = append(t.res.Viol, Violation{
		Key: key, Msg: fmt.Sprintf(f, a...) + "\ncase: " + t.desc, Prop: t.P.ID, Stream: t.Stream,
		Index: t.Index, Seed: t.Seed, Tier: t.Tier, Trace: strings.Join(t.trace, "\n"),
	})
	panic(abortCase{})
}

func caseSeed(seed int64, prop, stream string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, stream, i)
	return int64(h.Sum64() >> 1)
}

func cpuNow() time.Duration {
	// ended children count too: a loop of solver calls is one of them
	var ru, rc syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &rc)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano() + rc.Utime.Nano() + rc.Stime.Nano())
}

const (
	caseCPU  = 100 * time.Second // a case normally needs well below 2 s
	caseWall = 420 * time.Second
	// workers stop when this time is used up, and soon after a violation
	quickBudget = 450 * time.Second
	afterFirst  = 15 * time.Second
	// the other workers are ended this long after one that found a violation
	othersGrace = 40 * time.Second
	exitHang    = 97
	exitWall    = 98
)

func runCase(p *Prop, st Stream, i int, seed int64, tier string, res *result) {
	t := &T{
		Rand: rand.New(rand.NewSource(caseSeed(seed, p.ID, st.Name, i))),
		P:    p, Stream: st.Name, Index: i, Tier: tier, Seed: seed, res: res,
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(abortCase); ok {
			return
		}
		msg := fmt.Sprint(r)
		if strings.HasPrefix(msg, "harness:") {
			panic(r)
		}
		res.Viol = append(res.Viol, Violation{
			Key: "panic/" + st.Name, Msg: "panic: " + msg + "\ncase: " + t.desc,
			Prop: p.ID, Stream: st.Name, Index: i, Seed: seed, Tier: tier,
			Trace: strings.Join(t.trace, "\n") + "\n" + string(debug.Stack()),
		})
	}()
	st.Run(t, i)
}

type job struct {
	si, i int
}

// quickTimes multiplies the quick tier's cases of the cheap checks.
var quickTimes = map[string]int{
	"C04": 4, "C06": 3, "C07": 4, "C08": 8, "C09": 10, "C11": 5, "C12": 6,
	"C13": 6, "C14": 2, "C15": 2, "C16": 2, "C18": 8, "C19": 4, "C21": 3,
	"C23": 2, "C24": 15,
}

func jobs(p *Prop, tier string) []job {
	var out []job
	maxn := 0
	n := make([]int, len(p.Streams))
	for si, st := range p.Streams {
		n[si] = st.Quick
		if x := quickTimes[p.ID]; x > 1 && st.Quick > 8 {
			n[si] *= x
		}
		if tier == "thorough" {
			n[si] = st.Thor
			if n[si] == 0 {
				n[si] = st.Quick
			}
		}
		if n[si] > maxn {
			maxn = n[si]
		}
	}
	// Streams are interleaved.
	for i := 0; i < maxn; i++ {
		for si := range p.Streams {
			if i < n[si] {
				out = append(out, job{si, i})
			}
		}
	}
	return out
}

func worker(p *Prop, tier string, seed int64, shard, nshard int, dir string) {
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30) // collect well before the limit
	res := &result{Counters: map[string]int64{}, hset: map[uint64]bool{}}
	prog, err := os.Create(filepath.Join(dir, "progress"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var startCPU time.Duration
	var startWall time.Time
	mu := make(chan struct{}, 1)
	mu <- struct{}{}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			<-mu
			c, w := startCPU, startWall
			mu <- struct{}{}
			if w.IsZero() {
				continue
			}
			if cpuNow()-c > caseCPU {
				os.Exit(exitHang)
			}
			if time.Since(w) > caseWall {
				os.Exit(exitWall)
			}
		}
	}()
	begin := time.Now()
	var first time.Time // first violation
	for k, j := range jobs(p, tier) {
		if k%nshard != shard {
			continue
		}
		st := p.Streams[j.si]
		prog.WriteAt([]byte(fmt.Sprintf("%-60s", fmt.Sprintf("%d %d", j.si, j.i))), 0)
		<-mu
		startCPU, startWall = cpuNow(), time.Now()
		mu <- struct{}{}
		runCase(p, st, j.i, seed, tier, res)
		if first.IsZero() && len(res.Viol) > 0 {
			first = time.Now()
		}
		if len(res.Viol) >= 8 || !first.IsZero() && time.Since(first) > afterFirst {
			break
		}
		if tier == "quick" && time.Since(begin) > quickBudget {
			res.Counters["workers_out_of_time"]++
			break
		}
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known findings: "finding: property=<id> key=<exact key> <text>"
func knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 3 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return out
}

// outOfResources reports whether a process died for want of memory, threads
// or processes, which a busy machine can cause as well as the code.
func outOfResources(stderr string) bool {
	for _, m := range []string{"out of memory", "cannot allocate memory", "failed to create new OS thread", "pthread_create", "resource temporarily unavailable", "too many open files in system"} {
		if strings.Contains(stderr, m) {
			return true
		}
	}
	return false
}

func parent(p *Prop, tier string, seed int64, outFile string) int {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	root, err := os.MkdirTemp("", "gxverif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if p.MaxWorkers > 0 && nw > p.MaxWorkers {
		nw = p.MaxWorkers
	}
	if p.Serial {
		nw = 1
	}
	type wres struct {
		w, try int
		code   int
		stderr string
		dir    string
	}
	ch := make(chan wres, nw)
	cmds := make([]*exec.Cmd, nw)
	start := func(w, attempt int) {
		dir := filepath.Join(root, fmt.Sprintf("w%d-%d", w, attempt))
		tmp := filepath.Join(dir, "tmp")
		cwd := filepath.Join(dir, "cwd")
		os.MkdirAll(tmp, 0o755)
		os.MkdirAll(cwd, 0o755)
		cmd := exec.Command(self, "-worker", "-prop", p.ID, "-tier", tier,
			"-seed", strconv.FormatInt(seed, 10), "-shard", strconv.Itoa(w),
			"-nshard", strconv.Itoa(nw), "-dir", dir)
		cmd.Dir = cwd
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "VERIF_DIR="+verifDir(),
			"GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=200")
		if p.Mounts && canMount() {
			cmd.SysProcAttr = ownMounts()
		} else {
			cmd.SysProcAttr = &syscall.SysProcAttr{}
		}
		cmd.SysProcAttr.Setpgid = true
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = os.Stderr
		cmds[w] = cmd
		err := cmd.Start()
		go func() {
			if err == nil {
				err = cmd.Wait()
			}
			code := 0
			if err != nil {
				code = 2
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
					if code < 0 {
						code = 99
					}
				}
			}
			ch <- wres{w, attempt, code, eb.String(), dir}
		}()
	}
	for w := 0; w < nw; w++ {
		start(w, 0)
	}
	total := &result{Counters: map[string]int64{}, hset: map[uint64]bool{}}
	inconclusive := []string{}
	known := knownFindings()
	var grace <-chan time.Time
	ended := false
	for left := nw; left > 0; left-- {
		for _, v := range total.Viol {
			if _, ok := known[p.ID+" "+v.Key]; !ok && grace == nil && !ended {
				grace = time.After(othersGrace)
			}
		}
		var r wres
		select {
		case r = <-ch:
		case <-grace:
			grace, ended = nil, true
			for _, c := range cmds {
				if c != nil && c.Process != nil {
					syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				}
			}
			r = <-ch
		}
		cmds[r.w] = nil
		if !ended && r.code != 0 && r.try == 0 && outOfResources(r.stderr) {
			// memory or threads ran out: judged only if it happens again
			total.Counters["workers_restarted"]++
			start(r.w, 1)
			left++
			continue
		}
		if ended && r.code == 99 {
			total.Counters["workers_ended_after_a_violation"]++
			continue
		}
		if b, err := os.ReadFile(filepath.Join(r.dir, "result.json")); err == nil {
			var x result
			if json.Unmarshal(b, &x) == nil {
				total.Evals += x.Evals
				for _, h := range x.Hashes {
					total.hset[h] = true
				}
				for k, v := range x.Counters {
					total.Counters[k] += v
				}
				total.Viol = append(total.Viol, x.Viol...)
				if len(total.Samples) < 12 {
					total.Samples = append(total.Samples, x.Samples...)
				}
			}
		}
		races := strings.Count(r.stderr, "WARNING: DATA RACE")
		if races > 0 {
			total.Counters["race_reports"] += int64(races)
			total.Viol = append(total.Viol, Violation{
				Key: "data-race", Prop: p.ID, Stream: "race", Seed: seed, Tier: tier,
				Msg: fmt.Sprintf("%d data race report(s)", races), Trace: clip(r.stderr, 12000),
			})
			continue
		}
		if r.code == 0 {
			continue
		}
		st, idx := -1, -1
		if b, err := os.ReadFile(filepath.Join(r.dir, "progress")); err == nil {
			fmt.Sscanf(string(b), "%d %d", &st, &idx)
		}
		where := "?"
		if st >= 0 && st < len(p.Streams) {
			where = p.Streams[st].Name
		}
		switch {
		case r.code == exitHang:
			total.Viol = append(total.Viol, Violation{Key: "no-termination/" + where, Prop: p.ID,
				Stream: where, Index: idx, Seed: seed, Tier: tier,
				Msg: fmt.Sprintf("case did not end within %v of processor time (it normally needs under 2 s)", caseCPU)})
		case r.code == exitWall:
			inconclusive = append(inconclusive, fmt.Sprintf("wall-clock watchdog in %s/%d", where, idx))
		case strings.Contains(r.stderr, "harness:"):
			inconclusive = append(inconclusive, "harness failure: "+clip(r.stderr, 3000))
		case strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "panic:") ||
			strings.Contains(r.stderr, "stack overflow") || strings.Contains(r.stderr, "exceeds"):
			total.Viol = append(total.Viol, Violation{Key: "crash/" + where, Prop: p.ID,
				Stream: where, Index: idx, Seed: seed, Tier: tier,
				Msg: "the process crashed: " + clip(r.stderr, 600), Trace: clip(r.stderr, 8000)})
		default:
			inconclusive = append(inconclusive, fmt.Sprintf("worker exit %d in %s/%d: %s", r.code, where, idx, clip(r.stderr, 2000)))
		}
	}
	sort.Strings(total.Samples)
	newViol := []Violation{}
	knownSeen := map[string]bool{}
	for _, v := range total.Viol {
		if txt, ok := known[p.ID+" "+v.Key]; ok {
			if !knownSeen[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", p.ID, v.Key, txt)
			}
			knownSeen[v.Key] = true
			continue
		}
		newViol = append(newViol, v)
	}
	cov := map[string]any{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(total.hset),
		"rule":                p.Rule,
		"samples":             total.Samples,
		"observed":            total.Counters,
		"cases":               len(jobs(p, tier)),
		"workers":             nw,
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assume,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(newViol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if outFile != "" {
		os.MkdirAll(filepath.Dir(outFile), 0o755)
		if err := os.WriteFile(outFile, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	keys := []string{}
	for k := range total.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct; observed:", p.ID, tier, len(jobs(p, tier)), total.Evals, len(total.hset))
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, total.Counters[k])
	}
	fmt.Printf(" (%.1f s)\n", time.Since(t0).Seconds())
	if len(newViol) > 0 {
		sort.SliceStable(newViol, func(a, b int) bool { return len(newViol[a].Msg) < len(newViol[b].Msg) })
		rdir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rdir, 0o755)
		byKey := map[string]bool{}
		for _, v := range newViol {
			if byKey[v.Key] || len(byKey) >= 5 {
				continue
			}
			byKey[v.Key] = true
			h := fnv.New32a()
			fmt.Fprintf(h, "%s/%s/%d/%d", v.Key, v.Stream, v.Index, v.Seed)
			path := filepath.Join(rdir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
			vb, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(vb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  key=%s stream=%s index=%d\n  %s\n", v.Key, v.Stream, v.Index, strings.ReplaceAll(clip(v.Msg, 1500), "\n", "\n  "))
		}
		return 1
	}
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 3
	}
	for _, n := range p.Need {
		if total.Counters[n] == 0 && len(knownSeen) == 0 {
			fmt.Printf("INCONCLUSIVE: nothing observed for %q\n", n)
			return 3
		}
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[v.Prop]
	if p == nil {
		return 2
	}
	if v.Stream == "race" {
		// the schedule cannot be repeated: run the property again
		fmt.Println(v.Trace)
		return parent(p, v.Tier, v.Seed, "")
	}
	for _, st := range p.Streams {
		if st.Name != v.Stream {
			continue
		}
		d, _ := os.MkdirTemp("", "gxverif-replay-")
		defer os.RemoveAll(d)
		os.MkdirAll(filepath.Join(d, "tmp"), 0o755)
		os.Setenv("TMPDIR", filepath.Join(d, "tmp"))
		os.Chdir(d)
		res := &result{Counters: map[string]int64{}, hset: map[uint64]bool{}}
		runCase(p, st, v.Index, v.Seed, v.Tier, res)
		for _, w := range res.Viol {
			fmt.Printf("VIOLATION property=%s replay=%s\nkey=%s\n%s\n%s\n", w.Prop, path, w.Key, w.Msg, w.Trace)
		}
		if len(res.Viol) > 0 {
			return 1
		}
	}
	fmt.Println("no violation on replay")
	return 0
}

func main() {
	if strings.Contains(filepath.Base(os.Args[0]), "gxsolver") {
		solverMain()
		return
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "evidence file")
	rep := flag.String("replay", "", "replay file")
	isWorker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	nshard := flag.Int("nshard", 1, "")
	dir := flag.String("dir", "", "")
	probe := flag.Bool("probe-mount", false, "")
	flag.Parse()
	if *probe {
		os.Exit(probeMount())
	}
	if *rep != "" {
		if os.Getenv("GX_REPLAY_CHILD") == "" && canMount() {
			cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
			cmd.Env = append(os.Environ(), "GX_REPLAY_CHILD=1")
			cmd.SysProcAttr = ownMounts()
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			if err := cmd.Run(); err == nil {
				os.Exit(0)
			} else if ee, ok := err.(*exec.ExitError); ok {
				os.Exit(ee.ExitCode())
			}
		}
		os.Exit(replay(*rep))
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isWorker {
		worker(p, *tier, *seed, *shard, *nshard, *dir)
		return
	}
	os.Exit(parent(p, *tier, *seed, *out))
}
