package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/sat"
)

// SolverCfg configures the solver executable (the harness binary under a name
// that starts with gxsolver); it is read from <executable>.json.
type SolverCfg struct {
	Seed int64
	// Dir receives call-<n>.cnf and call-<n>.out.
	Dir string
	// Keep stores the formula and the output of every call in Dir.
	Keep bool
	// Fault kind by call number (from 1); 0 applies to every call.
	Faults map[string]string
	// Raw output and exit code instead of solving.
	Raw     *string
	RawExit int
	// Layout of the output.
	Width    int  // literals per value line (0: solver style 78 columns; -1: one line)
	Spaces   bool // runs of spaces, trailing spaces
	Tabs     bool // tabs between literals
	Comments bool
	Shuffle  bool
	Bare     bool // value lines without literals
	NoStatus bool // no "s" line
	NoNL     bool // no newline at the end
	Partial  bool // omit negative literals
	ZeroLine bool // "v 0" on its own line
	Stderr   bool
	Pad      int // extra bytes of comments
	DelayMS  int
	Pieces   int  // the output is written in so many pieces
	PauseMS  int  // with so long a pause between them
	ListCwd  bool // record the entries of the working directory
	Lenient  bool // accept a formula file that is cut
}

func (c SolverCfg) write(path string) {
	b, err := json.Marshal(c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(path+".json", b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

// installSolver puts a solver executable at path.
func installSolver(path string, c SolverCfg) {
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Remove(path)
	if err := os.Symlink(self, path); err != nil {
		panic("harness: " + err.Error())
	}
	c.write(path)
}

// parseDIMACS reads a DIMACS CNF strictly.
func parseDIMACS(b []byte) (nv int, clauses [][]int, err error) {
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	header := false
	nc := 0
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "c") {
			continue
		}
		f := strings.Fields(l)
		if strings.HasPrefix(l, "p") {
			if header || len(f) != 4 || f[0] != "p" || f[1] != "cnf" {
				return 0, nil, fmt.Errorf("bad header %q", clip(l, 80))
			}
			if nv, err = strconv.Atoi(f[2]); err != nil || nv < 0 {
				return 0, nil, fmt.Errorf("bad header %q", clip(l, 80))
			}
			if nc, err = strconv.Atoi(f[3]); err != nil || nc < 0 {
				return 0, nil, fmt.Errorf("bad header %q", clip(l, 80))
			}
			header = true
			continue
		}
		if !header {
			return 0, nil, fmt.Errorf("clause before the header: %q", clip(l, 80))
		}
		if len(f) == 0 {
			return 0, nil, fmt.Errorf("blank line")
		}
		cl := []int{}
		for i, w := range f {
			n, err := strconv.Atoi(w)
			if err != nil {
				return 0, nil, fmt.Errorf("bad literal %q", clip(w, 40))
			}
			if n == 0 {
				if i != len(f)-1 {
					return 0, nil, fmt.Errorf("0 inside a line: %q", clip(l, 80))
				}
				break
			}
			if i == len(f)-1 {
				return 0, nil, fmt.Errorf("clause not ended by 0: %q", clip(l, 80))
			}
			if n > nv || -n > nv {
				return 0, nil, fmt.Errorf("literal %d above the declared %d variables", n, nv)
			}
			cl = append(cl, n)
		}
		clauses = append(clauses, cl)
	}
	if err := sc.Err(); err != nil {
		return 0, nil, err
	}
	if !header {
		return 0, nil, fmt.Errorf("no header")
	}
	if len(clauses) != nc {
		return 0, nil, fmt.Errorf("header declares %d clauses, %d present", nc, len(clauses))
	}
	return nv, clauses, nil
}

// solverComments are comment lines a solver may print; none means anything.
var solverComments = []string{
	"c v 1 -2 3 0\n", "c\n", "c value lines follow\n", "c v\n",
	"c s UNSATISFIABLE\n", "c s SATISFIABLE\n", "c lookahead: branch UNSATISFIABLE\n", "c UNKNOWN\n",
	"c error: none\n", "c   s 12.5 seconds, 3 v/s\n", "c exit 20\n", "c 100% v\n",
	"c interrupted by signal 0 times, timeout never\n",
}

// formatModel writes the value lines of a model.
func formatModel(lits []int, c SolverCfg, r *rand.Rand) string {
	var sb strings.Builder
	comment := func() {
		if c.Comments {
			for n := r.Intn(3); n > 0; n-- {
				sb.WriteString(solverComments[r.Intn(len(solverComments))])
			}
		}
	}
	for n := c.Pad; n > 0; n -= 60 {
		sb.WriteString("c " + strings.Repeat("-", 57) + "\n")
	}
	comment()
	if !c.NoStatus {
		sb.WriteString("s SATISFIABLE\n")
	}
	l := append([]int{}, lits...)
	if c.Partial {
		k := l[:0]
		for _, x := range l {
			if x > 0 || r.Intn(3) == 0 {
				k = append(k, x)
			}
		}
		l = k
	}
	if c.Shuffle {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	words := []string{}
	for _, x := range l {
		words = append(words, strconv.Itoa(x))
	}
	if !c.ZeroLine {
		words = append(words, "0")
	}
	var line strings.Builder
	k := 0
	flush := func() {
		if k == 0 {
			return
		}
		sb.WriteString(line.String())
		if c.Spaces {
			sb.WriteString(strings.Repeat(" ", r.Intn(3)))
		}
		sb.WriteString("\n")
		line.Reset()
		k = 0
		comment()
		if c.Bare && r.Intn(4) == 0 {
			sb.WriteString([]string{"v\n", "v \n"}[r.Intn(2)])
		}
	}
	for _, w := range words {
		if c.Width > 0 && k >= c.Width || c.Width == 0 && line.Len()+1+len(w) > 78 {
			flush()
		}
		if k == 0 {
			line.WriteString("v")
		}
		if c.Tabs && r.Intn(3) == 0 {
			line.WriteString("\t")
		} else {
			line.WriteString(" ")
		}
		if c.Spaces {
			line.WriteString(strings.Repeat(" ", r.Intn(3)))
		}
		line.WriteString(w)
		k++
	}
	flush()
	if c.ZeroLine {
		sb.WriteString("v 0\n")
	}
	comment()
	out := sb.String()
	if c.NoNL {
		out = strings.TrimRight(out, "\n")
	}
	return out
}

// emit writes the output as the configuration asks.
func (c SolverCfg) emit(out string) {
	n := max(1, c.Pieces)
	for k := 0; k < n; k++ {
		if k > 0 {
			time.Sleep(time.Duration(c.PauseMS) * time.Millisecond)
		}
		os.Stdout.WriteString(out[len(out)*k/n : len(out)*(k+1)/n])
	}
}

func solverMain() {
	self := os.Args[0]
	var c SolverCfg
	b, err := os.ReadFile(self + ".json")
	if err != nil {
		fmt.Fprintln(os.Stderr, "gxsolver: no configuration:", err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, "gxsolver:", err)
		os.Exit(3)
	}
	n := 1
	if c.Dir != "" {
		for {
			f, err := os.OpenFile(filepath.Join(c.Dir, fmt.Sprintf("call-%d", n)), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
			if err == nil {
				f.WriteString(strings.Join(os.Args[1:], "\n"))
				f.Close()
				break
			}
			if !os.IsExist(err) {
				fmt.Fprintln(os.Stderr, "gxsolver:", err)
				os.Exit(3)
			}
			n++
		}
	}
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "gxsolver: usage: solver FILE")
		os.Exit(2)
	}
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, "gxsolver:", err)
		os.Exit(2)
	}
	if c.Keep {
		os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("call-%d.cnf", n)), data, 0o644)
	}
	if c.ListCwd {
		es, _ := os.ReadDir(".")
		l := []string{}
		for _, e := range es {
			l = append(l, e.Name())
		}
		os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("call-%d.cwd", n)), []byte(strings.Join(l, "\n")), 0o644)
	}
	if c.DelayMS > 0 {
		time.Sleep(time.Duration(c.DelayMS) * time.Millisecond)
	}
	if c.Stderr && c.Seed/48%4 == 0 {
		// much more than a pipe holds
		fmt.Fprint(os.Stderr, strings.Repeat("c a long story\n", 1000<<(c.Seed/192%5)))
	}
	if c.Stderr {
		fmt.Fprintln(os.Stderr, "gxsolver: warning: nothing to see here")
		for n := c.Seed % 4; n > 0; n-- {
			fmt.Fprint(os.Stderr, []string{"s UNSATISFIABLE\n", "v -1 -2 3 0\n", "v 1 2 -3 0\n", "s SATISFIABLE\n", "error\n", "Killed\n"}[(c.Seed/4+n)%6])
		}
	}
	r := rand.New(rand.NewSource(c.Seed*1000003 + int64(n)))
	fault := c.Faults["0"]
	if f, ok := c.Faults[strconv.Itoa(n)]; ok {
		fault = f
	}
	die := func(sig syscall.Signal) {
		// no core file
		syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
		syscall.Kill(os.Getpid(), sig)
		time.Sleep(5 * time.Second)
		os.Exit(3)
	}
	if f := strings.Split(fault, ":"); len(f) == 4 {
		// how, number, what is printed before, and what is said on stderr
		k, _ := strconv.Atoi(f[1])
		os.Stdout.WriteString(brokenOutputs[f[2]])
		if f[3] != "" {
			fmt.Fprintln(os.Stderr, f[3])
		}
		if f[0] == "sig" {
			// handlers of this program do not survive an exec
			syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
			syscall.Exec("/bin/sh", []string{"sh", "-c", "kill -" + f[1] + " $$; exit 3"}, os.Environ())
			os.Exit(3)
		}
		os.Exit(k)
	}
	switch fault {
	case "kill":
		die(syscall.SIGKILL)
	case "term":
		die(syscall.SIGTERM)
	case "exit0":
		fmt.Println("c nothing")
		os.Exit(0)
	case "exit1":
		fmt.Fprintln(os.Stderr, "gxsolver: error")
		os.Exit(1)
	case "exit1silent":
		os.Exit(1)
	case "exit30":
		fmt.Println("s UNKNOWN")
		os.Exit(30)
	case "exit15":
		fmt.Println("s UNKNOWN")
		os.Exit(15)
	case "exit11":
		os.Exit(11)
	case "exit255":
		os.Exit(255)
	case "exit10empty":
		os.Exit(10)
	case "exit10status":
		fmt.Println("s SATISFIABLE")
		os.Exit(10)
	case "exit10garbage":
		fmt.Print("s SATISFIABLE\nv 1 -2 x3 4 0\n")
		os.Exit(10)
	}
	if c.Raw != nil {
		c.emit(*c.Raw)
		os.Exit(c.RawExit)
	}
	nv, cls, err := parseDIMACS(data)
	if err != nil && c.Lenient {
		nv, cls, err = parseLenient(data), lenientClauses(data), nil
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "gxsolver: bad formula:", err)
		os.Exit(4)
	}
	s := sat.New(nv, r)
	s.RandPol = true
	for _, cl := range cls {
		s.Add(cl)
	}
	if !s.Solve() {
		for k := r.Intn(4); k > 0; k-- {
			fmt.Print(solverComments[r.Intn(len(solverComments))])
		}
		if !c.NoStatus || r.Intn(2) == 0 {
			fmt.Println("s UNSATISFIABLE")
		}
		if fault == "outkill" || fault == "exit0model" || fault == "exit1model" {
			switch fault {
			case "exit0model":
				os.Exit(0)
			case "exit1model":
				os.Exit(1)
			}
			die(syscall.SIGKILL)
		}
		if c.Keep {
			os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("call-%d.res", n)), []byte("20"), 0o644)
		}
		os.Exit(20)
	}
	lits := make([]int, nv)
	for i := 1; i <= nv; i++ {
		if s.Model(i) {
			lits[i-1] = i
		} else {
			lits[i-1] = -i
		}
	}
	out := formatModel(lits, c, r)
	switch fault {
	case "exit0model":
		os.Stdout.WriteString(out)
		os.Exit(0)
	case "exit1model":
		os.Stdout.WriteString(out)
		os.Exit(1)
	case "outkill":
		os.Stdout.WriteString(out)
		die(syscall.SIGKILL)
	case "exit10trunc":
		// the model is cut before the first positive literal
		cut := []int{}
		for _, l := range lits {
			if l > 0 {
				break
			}
			cut = append(cut, l)
		}
		cc := c
		cc.Shuffle, cc.Partial = false, false
		os.Stdout.WriteString(formatModel(cut, cc, r))
		os.Exit(10)
	case "exit10part":
		// some positive literals are missing
		keep := []int{}
		for _, l := range lits {
			if l > 0 && r.Intn(2) == 0 {
				continue
			}
			keep = append(keep, l)
		}
		os.Stdout.WriteString(formatModel(keep, c, r))
		os.Exit(10)
	}
	c.emit(out)
	if c.Keep {
		os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("call-%d.res", n)), []byte("10"), 0o644)
		ls := make([]string, len(lits))
		for i, l := range lits {
			ls[i] = strconv.Itoa(l)
		}
		os.WriteFile(filepath.Join(c.Dir, fmt.Sprintf("call-%d.model", n)), []byte(strings.Join(ls, " ")), 0o644)
	}
	os.Exit(10)
}

// lenientClauses reads what is there of a formula file.
func lenientClauses(b []byte) [][]int {
	var out [][]int
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "p") || strings.HasPrefix(l, "c") {
			continue
		}
		cl := []int{}
		done := false
		for _, w := range strings.Fields(l) {
			n, err := strconv.Atoi(w)
			if err != nil {
				break
			}
			if n == 0 {
				done = true
				break
			}
			cl = append(cl, n)
		}
		if done {
			out = append(out, cl)
		}
	}
	return out
}

func parseLenient(b []byte) int {
	nv, nc := 0, 0
	fmt.Sscanf(string(b), "p cnf %d %d", &nv, &nc)
	for _, c := range lenientClauses(b) {
		for _, l := range c {
			if l < 0 {
				l = -l
			}
			if l > nv {
				nv = l
			}
		}
	}
	return nv
}
