package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/jtcaraball/goexpdt/compute"
)

// work is a scratch directory of one case.
type work struct{ dir string }

func newWork(t *T) *work {
	d, err := os.MkdirTemp(workRoot(), "case-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &work{d}
}

// workRoot is outside TMPDIR, which the monitors watch.
func workRoot() string {
	d, err := os.Getwd()
	if err != nil {
		panic("harness: " + err.Error())
	}
	r := filepath.Join(filepath.Dir(d), "work")
	if filepath.Base(d) != "cwd" {
		r = filepath.Join(d, "work")
	}
	os.MkdirAll(r, 0o755)
	return r
}

func (w *work) done() { os.RemoveAll(w.dir) }

// solver installs a solver executable and wraps it.
func (w *work) solver(t *T, name string, c SolverCfg) (compute.Solver, string) {
	path, dir := w.install(name, c)
	sv, err := compute.BinSolver(path)
	if err != nil {
		t.Violate("binsolver", "BinSolver(%q): %v", path, err)
	}
	return sv, dir
}

func (w *work) install(name string, c SolverCfg) (string, string) {
	path := filepath.Join(w.dir, name)
	dir := path + ".d"
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	c.Dir = dir
	installSolver(path, c)
	return path, dir
}

// countCalls of a solver executable.
func countCalls(dir string) int {
	es, _ := os.ReadDir(dir)
	n := 0
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "call-") && !strings.Contains(e.Name(), ".") {
			n++
		}
	}
	return n
}

// ownMounts gives a process a user and mount namespace of its own, where it
// can mount small file systems that nothing else sees.
func ownMounts() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
	}
}

// canMount tells whether such a namespace is available here.
var canMount = sync.OnceValue(func() bool {
	cmd := exec.Command("/proc/self/exe", "-probe-mount")
	cmd.SysProcAttr = ownMounts()
	return cmd.Run() == nil
})

func probeMount() int {
	d, err := os.MkdirTemp("", "gxprobe-")
	if err != nil {
		return 1
	}
	defer os.Remove(d)
	undo, ok := mountSmall(d, 1, 0)
	if !ok {
		return 1
	}
	undo()
	return 0
}

// mountSmall puts an empty file system of the given number of pages, and of
// files if not 0, on dir.
func mountSmall(dir string, pages, files int) (func(), bool) {
	opt := fmt.Sprintf("size=%d,mode=777", pages*os.Getpagesize())
	if files > 0 {
		opt += fmt.Sprintf(",nr_inodes=%d", files+1)
	}
	if err := syscall.Mount("tmpfs", dir, "tmpfs", 0, opt); err != nil {
		return nil, false
	}
	return func() { syscall.Unmount(dir, 2 /* MNT_DETACH */) }, true
}
