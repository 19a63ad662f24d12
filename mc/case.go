//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one complete run of the tool in a sandbox of its own.
// "{{ROOT}}" in arguments, environment and file contents stands for the
// absolute path of the sandbox.
type Case struct {
	Files    map[string]string `json:"files,omitempty"`    // relative to the sandbox
	Dirs     []string          `json:"dirs,omitempty"`     // empty directories
	Symlinks map[string]string `json:"symlinks,omitempty"` // name -> target
	Modes    map[string]uint32 `json:"modes,omitempty"`    // chmod after creation
	Cwd      string            `json:"cwd,omitempty"`      // default "w"
	Args     []string          `json:"args"`
	Env      map[string]string `json:"env,omitempty"`
	Stdin    *string           `json:"stdin,omitempty"`
	CLI      bool              `json:"cli,omitempty"`      // always run the binary
	StdoutTo string            `json:"stdoutTo,omitempty"` // e.g. /dev/full (binary only)
	Fault    string            `json:"fault,omitempty"`    // op|name|occurrence|errno|bytes;...
	Traced   bool              `json:"traced,omitempty"`   // record the I/O operations
	Procs    int               `json:"procs,omitempty"`    // GOMAXPROCS for the binary
	Sched    string            `json:"sched,omitempty"`    // run under this schedule (binary only)
	Race     bool              `json:"race,omitempty"`     // with the race detector
	Prog     string            `json:"-"`                  // instead of the tool
	Rot      int               `json:"rot,omitempty"`      // map iteration offset
	Steps    []*Case           `json:"steps,omitempty"`    // further runs in the same sandbox (Files added first)
}

// Result is everything observable about a run.
type Result struct {
	Exit   int               `json:"exit"`
	Stdout string            `json:"stdout"`
	Stderr string            `json:"stderr"`
	Files  map[string]string `json:"files"` // every file in the sandbox afterwards
	Dirs   []string          `json:"-"`     // every directory
	Hang   bool              `json:"hang,omitempty"`
	Signal string            `json:"signal,omitempty"`
	Next   []*Result         `json:"next,omitempty"`
	Hits   int               `json:"hits,omitempty"` // faults delivered (in process)
	Ops    []string          `json:"-"`              // I/O operations, if traced
	Sched  string            `json:"-"`              // trace of a scheduled run
}

// Crashed says whether the run ended in a Go panic, fatal error or signal.
func (r *Result) Crashed() bool {
	return r.Signal != "" || (r.Exit == 2 && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:"))) ||
		strings.Contains(r.Stderr, "\ngoroutine 1 [")
}

func (c *Case) cwd() string {
	if c.Cwd == "" {
		return "w"
	}

	return c.Cwd
}

func expand(s, root string) string { return strings.ReplaceAll(s, "{{ROOT}}", root) }

func (c *Case) setup(root string) error {
	for _, d := range append([]string{c.cwd(), "home"}, c.Dirs...) {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			return err
		}
	}

	for n, s := range c.Files {
		p := filepath.Join(root, n)

		err := os.WriteFile(p, []byte(expand(s, root)), 0o644)
		if errors.Is(err, fs.ErrNotExist) {
			if err = os.MkdirAll(filepath.Dir(p), 0o755); err == nil {
				err = os.WriteFile(p, []byte(expand(s, root)), 0o644)
			}
		}

		if err != nil {
			return err
		}
	}

	for n, t := range c.Symlinks {
		p := filepath.Join(root, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}

		if err := os.Symlink(expand(t, root), p); err != nil {
			return err
		}
	}

	for n, m := range c.Modes {
		if err := os.Chmod(filepath.Join(root, n), fs.FileMode(m)); err != nil {
			return err
		}
	}

	return nil
}

func snapshot(root string) (map[string]string, []string) {
	out := map[string]string{}

	var dirs []string

	filepath.Walk(root, func(p string, info fs.FileInfo, err error) error { //nolint
		if err != nil {
			return nil
		}

		rel, _ := filepath.Rel(root, p)

		if info.IsDir() {
			dirs = append(dirs, rel)

			return nil
		}

		if info.Mode()&fs.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			out[rel] = "-> " + strings.ReplaceAll(t, root, "{{ROOT}}")

			return nil
		}

		if !info.Mode().IsRegular() {
			out[rel] = "special " + info.Mode().String()

			return nil
		}

		b, err := os.ReadFile(p)
		if err != nil {
			out[rel] = "unreadable"

			return nil
		}

		out[rel] = strings.ReplaceAll(string(b), root, "{{ROOT}}")

		return nil
	})

	return out, dirs
}

var hangLimit = 20 * time.Second

type runner struct {
	base   string // scratch directory of this worker
	yot    string // the binary under test
	seq    int
	capOut *os.File
	capErr *os.File
	null   *os.File
}

func newRunner(base, yot string) (*runner, error) {
	r := &runner{base: base, yot: yot}

	// sandboxes a predecessor left behind
	old, err := filepath.Glob(filepath.Join(base, "s[0-9]*"))
	for _, d := range old {
		exec.Command("chmod", "-R", "u+rwX", d).Run() //nolint
		os.RemoveAll(d)                               //nolint
	}
	// named like the standard streams they stand for
	open := func(name, as string) *os.File {
		fd, e := syscall.Open(filepath.Join(base, name), syscall.O_CREAT|syscall.O_RDWR|syscall.O_TRUNC|syscall.O_CLOEXEC, 0o644)
		if e != nil {
			err = e
		}

		return os.NewFile(uintptr(fd), as)
	}

	r.capOut, r.capErr = open("cap.out", "/dev/stdout"), open("cap.err", "/dev/stderr")

	if err != nil {
		return nil, err
	}

	r.null, err = os.Open("/dev/null")

	return r, err
}

var ourEnv = []string{
	"YOT_CONFIG_FILE", "YOT_DEFAULT_ON_MISSING_ACTION", "YOT_INDENT_LEVEL", "YOT_LOG_LEVEL",
	"YOT_OUTPUT_DIRECTORY", "YOT_OUTPUT_STYLE", "YOT_REMOVE_COMMENTS", "YOT_STDOUT",
}

// run executes the case in a fresh sandbox.
func (r *runner) run(c *Case, cli bool) (*Result, error) {
	r.seq++
	root := filepath.Join(r.base, fmt.Sprintf("s%d", r.seq))

	defer func() {
		for n := range c.Modes {
			os.Chmod(filepath.Join(root, n), 0o755) //nolint
		}

		os.Chdir(r.base)   //nolint
		os.RemoveAll(root) //nolint
	}()

	if err := os.MkdirAll(root, 0o755); err != nil {
		return nil, err
	}

	first, err := r.step(c, root, cli)
	if err != nil {
		return nil, err
	}

	for _, s := range c.Steps {
		n, err := r.step(s, root, cli)
		if err != nil {
			return nil, err
		}

		first.Next = append(first.Next, n)
	}

	return first, nil
}

func (r *runner) step(c *Case, root string, cli bool) (*Result, error) {
	if err := c.setup(root); err != nil {
		return nil, err
	}

	if cli || c.CLI || execute == nil || c.StdoutTo != "" || c.Sched != "" {
		return r.runCLI(c, root)
	}

	return r.runIn(c, root)
}

func (r *runner) runIn(c *Case, root string) (*Result, error) {
	if err := os.Chdir(filepath.Join(root, c.cwd())); err != nil {
		return nil, err
	}

	for _, e := range ourEnv {
		os.Unsetenv(e)
	}

	os.Setenv("HOME", filepath.Join(root, "home"))
	os.Setenv("PWD", filepath.Join(root, c.cwd()))

	for k, v := range c.Env {
		os.Setenv(k, expand(v, root))
	}

	so, se, si := os.Stdout, os.Stderr, os.Stdin

	r.capOut.Truncate(0) //nolint
	r.capOut.Seek(0, 0)  //nolint
	r.capErr.Truncate(0) //nolint
	r.capErr.Seek(0, 0)  //nolint

	stdin := r.null

	if c.Stdin != nil {
		p := filepath.Join(r.base, "cap.in")
		if err := os.WriteFile(p, []byte(expand(*c.Stdin, root)), 0o644); err != nil {
			return nil, err
		}

		fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			return nil, err
		}

		f := os.NewFile(uintptr(fd), "/dev/stdin")
		defer f.Close()

		stdin = f
	}

	os.Stdout, os.Stderr, os.Stdin = r.capOut, r.capErr, stdin

	defer func() { os.Stdout, os.Stderr, os.Stdin = so, se, si }()

	args := make([]string, len(c.Args))
	for i, a := range c.Args {
		args[i] = expand(a, root)
	}

	res := &Result{}

	type exited int

	onExit(func(code int) { panic(exited(code)) })
	defer onExit(nil)

	func() {
		defer func() {
			p := recover()

			if e, ok := p.(exited); ok {
				res.Exit = int(e)
			} else if p != nil {
				fmt.Fprintf(os.Stderr, "panic: %v\n\ngoroutine 1 [running]:\n%s", p, debug.Stack())
				res.Exit = 2
			}
		}()

		if c.Fault != "" {
			armFault(expand(c.Fault, root))

			defer func() { res.Hits = armFault("") }()
		}

		if err := execute(args); err != nil {
			fmt.Fprintln(os.Stderr, err)
			res.Exit = 1
		}
	}()

	os.Stdout, os.Stderr, os.Stdin = so, se, si

	res.Stdout = strings.ReplaceAll(readAll(r.capOut), root, "{{ROOT}}")
	res.Stderr = strings.ReplaceAll(readAll(r.capErr), root, "{{ROOT}}")
	res.Files, res.Dirs = snapshot(root)

	return res, nil
}

func readAll(f *os.File) string {
	n, err := f.Seek(0, 2)
	if err != nil {
		return ""
	}

	b := make([]byte, n)
	k, _ := f.ReadAt(b, 0)

	return string(b[:k])
}

var rlimitMu sync.Mutex

func (r *runner) runCLI(c *Case, root string) (*Result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), hangLimit)
	defer cancel()

	args := make([]string, len(c.Args))
	for i, a := range c.Args {
		args[i] = expand(a, root)
	}

	name := r.yot
	if c.Prog != "" {
		name = filepath.Join(filepath.Dir(r.yot), c.Prog)
	}

	if c.Fault != "" || c.Traced {
		name += "f" // built with the patched standard library
	}

	// built with the patched runtime
	if c.Race {
		name += "r"
	} else if c.Sched != "" {
		name += "s"
	}

	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = filepath.Join(root, c.cwd())
	cmd.Env = []string{"HOME=" + filepath.Join(root, "home"), "PATH=/usr/bin:/bin", "TMPDIR=" + root, "PWD=" + cmd.Dir}

	if c.Procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", c.Procs))
	}

	for k, v := range c.Env {
		cmd.Env = append(cmd.Env, k+"="+expand(v, root))
	}

	if c.Fault != "" {
		cmd.Env = append(cmd.Env, "VERIF_FAULT="+expand(c.Fault, root))
	}

	sched := filepath.Join(r.base, "sched")

	if c.Sched != "" {
		f, err := os.Create(sched)
		if err != nil {
			return nil, err
		}
		defer f.Close()

		cmd.ExtraFiles = []*os.File{f}
		cmd.Env = append(cmd.Env, "VERIF_SCHED="+c.Sched, "VERIF_ROT="+strconv.Itoa(c.Rot), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	}

	if c.Race {
		cmd.Env = append(cmd.Env, "GORACE=atexit_sleep_ms=0")
	}

	trace := filepath.Join(r.base, "trace")

	if c.Traced {
		os.Remove(trace) //nolint
		cmd.Env = append(cmd.Env, "VERIF_TRACE="+trace)
	}

	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er

	if c.Sched != "" {
		// regular files: reading and writing them is never left to the poller
		for _, f := range []*os.File{r.capOut, r.capErr} {
			f.Truncate(0) //nolint
			f.Seek(0, 0)  //nolint
		}

		cmd.Stdout, cmd.Stderr = r.capOut, r.capErr
	}

	if c.StdoutTo != "" {
		f, err := os.OpenFile(c.StdoutTo, os.O_WRONLY, 0)
		if err != nil {
			return nil, err
		}
		defer f.Close()

		cmd.Stdout = f
	}

	if c.Stdin != nil && c.Sched != "" {
		p := filepath.Join(r.base, "cap.in")
		if err := os.WriteFile(p, []byte(expand(*c.Stdin, root)), 0o644); err != nil {
			return nil, err
		}

		f, err := os.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()

		cmd.Stdin = f
	} else if c.Stdin != nil {
		cmd.Stdin = strings.NewReader(expand(*c.Stdin, root))
	}

	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	res := &Result{}

	if ctx.Err() != nil {
		res.Hang = true
	}

	var ee *exec.ExitError

	switch {
	case err == nil:
	case errors.As(err, &ee):
		res.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !res.Hang {
			res.Signal = ws.Signal().String()
		}
	case res.Hang:
		res.Exit = -1
	default:
		return nil, err
	}

	if c.Traced {
		b, _ := os.ReadFile(trace)
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if l != "" {
				res.Ops = append(res.Ops, strings.ReplaceAll(l, root, "{{ROOT}}"))
			}
		}
	}

	if c.Sched != "" {
		b, _ := os.ReadFile(sched)
		res.Sched = string(b)

		out.WriteString(readAll(r.capOut))
		er.WriteString(readAll(r.capErr))
	}

	res.Stdout = strings.ReplaceAll(out.String(), root, "{{ROOT}}")
	res.Stderr = strings.ReplaceAll(er.String(), root, "{{ROOT}}")
	res.Files, res.Dirs = snapshot(root)

	return res, nil
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}

	sort.Strings(k)

	return k
}

func toJSON(v interface{}) string {
	b, _ := json.Marshal(v)

	return string(b)
}
