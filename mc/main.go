//go:build go1.22

// Command mc model-checks yaml-overlay-tool: it enumerates bounded spaces of
// runs, executes every one on the real code and compares it with a reference
// model. See /verif/DESIGN.md.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Item is one element of a check's space: a run and the verdict on it.
type Item struct {
	Key    string // identifies the element (unique within the check)
	Class  string // coverage class
	Case   *Case
	Verify func(r *Result) string // "" if the property holds
	CLI    bool                   // decide on the binary, not in process
	Skip   bool                   // outcome unspecified: run it, only crashes and hangs count
	// Search explores the runs of this element (all schedules of a
	// configuration) itself; it returns the run that breaks the property.
	Search func(left func() bool) (*Case, string, *Result, error)
	Trace  int // length of the model trace this run replays
}

// Check is the enumeration of one property's space.
type Check struct {
	ID    string
	Level string
	// Rule describes the space for the evidence.
	Rule    string
	Assume  []string
	Explore func(x *X)
}

// X is handed to Explore, in every worker alike; each worker executes its
// share of the items.
type X struct {
	Thorough bool
	Seed     int64
	emit     func(build func() *Item)
	// States and Transitions of the model explored (counted by worker 0 only).
	States, Transitions int
	Extra               map[string]int
	Sum                 map[string]int // counters added up over the workers
	run                 *runner
	under               bool
	done                int
	Later               []*Item // searches to be continued when all items have been begun
}

// Do adds one item to the space, and every few items one of them again with
// a setting that must make no difference.
func (x *X) Do(build func() *Item) {
	x.emit(build)

	if !x.under {
		return
	}

	// the strides and the number of workers have no common factor
	stride := 6
	if x.Thorough {
		stride = 2
	}

	if x.done++; x.done%stride == 0 {
		x.emit(under(build, x.done/stride))
	}
}

// Count adds to a named counter of the model's exploration.
func (x *X) Count(name string, n int) { x.Extra[name] += n }

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type violation struct {
	Property string  `json:"property"`
	Key      string  `json:"key"`
	Message  string  `json:"message"`
	Case     *Case   `json:"case"`
	Result   *Result `json:"result"`
	Idx      int     `json:"index"`
}

type report struct {
	Viol        *violation     `json:"viol,omitempty"`
	Done        bool           `json:"done,omitempty"`
	Evaluated   int            `json:"evaluated,omitempty"`
	CLIRuns     int            `json:"cliRuns,omitempty"`
	Unspecified int            `json:"unspecified,omitempty"`
	Traces      int            `json:"traces,omitempty"`
	Steps       int            `json:"steps,omitempty"`
	Classes     map[string]int `json:"classes,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	States      int            `json:"states,omitempty"`
	Transitions int            `json:"transitions,omitempty"`
	Extra       map[string]int `json:"extra,omitempty"`
	Sum         map[string]int `json:"sum,omitempty"`
	Total       int            `json:"total,omitempty"`
	Timeout     bool           `json:"timeout,omitempty"`
	Unconfirmed string         `json:"unconfirmed,omitempty"`
	Err         string         `json:"err,omitempty"`
	Outcomes    []uint64       `json:"outcomes,omitempty"`
}

// outcome identifies the observable end state of a run.
func outcome(it *Item, r *Result) uint64 {
	h := fnv.New64a()

	for _, q := range append([]*Result{r}, r.Next...) {
		fmt.Fprintf(h, "%d\x00%s\x00", q.Exit, q.Stdout)

		if q.Exit != 0 {
			io.WriteString(h, q.Stderr) //nolint
		}

		for _, f := range sortedKeys(q.Files) {
			if q.Files[f] != it.Case.Files[f] {
				fmt.Fprintf(h, "%s\x01%s\x02", f, q.Files[f])
			}
		}
	}

	return h.Sum64()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay ...")
		os.Exit(3)
	}

	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		for _, id := range sortedKeys(checks) {
			fmt.Println(id)
		}
	default:
		os.Exit(3)
	}
}

type opts struct {
	id, tier, yot, verif, scratch string
	shard, n, start, forceCLI     int
	deadline                      time.Duration
	seed                          int64
	key                           string
}

func parseOpts(args []string) *opts {
	o := &opts{}
	f := flag.NewFlagSet("mc", flag.ExitOnError)
	f.StringVar(&o.id, "id", "", "")
	f.StringVar(&o.tier, "tier", "quick", "")
	f.StringVar(&o.yot, "yot", "", "")
	f.StringVar(&o.verif, "verif", "/verif", "")
	f.StringVar(&o.scratch, "scratch", "", "")
	f.IntVar(&o.shard, "shard", 0, "")
	f.IntVar(&o.n, "n", runtime.NumCPU(), "")
	f.IntVar(&o.start, "start", 0, "")
	f.IntVar(&o.forceCLI, "forcecli", -1, "")
	f.Int64Var(&o.seed, "seed", 1, "")
	f.DurationVar(&o.deadline, "deadline", 10*time.Minute, "")
	f.StringVar(&o.key, "key", "", "")
	f.Parse(args) //nolint

	return o
}

// every crossCLI-th in-process run is also decided on the binary
const crossCLI = 97

func workerMain(args []string) {
	o := parseOpts(args)
	proto := os.NewFile(uintptr(dupFd(1)), "proto")
	enc := json.NewEncoder(proto)

	fail := func(err error) {
		enc.Encode(report{Err: err.Error()}) //nolint
		os.Exit(4)
	}

	c := checks[o.id]

	known, err := loadFindings(o.verif)
	if err != nil {
		fail(err)
	}

	prog, err := os.OpenFile(filepath.Join(o.scratch, "progress"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fail(err)
	}

	r, err := newRunner(o.scratch, o.yot)
	if err != nil {
		fail(err)
	}

	debug.SetGCPercent(400)

	rep := report{Classes: map[string]int{}}
	x := &X{Thorough: o.tier == "thorough", Seed: o.seed, Extra: map[string]int{}, Sum: map[string]int{}, run: r}

	var busy atomic.Int64 // start time of the running in-process case

	go func() {
		for {
			time.Sleep(500 * time.Millisecond)

			if t := busy.Load(); t != 0 && time.Since(time.Unix(0, t)) > hangLimit {
				os.Exit(97)
			}
		}
	}()

	idx := -1
	viols := 0
	outs := map[uint64]struct{}{}
	began := time.Now()
	stop := false

	// left reports whether there is time left, and no other worker has found a violation
	left := func() bool {
		if !stop {
			_, err := os.Stat(filepath.Join(filepath.Dir(o.scratch), "stop"))
			stop = err == nil
		}

		return !stop && time.Since(began) < o.deadline
	}

	search := func(it *Item) {
		c, msg, res, err := it.Search(left)
		if err != nil {
			fail(fmt.Errorf("%s: %w", it.Key, err))
		}

		rep.Evaluated++
		rep.Classes[it.Class]++

		if len(rep.Samples) < 3 && res != nil {
			rep.Samples = append(rep.Samples, sampleText(it, res))
		}

		if c != nil {
			viols++

			enc.Encode(report{Viol: &violation{o.id, it.Key, msg, c, res, idx}}) //nolint

			if viols >= 2 && os.Getenv("VERIF_ALL") == "" {
				stop = true
			}
		}
	}

	x.under = underChecks[o.id]
	x.emit = func(build func() *Item) {
		idx++

		if stop || idx%o.n != o.shard || idx < o.start {
			return
		}

		if time.Since(began) > o.deadline {
			rep.Timeout = true
			stop = true

			return
		}

		if idx%256 == o.shard && !left() {
			return
		}

		it := build()
		if it == nil || it.Case == nil {
			return
		}

		if o.key != "" && it.Key != o.key {
			return
		}

		prog.WriteAt([]byte(fmt.Sprintf("%-20d", idx)), 0) //nolint

		if it.Search != nil {
			search(it)

			return
		}

		cli := it.CLI || idx == o.forceCLI

		judge := func(cli bool) (string, *Result) {
			if !cli {
				busy.Store(time.Now().UnixNano())
			}

			res, err := r.run(it.Case, cli)
			busy.Store(0)

			if err != nil {
				fail(fmt.Errorf("%s: %w", it.Key, err))
			}

			if cli {
				rep.CLIRuns++
			}

			for _, q := range append([]*Result{res}, res.Next...) {
				if q.Hang {
					return "the tool did not terminate", res
				}

				if q.Crashed() {
					return "the tool crashed: " + firstLine(q.Stderr, "panic:", "fatal error:"), res
				}
			}

			if it.Skip {
				return "", res
			}

			return it.Verify(res), res
		}

		msg, res := judge(cli)
		rep.Evaluated++
		rep.Classes[it.Class]++
		rep.Traces++
		rep.Steps += it.Trace
		outs[outcome(it, res)] = struct{}{}

		if it.Skip {
			rep.Unspecified++
		}

		if msg == "" && !cli && (rep.Evaluated%crossCLI == 1) {
			// the binary has to agree with the in-process run
			if m, res2 := judge(true); m != "" {
				msg, res, cli = m, res2, true
			}
		}

		if len(rep.Samples) < 3 && msg == "" {
			rep.Samples = append(rep.Samples, sampleText(it, res))
		}

		if msg == "" {
			return
		}

		// Confirm on the binary before reporting.
		confirmed := 0

		var cmsg string

		for k := 0; k < 5; k++ {
			if m, res2 := judge(true); m != "" {
				confirmed++
				cmsg, res = m, res2

				if confirmed >= 2 {
					break
				}
			}
		}

		if confirmed == 0 {
			enc.Encode(report{Unconfirmed: it.Key + ": " + msg}) //nolint

			return
		}

		v := &violation{o.id, it.Key, cmsg, it.Case, res, idx}
		if knownAs(known, v) == "" {
			viols++
		}

		enc.Encode(report{Viol: v}) //nolint

		if viols >= 6 && os.Getenv("VERIF_ALL") == "" {
			stop = true
		}
	}

	func() {
		defer func() {
			if p := recover(); p != nil {
				fail(fmt.Errorf("harness: %v\n%s", p, debug.Stack()))
			}
		}()

		c.Explore(x)

		for ; len(x.Later) > 0 && !stop; x.Later = x.Later[1:] {
			rep.Evaluated--
			rep.Classes[x.Later[0].Class]--
			search(x.Later[0])
		}
	}()

	rep.Done, rep.Total = true, idx+1
	rep.States, rep.Transitions, rep.Extra = x.States, x.Transitions, x.Extra
	rep.Sum = x.Sum

	for h := range outs {
		rep.Outcomes = append(rep.Outcomes, h)
	}

	enc.Encode(rep) //nolint
	os.Exit(0)
}

func dupFd(fd int) int {
	n, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}

	syscall.CloseOnExec(n)

	return n
}

func firstLine(s string, pats ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range pats {
			if strings.Contains(l, p) {
				return l
			}
		}
	}

	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}

	return s
}

func sampleText(it *Item, r *Result) string {
	var in []string
	for _, k := range sortedKeys(it.Case.Files) {
		in = append(in, k+": "+clip(it.Case.Files[k], 400))
	}

	return clip(fmt.Sprintf("%s | yot %s | %s | => exit %d, stdout %q", it.Key, strings.Join(it.Case.Args, " "), strings.Join(in, " ; "), r.Exit, clip(r.Stdout, 300)), 1500)
}

type finding struct {
	ID       string   `json:"id"`
	Property string   `json:"property"`
	What     string   `json:"what"`
	Keys     []string `json:"keys,omitempty"`     // items whose failure is this finding
	Fixed    string   `json:"fixed,omitempty"`    // commit
	Contains string   `json:"contains,omitempty"` // additionally, the violation's message must contain this
}

// knownAs returns the known finding a violation belongs to, if any.
func knownAs(known []finding, v *violation) string {
	for _, f := range known {
		if f.Property != v.Property || f.Fixed != "" || (f.Contains != "" && !strings.Contains(v.Message, f.Contains)) {
			continue
		}

		for _, k := range f.Keys {
			if k == v.Key {
				return f.ID
			}
		}
	}

	return ""
}

func loadFindings(verif string) ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}

	if err != nil {
		return nil, err
	}

	var f struct {
		Findings []finding `json:"findings"`
	}

	return f.Findings, json.Unmarshal(b, &f)
}

func checkMain(args []string) int {
	o := parseOpts(args)
	c := checks[o.id]

	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", o.id)

		return 3
	}

	known, err := loadFindings(o.verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 3
	}

	began := time.Now()
	base := o.scratch

	if base == "" {
		fmt.Fprintln(os.Stderr, "no scratch")

		return 3
	}

	exe, _ := os.Executable()

	var (
		mu    sync.Mutex
		viols []*violation
		reps  []*report
		unc   []string
		errs  []string
		wg    sync.WaitGroup
		died  int
	)

	for k := 0; k < o.n; k++ {
		wg.Add(1)

		go func(k int) {
			defer wg.Done()

			dir := filepath.Join(base, fmt.Sprintf("w%d", k))
			os.MkdirAll(dir, 0o755)     //nolint
			os.Chown(dir, 65534, 65534) //nolint

			start, force := 0, -1

			for tries := 0; tries < 40; tries++ {
				left := o.deadline - time.Since(began)
				if left < time.Second {
					left = time.Second
				}

				cmd := exec.Command(exe, "worker", "-id", o.id, "-tier", o.tier, "-yot", o.yot, "-scratch", dir,
					"-shard", strconv.Itoa(k), "-n", strconv.Itoa(o.n), "-start", strconv.Itoa(start),
					"-forcecli", strconv.Itoa(force), "-seed", strconv.FormatInt(o.seed, 10), "-deadline", left.String(), "-key", o.key)
				cmd.Dir = dir
				cmd.Env = []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "TZ=UTC", "VERIF_DEBUG=" + os.Getenv("VERIF_DEBUG")}
				if os.Getenv("VERIF_ALL") != "" {
					cmd.Env = append(cmd.Env, "VERIF_ALL=1")
				}

				if o.n > 1 {
					cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
				}

				if os.Getuid() == 0 {
					cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
				}

				errf, _ := os.Create(filepath.Join(base, fmt.Sprintf("w%d.err", k)))
				cmd.Stderr = errf
				out, err := cmd.StdoutPipe()

				if err == nil {
					err = cmd.Start()
				}

				if err != nil {
					mu.Lock()
					errs = append(errs, err.Error())
					mu.Unlock()

					return
				}

				done := false
				dec := json.NewDecoder(bufio.NewReader(out))

				for {
					var r report
					if err := dec.Decode(&r); err != nil {
						if err != io.EOF {
							io.Copy(io.Discard, out) //nolint
						}

						break
					}

					mu.Lock()

					switch {
					case r.Err != "":
						errs = append(errs, r.Err)
						done = true
					case r.Viol != nil:
						if len(viols) == 0 || knownAs(known, viols[0]) != "" {
							// one is enough: the other workers stop before long
							if knownAs(known, r.Viol) == "" && os.Getenv("VERIF_ALL") == "" {
								time.AfterFunc(5*time.Second, func() { os.WriteFile(filepath.Join(base, "stop"), nil, 0o644) }) //nolint
							}
						}

						viols = append(viols, r.Viol)
					case r.Unconfirmed != "":
						unc = append(unc, r.Unconfirmed)
					case r.Done:
						q := r
						reps = append(reps, &q)
						done = true
					}

					mu.Unlock()
				}

				cmd.Wait() //nolint
				errf.Close()

				if done {
					return
				}

				// The worker died in a case (panic in another goroutine, os.Exit, hang):
				// decide that case on the binary and go on behind it.
				b, _ := os.ReadFile(filepath.Join(dir, "progress"))
				p, perr := strconv.Atoi(strings.TrimSpace(string(b)))

				if perr != nil || p == force {
					e, _ := os.ReadFile(filepath.Join(base, fmt.Sprintf("w%d.err", k)))

					mu.Lock()
					errs = append(errs, fmt.Sprintf("worker %d died repeatedly at %q: %s", k, b, clip(string(e), 2000)))
					mu.Unlock()

					return
				}

				mu.Lock()
				died++
				nv := len(viols)
				mu.Unlock()

				if nv >= 12 && os.Getenv("VERIF_ALL") == "" {
					return
				}

				start, force = p, p
			}

			mu.Lock()
			if len(viols) == 0 {
				e, _ := os.ReadFile(filepath.Join(base, fmt.Sprintf("w%d.err", k)))
				errs = append(errs, fmt.Sprintf("worker %d died too often: %s", k, clip(string(e), 2000)))
			}
			mu.Unlock()
		}(k)
	}

	wg.Wait()

	sort.Slice(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })

	// Sort violations into known findings and new ones.
	var fresh []*violation

	hits := map[string]int{}

	for _, v := range viols {
		id := knownAs(known, v)

		if id == "" {
			fresh = append(fresh, v)
		} else {
			hits[id]++
		}
	}

	sum := report{Classes: map[string]int{}, Extra: map[string]int{}, Sum: map[string]int{}}
	total := 0
	timeout := false
	outs := map[uint64]struct{}{}

	for _, r := range reps {
		sum.Evaluated += r.Evaluated
		sum.CLIRuns += r.CLIRuns
		sum.Traces += r.Traces
		sum.Steps += r.Steps
		sum.Unspecified += r.Unspecified
		timeout = timeout || r.Timeout || r.Sum["unfinished"] > 0

		for _, h := range r.Outcomes {
			outs[h] = struct{}{}
		}

		if r.Total > total {
			total = r.Total
		}

		for k, n := range r.Classes {
			sum.Classes[k] += n
		}

		if r.States > sum.States {
			sum.States = r.States
		}

		if r.Transitions > sum.Transitions {
			sum.Transitions = r.Transitions
		}

		for k, n := range r.Sum {
			sum.Sum[k] += n
		}

		for k, n := range r.Extra {
			if n > sum.Extra[k] {
				sum.Extra[k] = n
			}
		}

		if len(sum.Samples) < 5 && len(r.Samples) > 0 {
			sum.Samples = append(sum.Samples, r.Samples[0])
		}
	}

	kind := "states and transitions of the reference model's breadth-first exploration; every transition is executed on the implementation"

	if n := sum.Sum["schedules"]; n > 0 {
		kind = "states: scheduler states (executed prefixes of schedules) visited on the implementation; transitions: visible operations executed"
		sum.States, sum.Transitions = sum.Sum["prefixes"], sum.Sum["operations"]
		sum.CLIRuns += n
		sum.Traces += n
	} else if sum.States == 0 {
		// no explicit state graph: the bounded space of runs is enumerated directly on the implementation
		kind = "states: distinct observable end states (exit status, stdout, stderr of failures, files) reached by the implementation; transitions: overlay steps, or runs, executed on it"
		sum.States, sum.Transitions = len(outs), max(sum.Steps, sum.Evaluated)
	}

	complete := len(errs) == 0 && len(reps) == o.n && !timeout && o.key == ""

	cov := map[string]interface{}{
		"items":                         total,
		"evaluations":                   sum.Evaluated,
		"binary_runs":                   sum.CLIRuns,
		"unspecified_crash_only":        sum.Unspecified,
		"classes":                       sum.Classes,
		"rule":                          c.Rule,
		"samples":                       sum.Samples,
		"exhaustive":                    complete,
		"worker_restarts":               died,
		"traces_validated_against_impl": sum.Traces,
		"states":                        sum.States,
		"states_are":                    kind,
		"distinct_outcomes":             len(outs),
		"transitions":                   sum.Transitions,
		"distinct_nontrivial":           sum.Evaluated - sum.Unspecified,
	}

	if c.Level == "model_checking" {
		delete(cov, "distinct_nontrivial")
	} else {
		delete(cov, "states")
		delete(cov, "transitions")
		delete(cov, "traces_validated_against_impl")
	}

	for k, n := range sum.Extra {
		cov[k] = n
	}

	for k, n := range sum.Sum {
		cov[k] = n
	}

	if sum.Steps > 0 {
		cov["overlay_steps_replayed"] = sum.Steps
	}

	ev := map[string]interface{}{
		"property": o.id, "tier": o.tier, "seed": o.seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assume, "wall_s": time.Since(began).Seconds(), "violations": len(fresh),
	}

	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755) //nolint

	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 3
	}

	for _, u := range unc {
		fmt.Printf("note: not confirmed on the binary: %s\n", clip(u, 500))
	}

	for _, f := range known {
		if hits[f.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", o.id, f.ID, f.What)
		}
	}

	fmt.Printf("%s %s: %d items, %d runs (%d on the binary), %d states, %d transitions, %d unspecified, complete=%v, %.1fs\n",
		o.id, o.tier, total, sum.Evaluated, sum.CLIRuns, sum.States, sum.Transitions, sum.Unspecified, complete, time.Since(began).Seconds())

	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(o.verif, "replays"), 0o755) //nolint

		for i, v := range fresh {
			if i >= 3 && os.Getenv("VERIF_ALL") == "" {
				fmt.Printf("... and %d more\n", len(fresh)-i)

				break
			}

			p := filepath.Join(o.verif, "replays", fmt.Sprintf("%s-%d.json", o.id, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644) //nolint
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", o.id, p, v.Key, clip(v.Message, 1500))
		}

		return 1
	}

	if len(errs) > 0 {
		fmt.Fprintf(os.Stderr, "check error (%d workers): %s\n", len(errs), errs[0])

		return 3
	}

	return 0
}

// replayMain re-runs the case of a replay file on the binary and shows the outcome.
func replayMain(args []string) int {
	o := parseOpts(args[1:])

	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 3
	}

	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 3
	}

	dir := filepath.Join(o.scratch, "replay")
	os.MkdirAll(dir, 0o755) //nolint

	// find the item again: its verdict function is part of the enumeration
	o.id = v.Property
	fmt.Printf("property %s\nitem %s\nrecorded: %s\n", v.Property, v.Key, v.Message)

	for _, k := range sortedKeys(v.Case.Files) {
		fmt.Printf("--- %s\n%s\n", k, v.Case.Files[k])
	}

	fmt.Printf("--- yot %q env %v\n", v.Case.Args, v.Case.Env)

	return checkMain([]string{"-id", v.Property, "-tier", "thorough", "-yot", o.yot, "-verif", dir, "-scratch", o.scratch, "-key", v.Key})
}
