//go:build go1.22

package main

import (
	"fmt"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"time"
)

// C01: the tool runs as a process of its own whose goroutines are scheduled
// one at a time, see std/sched.py. The schedules of a configuration are
// explored without storing states, by dynamic partial-order reduction
// (Flanagan and Godefroid) with sleep sets, or up to a number of delays (Emmi,
// Qadeer and Rakamaric).

const (
	opSend    = 1
	opRecv    = 2
	opClose   = 3
	opSelect  = 4
	opWgAdd   = 7
	opExit    = 16
	opTrySend = 18
	opTryRecv = 19
)

var opNames = []string{"?", "send", "recv", "close", "select", "lock", "unlock", "wg.Add", "wg.Wait", "cond", "rlock", "runlock", "read", "write", "atomic", "gosched", "exit", "relock", "trysend", "tryrecv"}

type schedOp struct {
	kind int
	objs []uint64 // lowest bit: write
}

// commute says whether operations of these kinds on the same object need not
// be tried in either order. A send and a receive that may block lead to the
// same state in either order, whatever the state, as waiters are served in
// order, and so do a receive that may block and the channel being closed.
// Additions to a wait group, positive or negative, do so unless a
// waiter is released in between; then the order in which the waiter comes
// right before or after that addition is an equivalent one, as it was blocked
// all the time, and in it no waiter is there.
func commute(a, b int) bool {
	return (a == opSend || a == opClose) && b == opRecv || a == opWgAdd && b == opWgAdd
}

func (a schedOp) dependent(b schedOp) bool {
	if a.kind == opExit || b.kind == opExit {
		return true
	}

	if commute(a.kind, b.kind) || commute(b.kind, a.kind) {
		return false
	}

	for _, x := range a.objs {
		for _, y := range b.objs {
			if x&^1 == y&^1 && (x|y)&1 != 0 {
				return true
			}
		}
	}

	return false
}

type schedEvent struct {
	id          int // 0: choice k of n
	k, n        int
	op          schedOp
	pend, sleep uint64
}

type schedTrace struct {
	events    []schedEvent
	edges     map[int][]int // event at which a goroutine was started or woken -> goroutines
	final     map[int]schedOp
	redundant int  // everything from this event on is redundant, -1 if nothing
	alive     int  // goroutines left at exit
	limit     bool // too many operations or goroutines to control them all
}

func parseSched(s string) (*schedTrace, error) {
	t := &schedTrace{edges: map[int][]int{}, final: map[int]schedOp{}, redundant: -1}
	ended := false

	num := func(f []string, i int) uint64 {
		if i >= len(f) {
			return 0
		}

		n, _ := strconv.ParseUint(f[i], 10, 64)

		return n
	}

	for _, l := range strings.Split(s, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}

		switch f[0] {
		case "E":
			e := schedEvent{id: int(num(f, 1)), pend: num(f, 3), sleep: num(f, 4)}
			if e.id == 0 {
				e.k, e.n = int(num(f, 2)), int(num(f, 5))
			} else {
				e.op.kind = int(num(f, 2))
				for i := 0; i < int(num(f, 5)); i++ {
					e.op.objs = append(e.op.objs, num(f, 6+i))
				}
			}

			t.events = append(t.events, e)
		case "W":
			t.edges[int(num(f, 2))] = append(t.edges[int(num(f, 2))], int(num(f, 1)))
		case "P":
			t.alive++

			if num(f, 2) == 5 {
				o := schedOp{kind: int(num(f, 3))}
				for i := 0; i < int(num(f, 4)); i++ {
					o.objs = append(o.objs, num(f, 5+i))
				}

				t.final[int(num(f, 1))] = o
			}
		case "X":
			ended = true
			t.redundant = int(num(f, 1)) - 1

			if fl := num(f, 2); fl == 1 {
				t.limit = true
			} else if fl != 0 {
				return t, fmt.Errorf("scheduler flags %d", fl)
			}
		}
	}

	if !ended {
		return nil, nil
	}

	return t, nil
}

func (t *schedTrace) String() string {
	var b strings.Builder

	names := map[uint64]string{}

	for _, e := range t.events {
		if e.id == 0 {
			fmt.Fprintf(&b, " choice %d/%d", e.k, e.n)

			continue
		}

		if e.pend == 1<<uint(e.id) {
			continue // nothing else could run
		}

		fmt.Fprintf(&b, " g%d:%s", e.id, opNames[min(e.op.kind, len(opNames)-1)])

		for _, o := range e.op.objs {
			if names[o&^1] == "" {
				names[o&^1] = fmt.Sprintf("%c", 'A'+len(names)%26)
			}

			b.WriteString("(" + names[o&^1] + ")")
		}
	}

	return strings.TrimSpace(b.String())
}

// node is a state on the current path.
type schedNode struct {
	id, k, n  int // chosen goroutine, or choice k of n
	pend      uint64
	ops       map[int]schedOp // of the pending goroutines
	backtrack uint64
	done      uint64
	sleep     uint64
	delays    int // on the path up to here
}

type explorer struct {
	run   func(script string) (*schedTrace, string, *Result, error) // "" if the property holds
	left  func() bool
	bound int  // delays; -1: all schedules, by partial-order reduction
	max   int  // schedules, 0: no limit
	limit bool // the run is too large

	schedules, redundant, prefixes, operations, unfinished, deepest int
	violation                                                       string // its script
	path                                                            []*schedNode
}

func (x *explorer) script(sleep uint64) string {
	var b strings.Builder

	b.WriteString("0") // never empty

	s := b.String()[:0]

	var p []string

	for _, n := range x.path {
		if n.n > 0 {
			p = append(p, "="+strconv.Itoa(n.k))
		} else {
			p = append(p, strconv.Itoa(n.id))
		}
	}

	s += strings.Join(p, ",") + ";"

	for m := sleep; m != 0; m &= m - 1 {
		s += strconv.Itoa(bits.TrailingZeros64(m)) + ","
	}

	return s
}

// explore returns the violation found, if any.
func (x *explorer) explore() (string, *Result, error) {
	var (
		first *Result
		sleep uint64
	)

	for {
		if !x.left() || (x.max > 0 && x.schedules >= x.max) {
			x.unfinished++

			return "", first, nil
		}

		sc := x.script(sleep)

		t, msg, res, err := x.run(sc)
		if err != nil {
			return "", nil, fmt.Errorf("schedule %s: %w", clip(sc, 300), err)
		}

		x.schedules++

		if first == nil {
			first = res
		}

		if msg != "" {
			x.violation = sc

			return msg, res, nil
		}

		if t.limit {
			x.unfinished++
			x.limit = true

			return "", first, nil
		}

		x.operations += len(t.events)
		x.deepest = max(x.deepest, len(t.events))

		n := len(t.events)
		if t.redundant >= 0 {
			x.redundant++
			n = t.redundant
		}

		// the replayed prefix has to be the same
		for i, nd := range x.path {
			if i >= len(t.events) {
				return "", nil, fmt.Errorf("schedule %s: ends after %d of %d operations", clip(sc, 300), len(t.events), len(x.path))
			}

			if e := t.events[i]; e.id != nd.id || e.n != nd.n || e.k != nd.k || e.pend != nd.pend {
				return "", nil, fmt.Errorf("schedule %s: operation %d is not the same when replayed: %+v, %+v", clip(sc, 300), i, e, nd)
			}
		}

		from := len(x.path)
		ops := t.pendingOps()

		for i := from; i < n; i++ {
			e := t.events[i]
			nd := &schedNode{id: e.id, k: e.k, n: e.n, pend: e.pend, sleep: e.sleep, ops: ops[i]}

			if e.id != 0 {
				nd.backtrack = 1 << uint(e.id)
			}

			x.path = append(x.path, nd)
			x.charge(i)
		}

		x.prefixes += max(0, n-from)

		if x.bound < 0 {
			x.races(t, ops, from-1, n) // the last one of the prefix is new, too
		} else {
			for i := from; i < n; i++ {
				x.path[i].backtrack = x.path[i].pend
			}
		}

		// next: the deepest state with something left to try
		more := false

		for len(x.path) > 0 && !more {
			i := len(x.path) - 1
			nd := x.path[i]

			if nd.n > 0 {
				if nd.k+1 < nd.n {
					nd.k++
					more, sleep = true, nd.sleep

					break
				}

				x.path = x.path[:i]

				continue
			}

			nd.done |= 1 << uint(nd.id)

			for todo := nd.backtrack &^ nd.done &^ nd.sleep; todo != 0; todo &= todo - 1 {
				q := bits.TrailingZeros64(todo)

				if x.bound >= 0 {
					nd.id = q
					if x.charge(i); nd.delays > x.bound {
						nd.done |= 1 << uint(q)

						continue
					}

					more, sleep = true, 0

					break
				}

				sleep = 0

				for m := (nd.sleep | nd.done) & nd.pend; m != 0; m &= m - 1 {
					r := bits.TrailingZeros64(m)
					if r != q && !nd.ops[r].dependent(nd.ops[q]) {
						sleep |= 1 << uint(r)
					}
				}

				nd.id = q
				more = true

				break
			}

			if !more {
				x.path = x.path[:i]
			}
		}

		if !more {
			return "", first, nil
		}
	}
}

func (x *explorer) charge(i int) {
	x.path[i].delays = x.delays(i)
	if i > 0 {
		x.path[i].delays += x.path[i-1].delays
	}
}

// delays says how far the choice at path[i] is from that of the scheduler that
// lets a goroutine go on until it blocks and then takes the one started first.
func (x *explorer) delays(i int) int {
	nd, prev := x.path[i], 0

	for j := i - 1; j >= 0 && prev == 0; j-- {
		prev = x.path[j].id
	}

	if nd.n > 0 || nd.id == prev {
		return 0
	}

	last := uint64(1<<uint(prev)) & nd.pend &^ 1
	n := bits.OnesCount64(nd.pend &^ last & (1<<uint(nd.id) - 1))

	if last != 0 {
		n++
	}

	return n
}

// pendingOps gives, for every event, the operations of the goroutines pending then.
func (t *schedTrace) pendingOps() []map[int]schedOp {
	next := map[int]schedOp{}
	for g, o := range t.final {
		next[g] = o
	}

	out := make([]map[int]schedOp, len(t.events))

	for i := len(t.events) - 1; i >= 0; i-- {
		e := t.events[i]
		if e.id == 0 {
			continue
		}

		next[e.id] = e.op
		m := map[int]schedOp{}

		for p := e.pend; p != 0; p &= p - 1 {
			g := bits.TrailingZeros64(p)
			m[g] = next[g]
		}

		out[i] = m
	}

	return out
}

// races adds backtracking points for the pairs of dependent operations of
// different goroutines that are not otherwise ordered.
func (x *explorer) races(t *schedTrace, ops []map[int]schedOp, from, n int) {
	// clock[i][g]: the last event of g (plus one) that happens before event i, or is it
	clock := make([][]int32, n)
	cur := map[int][]int32{}
	width := 0

	for i := 0; i < n; i++ {
		for p := t.events[i].pend; p != 0; p &= p - 1 {
			width = max(width, bits.TrailingZeros64(p)+1)
		}
	}

	join := func(a, b []int32) {
		for g := range b {
			if b[g] > a[g] {
				a[g] = b[g]
			}
		}
	}

	get := func(g int) []int32 {
		if cur[g] == nil {
			cur[g] = make([]int32, width)
		}

		return cur[g]
	}

	before := func(j int, c []int32) bool { return int(c[t.events[j].id]) > j }

	// race handles the operation of p that comes at (or is pending from) i, given
	// p's clock before it; it returns the clock with it.
	race := func(i, p int, op schedOp, c []int32, add bool) []int32 {
		out := append([]int32{}, c...)

		// from the latest on: what happens before a later racing event is not immediate
		for j := i - 1; j >= 0; j-- {
			e := t.events[j]
			if e.id == 0 || e.id == p || !e.op.dependent(op) {
				continue
			}

			if !before(j, out) && add {
				x.backtrackAt(t, clock, j, i, p, c)
			}

			join(out, clock[j])
		}

		return out
	}

	// the k-th receive gets the value of the k-th send
	type chanOps struct{ sends, recvs, closes []int }

	chans := map[uint64]*chanOps{}
	mixed := map[uint64]bool{}

	for _, e := range t.events {
		if e.op.kind == opSelect || e.op.kind == opTrySend || e.op.kind == opTryRecv {
			for _, o := range e.op.objs {
				mixed[o] = true
			}
		}
	}

	for i := 0; i < n; i++ {
		e := t.events[i]

		if e.id == 0 {
			clock[i] = make([]int32, width)
		} else {
			c := race(i, e.id, e.op, get(e.id), i >= from)
			c[e.id] = int32(i + 1)
			cur[e.id] = append([]int32{}, c...)
			clock[i] = c
		}

		if (e.op.kind == opSend || e.op.kind == opRecv || e.op.kind == opClose) && e.id != 0 && !mixed[e.op.objs[0]] {
			h := chans[e.op.objs[0]]
			if h == nil {
				h = &chanOps{}
				chans[e.op.objs[0]] = h
			}

			switch e.op.kind {
			case opSend:
				h.sends = append(h.sends, i)
			case opClose:
				h.closes = append(h.closes, i)
			default:
				h.recvs = append(h.recvs, i)

				// a receive that comes first is woken by the send, see edges
				if k := len(h.recvs); k <= len(h.sends) {
					join(cur[e.id], clock[h.sends[k-1]])
				} else if len(h.closes) > 0 {
					join(cur[e.id], clock[h.closes[0]])
				}
			}
		}

		// started or woken by this event
		if e.id != 0 {
			for _, g := range t.edges[i+1] {
				if g < width {
					join(get(g), clock[i])
				}
			}
		}
	}

	// those still pending
	rest := t.final
	if n < len(t.events) {
		rest = ops[n]
	}

	for g, o := range rest {
		if g < width {
			race(n, g, o, get(g), true)
		}
	}
}

// backtrackAt has p's operation, which comes at i, tried before event j (a
// source set, see Abdulla et al.); c is p's clock before it.
func (x *explorer) backtrackAt(t *schedTrace, clock [][]int32, j, i, p int, c []int32) {
	nd := x.path[j]
	gj := t.events[j].id

	// what does not come after j, up to i, and which goroutines can be first in it
	var v []int

	var initials uint64

	hb := func(k int, c []int32) bool { return int(c[t.events[k].id]) > k }

	for k := j + 1; k < i && k < len(clock); k++ {
		e := t.events[k]
		if e.id == 0 || int(clock[k][gj]) > j {
			continue
		}

		first := true

		for _, l := range v {
			first = first && !hb(l, clock[k])
		}

		if first {
			initials |= 1 << uint(e.id)
		}

		v = append(v, k)
	}

	first := true

	for _, l := range v {
		first = first && !hb(l, c)
	}

	if first {
		initials |= 1 << uint(p)
	}

	initials &= nd.pend

	switch {
	case initials&nd.backtrack != 0:
	case initials&(1<<uint(p)) != 0:
		nd.backtrack |= 1 << uint(p)
	case initials != 0:
		nd.backtrack |= initials & -initials
	default:
		nd.backtrack = nd.pend
	}
}

// firstSchedules of a configuration are explored before going deeper in any.
const firstSchedules = 40

type schedConf struct {
	key, class string
	c          *Case
	exp        *Exp // nil: the outcome of every schedule is that of the first one
	bound      int  // delays; -1: all schedules
	plain      bool // without the race detector
	again      bool // after the first schedules of all configurations
}

// sameOutcome compares what a user sees of two runs.
func sameOutcome(a, b *Result) string {
	switch {
	case (a.Exit == 0) != (b.Exit == 0):
		return fmt.Sprintf("exit status %d under this schedule, %d under another: %s%s", b.Exit, a.Exit, clip(a.Stderr, 300), clip(b.Stderr, 300))
	case a.Stdout != b.Stdout && a.Exit == 0:
		return fmt.Sprintf("stdout %q under this schedule, %q under another", clip(b.Stdout, 500), clip(a.Stdout, 500))
	}

	for f, t := range a.Files {
		if b.Files[f] != t {
			return fmt.Sprintf("file %s: %q under this schedule, %q under another", f, clip(b.Files[f], 300), clip(t, 300))
		}
	}

	for f := range b.Files {
		if _, ok := a.Files[f]; !ok {
			return "file " + f + " is only written under this schedule"
		}
	}

	return ""
}

func (cf schedConf) item(x *X) *Item {
	c := cf.c
	it := &Item{Key: cf.key, Class: cf.class, Case: c}

	it.Search = func(left func() bool) (*Case, string, *Result, error) {
		var first *Result

		began := time.Now()
		rot := 0

		judge := func(script string) (*schedTrace, string, *Result, error) {
			k := *c
			k.Sched, k.Race, k.Rot = script, !cf.plain, rot

			res, rerr := x.run.run(&k, true)
			if rerr != nil {
				return nil, "", nil, rerr
			}

			t, terr := parseSched(res.Sched)

			switch {
			case res.Hang:
				return t, "the tool did not terminate", res, nil
			case strings.Contains(res.Stderr, "all goroutines are asleep"):
				return t, "deadlock: " + firstLine(res.Stderr, "fatal error:"), res, nil
			case strings.Contains(res.Stderr, "WARNING: DATA RACE"):
				return t, "data race: " + clip(res.Stderr, 1200), res, nil
			case res.Crashed():
				return t, "the tool crashed: " + firstLine(res.Stderr, "panic:", "fatal error:"), res, nil
			case terr != nil:
				return nil, "", res, terr
			case t == nil:
				return nil, "", res, fmt.Errorf("no trace; exit %d: %s", res.Exit, res.Stderr)
			}

			if first == nil {
				first = res
			}

			msg := sameOutcome(first, res)

			if msg == "" && cf.exp != nil {
				msg = cf.exp.verify(c, res)
			}

			return t, msg, res, nil
		}

		run := func(script string) (*schedTrace, string, *Result, error) {
			t, msg, res, err := judge(script)
			if msg == "" || err != nil {
				return t, msg, res, err
			}

			// again, to be sure
			_, msg2, _, err := judge(script)
			if err == nil && msg2 == "" {
				err = fmt.Errorf("not the same when replayed: %s", msg)
			}

			if t != nil && err == nil {
				msg += "\nschedule: " + clip(t.String(), 1500)
			}

			return t, msg, res, err
		}

		count := func(e *explorer) {
			x.Sum["schedules"] += e.schedules
			x.Sum["redundant_schedules"] += e.redundant
			x.Sum["prefixes"] += e.prefixes
			x.Sum["operations"] += e.operations
			x.Sum["most_operations"] = max(x.Sum["most_operations"], e.deepest)

			if f, err := os.OpenFile(os.Getenv("VERIF_DEBUG"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o600); err == nil {
				fmt.Fprintf(f, "%s: %d unfinished, %d schedules, %d redundant, %.1f s\n", cf.key, e.unfinished, e.schedules, e.redundant, time.Since(began).Seconds())
			}
		}

		// first a few schedules of every configuration; those that have more come later
		e := &explorer{run: run, left: left, bound: cf.bound, max: firstSchedules}
		if cf.again {
			e.max = 4000
			if x.Thorough {
				e.max = 0
			}
		}

		msg, res, serr := e.explore()
		count(e)

		if e.unfinished > 0 && !cf.again && !e.limit && serr == nil && msg == "" {
			// these are spread over the whole run
			e = &explorer{run: run, left: left, bound: 1, max: firstSchedules}
			msg, res, serr = e.explore()
			count(e)

			if serr == nil && msg == "" {
				full := cf
				full.again = true
				x.Later = append(x.Later, full.item(x))

				return nil, "", res, nil
			}
		}

		// nor does the order in which maps are iterated matter
		for r := 1; r < 8 && serr == nil && msg == ""; r++ {
			rot = r
			_, msg, res, serr = run(";")
			x.Sum["map_orders"]++
		}

		x.Sum["unfinished"] += e.unfinished

		if serr != nil || msg == "" {
			return nil, "", res, serr
		}

		k := *c
		k.Sched, k.Race, k.Rot = e.violation, !cf.plain, rot

		if k.Sched == "" {
			k.Sched = ";"
		}

		return &k, msg, res, nil
	}

	return it
}

func schedSpec(key, class string, sp *Spec) schedConf {
	cf := schedConf{key: key, class: class, c: sp.toCase(), bound: -1}

	if e, err := sp.predict(); err == nil {
		cf.exp = &e
	}

	return cf
}

// selfTests are the programs of std/selftest with their possible outcomes.
var selfTests = map[string][]string{
	"update": {"1", "2"}, "locks": {"deadlock", "done"}, "senders": {"abc", "acb", "cab"}, "buffer": {"abc", "acb", "cab"},
	"receivers": {"1a2b", "1b2a", "2a1b", "2b1a"}, "select": {"cd", "dc"}, "default": {"got", "none"}, "late": {"0", "1"}, "more": {"ab", "ba"},
	"again": {"abw", "baw", "awb"}, "exit": {"m", "mx", "mxy", "xm", "xmy", "xym"}, "perm": {"abc", "acb", "bac", "bca", "cab", "cba"},
	"files": {"aabb", "abab", "abba", "bbaa", "baba", "baab"}, "rw": {"0", "1", "2"}, "once": {"a", "b"}, "atomic": {"1", "2"}, "cond": {"ok", "okw"}, "missed": {"ok", "deadlock"},
	"try": {"got", "busy"}, "race": {"race"}, "rare": {"race", "ok"}, "clean": {"3"},
}

// selfTest explores one of these programs with the partial-order reduction,
// which has to find the outcomes known, and up to three delays, which must
// not find others. Any other result is a defect
// of the machinery, not of the tool.
func selfTest(x *X, name string) *Item {
	c := &Case{Args: []string{name}}
	it := &Item{Key: "selftest|" + name, Class: "self test of the explorer", Case: c}

	it.Search = func(left func() bool) (*Case, string, *Result, error) {
		want := map[string]bool{}
		for _, o := range selfTests[name] {
			want[o] = true
		}

		var last *Result

		for _, bound := range []int{-1, 3} {
			got := map[string]bool{}
			e := &explorer{left: left, bound: bound, max: 20000, run: func(script string) (*schedTrace, string, *Result, error) {
				k := *c
				k.Sched, k.Prog, k.Race = script, "self", want["race"]

				res, err := x.run.run(&k, true)
				if err != nil {
					return nil, "", nil, err
				}

				last = res
				t, err := parseSched(res.Sched)

				switch {
				case strings.Contains(res.Stderr, "DATA RACE"):
					got["race"] = true
				case strings.Contains(res.Stderr, "all goroutines are asleep"):
					got["deadlock"] = true
				case err != nil || t == nil:
					return nil, "", nil, fmt.Errorf("no trace: %v %d %s", err, res.Exit, res.Stderr)
				default:
					got[strings.TrimSpace(res.Stdout)] = true
				}

				return t, "", res, nil
			}}

			if _, _, err := e.explore(); err != nil {
				return nil, "", nil, err
			}

			if bound < 0 {
				if e.unfinished > 0 && left() {
					return nil, "", nil, fmt.Errorf("more than %d schedules", e.schedules)
				}

				x.Sum["selftest_schedules"] += e.schedules
			} else {
				x.Sum["selftest_schedules_bounded"] += e.schedules
			}

			if !left() {
				return nil, "", last, nil
			}

			for o := range want {
				if !got[o] && bound < 0 {
					return nil, "", nil, fmt.Errorf("outcome %s not found in %d schedules, bound %d: %v", o, e.schedules, bound, sortedKeys(got))
				}
			}

			for o := range got {
				if !want[o] {
					return nil, "", nil, fmt.Errorf("unexpected outcome %q, bound %d", o, bound)
				}
			}
		}

		return nil, "", last, nil
	}

	return it
}

const schedDoc = "log: d%d\nm: {x: 1}\nl: [1]\nn: null\ni: 1\nt: true\n"

func schedDocs(n int) string {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, fmt.Sprintf(schedDoc, i))
	}

	return strings.Join(p, "---\n")
}

// schedOvs are overlays that, applied to several files at once, would show state they share.
func schedOvs() []Ov {
	inj := ov("merge", "new.k", "{deep: {er: [1, {s: t}]}}")
	inj.OM = "inject"
	path := ov("replace", "..nothing", "{p: [q]}")
	path.OM, path.IP = "inject", []string{"made.up", "made.too"}
	cond := combineOv("log", "' cond'")
	cond.HasDQ, cond.DQ = true, [][]Cond{{{Q: []string{"log"}, HasV: true, Val: "d0"}}}
	idx := combineOv("log", "' idx'")
	idx.HasIx, idx.Idx = true, []int{2, 1}
	def := ov("merge", "def.ault", "{z: [1]}")
	list := ov("merge", "m", "{w: [{v: 1}]}")
	list.Q = append(list.Q, "l[*]")
	where := ov("replace", "l", "[{k: 1}]")
	where.HasDQ, where.DQ = true, [][]Cond{{{Q: []string{"log"}, HasV: true, Val: "zz"}}, {{Q: []string{"m", "no"}}}}

	return []Ov{
		combineOv("log", "' c'"), ov("merge", "m", "{y: {z: [1, 2]}}"), ov("merge", "m.y.z", "[3]"), ov("merge", "l", "[{q: {r: 1}}]"), ov("merge", "l[*]", "{q: {s: 2}}"),
		replaceOv("n", "{a: &x {b: 1}, c: *x}"), ov("merge", "n.c", "{b: 2, d: 3}"), ov("delete", "m.x", ""), inj, path, cond, idx, def, ov("delete", "$", ""),
		combineOv("i", "0x10"), combineOv("t", "true"), ov("merge", "i", "2.50"), ov("merge", "..x", "~"), ov("replace", "m~", "mm"), ov("delete", "l[0]", ""), ov("replace", "..*", "{a: {b: [c]}}"), list, where, ov("merge", "$", "{m: {x: {deep: er}}, new: {}}"), ov("merge", "m", "[1]"),
	}
}

// schedTree gives n files with d documents each and entries for them.
func schedTree(n, d int) (map[string]string, []Ent) {
	m := map[string]string{}

	var es []Ent

	for i := 0; i < n; i++ {
		f := fmt.Sprintf("m/%c.yaml", 'a'+i)
		m["w/"+f] = schedDocs(d)
		es = append(es, Ent{Path: f})
	}

	return m, es
}

func exploreC01(x *X) {
	for _, n := range sortedKeys(selfTests) {
		x.Do(func() *Item { return selfTest(x, n) })
	}

	do := func(key, class string, sp *Spec, mod func(*schedConf)) {
		x.Do(func() *Item {
			cf := schedSpec(key, class, sp)
			if mod != nil {
				mod(&cf)
			}

			return cf.item(x)
		})
	}

	bounded := func(b int, plain bool) func(*schedConf) {
		return func(cf *schedConf) { cf.bound, cf.plain = b, plain }
	}

	// numbers of files, documents and overlays
	most := 4
	if x.Thorough {
		most = 6
	}

	for n := 1; n <= most; n++ {
		for docs := 1; docs <= 3; docs++ {
			for ovs := 0; ovs <= 3; ovs++ {
				if n > 3 && docs*ovs > 8-n {
					continue
				}

				fs, es := schedTree(n, docs)
				t := tracer{}
				do(fmt.Sprintf("size|%d|%d|%d", n, docs, ovs), "all schedules, numbers of files, documents and overlays", &Spec{Files: fs, Ins: &Ins{Common: t.ovs(ovs), Ents: es}, Std: docs != 2}, func(cf *schedConf) { cf.plain = n > 3 })
			}
		}
	}

	// more files, up to a number of delays
	type size struct{ n, bound int }

	sizes := []size{{4, 3}, {6, 2}, {8, 1}, {18, 0}}
	if x.Thorough {
		sizes = []size{{4, 5}, {6, 4}, {8, 3}, {12, 2}, {18, 1}}
	}

	for _, z := range sizes {
		for _, std := range []bool{true, false} {
			fs, es := schedTree(z.n, 1)
			t := tracer{}
			do(fmt.Sprintf("many|%d|%d|%v", z.n, z.bound, std), "many files", &Spec{Files: fs, Ins: &Ins{Common: t.ovs(1), Ents: es}, Std: std}, bounded(z.bound, true))
		}
	}

	// many documents and overlays: what is queued between the goroutines
	for _, z := range [][2]int{{12, 1}, {1, 12}, {7, 3}, {40, 2}, {3, 40}, {130, 1}} {
		for n := 1; n <= 2; n++ {
			if n == 2 && z[0]*z[1] > 40 && !x.Thorough {
				continue
			}

			fs, es := schedTree(n, z[0])
			t := tracer{}
			do(fmt.Sprintf("long|%d|%d|%d", n, z[0], z[1]), "many documents and overlays", &Spec{Files: fs, Ins: &Ins{Common: t.ovs(z[1]), Ents: es}, Std: n == 2}, func(cf *schedConf) { cf.plain = z[0]*z[1] > 40 })
		}
	}

	// failures in every subset of the files, in either document
	bad := combineOv("m", "1")

	fails := 3
	if x.Thorough {
		fails = 4
	}

	for n := 1; n <= fails; n++ {
		for set := 0; set < 1<<(2*n); set++ {
			if n == 3 && bits.OnesCount(uint(set)) > 2 && set != 21 && set != 63 && !x.Thorough {
				continue
			}

			// the overlay that fails is the last one, or others are waiting behind it
			for more := 0; more < 2; more++ {
				if n > 2 && more != set%2 && !x.Thorough {
					continue
				}

				fs, es := schedTree(n, 2)
				t := tracer{}

				for i := range es {
					for k := 0; k < 2; k++ {
						if set>>(2*i+k)&1 != 0 {
							es[i].Docs = append(es[i].Docs, DocEnt{Path: k, Ovs: append([]Ov{bad}, t.ovs(2*more)...)})
						}
					}
				}

				do(fmt.Sprintf("fail|%d|%d|%d", n, set, more), "failures", &Spec{Files: fs, Ins: &Ins{Common: t.ovs(1), Ents: es}, Std: set%3 == 0}, nil)
			}
		}
	}

	// everything fails
	for n := 1; n <= 3; n++ {
		for docs := 1; docs <= 2; docs++ {
			fs, es := schedTree(n, docs)
			t := tracer{}
			do(fmt.Sprintf("allfail|%d|%d", n, docs), "failures", &Spec{Files: fs, Ins: &Ins{Common: append([]Ov{bad}, t.ovs(2)...), Ents: es}, Std: docs == 2}, nil)
		}
	}

	// more of them, up to a number of delays
	for _, n := range []int{5, 6, 9, 12, 18} {
		for _, first := range []int{n, n - 1, n / 2} {
			fs, es := schedTree(n, 1)
			for i := n - first; i < n; i++ {
				es[i].Ovs = []Ov{bad}
			}

			for b := 0; b <= 1; b++ {
				if n > 9 && b > 0 && !x.Thorough {
					continue
				}

				do(fmt.Sprintf("manyfail|%d|%d|%d", n, first, b), "failures", &Spec{Files: fs, Ins: &Ins{Common: (&tracer{}).ovs(1), Ents: es}, Std: b == 1}, bounded(b, true))
			}
		}
	}

	// the same file, directory or output several times; stdin
	in := "log: in\n---\nlog: in2\n"
	ents := map[string][]Ent{
		"twice":    {{Path: "m/a.yaml", Ovs: []Ov{combineOv("log", "' 1'")}}, {Path: "m/b.yaml"}, {Path: "m/../m/a.yaml", Ovs: []Ov{combineOv("log", "' 2'")}}},
		"dirs":     {{Path: "m", Ovs: []Ov{combineOv("log", "' 1'")}}, {Path: "m/b.yaml", Ovs: []Ov{combineOv("log", "' 2'")}}, {Path: "m"}},
		"stdin":    {{Path: "m/a.yaml"}, {Path: "-", Ovs: []Ov{combineOv("log", "' 1'")}}},
		"names":    {{Path: "m/b.yaml", Out: "z.yaml"}, {Path: "m/a.yaml", Out: "dir"}},
		"reversed": {{Path: "m/b.yaml"}, {Path: "m/a.yaml"}},
		"same":     {{Path: "m/b.yaml", Out: "z.yaml", Ovs: []Ov{combineOv("log", "' 1'")}}, {Path: "m/a.yaml", Out: "z.yaml"}},
		"gone":     {{Path: "m/b.yaml", Ovs: []Ov{ov("delete", "$", "")}}, {Path: "m/a.yaml"}},
		"all gone": {{Path: "m", Ovs: []Ov{ov("delete", "$", "")}}},
		"missing":  {{Path: "m/a.yaml"}, {Path: "m/no.yaml"}},
		"nothing":  {},
	}

	for _, k := range sortedKeys(ents) {
		for _, std := range []bool{true, false} {
			fs, _ := schedTree(2, 2)
			sp := &Spec{Files: fs, Ins: &Ins{Common: []Ov{combineOv("log", "' c'")}, Ents: ents[k]}, Std: std}

			if k == "stdin" {
				sp.Stdin, sp.More = &in, []string{}
			}

			do(fmt.Sprintf("entries|%s|%v", k, std), "entries", sp, func(cf *schedConf) {
				if k == "same" || k == "stdin" {
					cf.exp = nil // the model does not say which wins, or the name: the same one under every schedule
				}
			})
		}
	}

	// overlays shared by several files
	shared := schedOvs()
	for i, o := range shared {
		for _, dom := range []string{"", "inject"} {
			n := 3
			if i == 10 && !x.Thorough {
				n = 2 // comparing data takes locks
			}

			fs, es := schedTree(n, 1)
			do(fmt.Sprintf("shared|%d|%s", i, dom), "shared overlays", &Spec{Files: fs, Ins: &Ins{Common: []Ov{o}, Ents: es}, Std: i%2 == 0, DefOM: dom}, nil)

			fs, _ = schedTree(2, 2)
			do(fmt.Sprintf("directory|%d|%s", i, dom), "overlays of a directory entry", &Spec{Files: fs, Ins: &Ins{Ents: []Ent{{Path: "m", Ovs: []Ov{o}, Docs: []DocEnt{{Path: 1, Ovs: []Ov{o}}}}}}, Std: i%2 == 1, DefOM: dom}, nil)

			fs, _ = schedTree(2, 2)
			do(fmt.Sprintf("cli|%d|%s", i, dom), "command-line overlay", &Spec{Files: fs, Path: "m", CLI: &Ov{Q: o.Q, Act: o.Act, Val: o.Val, HasV: o.HasV}, Std: i%2 == 1, DefOM: dom}, nil)
		}

		for j, p := range shared {
			if (i+2*j)%3 != 0 && !x.Thorough {
				continue // a third of the pairs
			}

			n := 2
			if x.Thorough && i != 10 && j != 10 {
				n = 3
			}

			fs, es := schedTree(n, 2)
			es[0].Ovs, es[1].Docs = []Ov{p}, []DocEnt{{Path: 1, Ovs: []Ov{p}}}
			do(fmt.Sprintf("pair|%d|%d", i, j), "pairs of overlays", &Spec{Files: fs, Ins: &Ins{Common: []Ov{o, p}, Ents: es}, Std: j%2 == 0, DefOM: "inject"}, nil)
		}
	}

	// what the model leaves out: the first schedule says what is expected
	rich := "# head\na: 1 # line\nb: &anc {c: 2, d: [x, y]} # flow\ne: *anc\nf: |\n  text\n  more\n# foot\n\n# last\n---\n# other\na: null\n\nb:\n- {c: q}\n- c: r # r\n"
	ins := map[string]string{
		"markers":  "commonOverlays:\n- query: a\n  value: new %v %k %h %l %f\n- query: b\n  value: {\"%k-x\": \"%v{s/x/y/g}\", c: \"%v{s/2/3/} %k\"}\n",
		"sed":      "commonOverlays:\n- query: ..c\n  value: \"%v{s/[a-z]/<&>/g;y/q/z/}\"\n",
		"comments": "commonOverlays:\n- query: a\n  # oh\n  value: 5 # ol %l\n- query: [b, f]\n  action: replace\n  value:\n    # in\n    k: v # il\n",
		"anchors":  "x: &v {p: [1, {q: r}]}\ncommonOverlays:\n- query: b\n  action: replace\n  value: *v\n- query: b.p\n  value: [2]\n- query: e\n  value: *v\n",
		"keys":     "commonOverlays:\n- query: ..c~\n  action: replace\n  value: cc\n- query: b~\n  action: delete\n",
		"filters":  "commonOverlays:\n- query: \"b[?(@.c == 'q')]\"\n  value: {hit: 1}\n- query: \"$..[?(@.c)]\"\n  action: delete\n- query: \"$..*\"\n  documentQuery:\n  - conditions:\n    - {query: a, value: null}\n  action: replace\n  value: {z: {y: x}}\n",
		"regexp":   "commonOverlays:\n- query: \"b[?(@.c =~ /q|r/)]\"\n  value: {hit: 1}\n",
		"template": "commonOverlays:\n- query: a\n  action: replace\n  value: {{ .v | upper }}\n- query: [{{ range .l }}q{{ . }},{{ end }}n]\n  onMissing: {action: inject}\n  value: {{ dict \"a\" (list 1 2) | toJson }}\n",
		"wrong":    "commonOverlays:\n- query: \"a[\"\n  value: 1\n",
		"invalid":  "commonOverlays:\n- query: b.*\n  action: combine\n  value: {a: 1}\n",
	}
	for i, a := range []string{"merge", "replace", "combine"} {
		for j, v := range []string{"x # l%v", "0x1F # l", "true # l", "null # l", "0o17", "1_000", "1.5", "2001-01-01", "'%k%v'", "\n    # h\n    k: v # l\n    # f\n", "\n  - 1 # l\n  # f\n\n  - {a: b}\n", "{}", "[]", "''"} {
			ins[fmt.Sprintf("value %d %d", i, j)] = "commonOverlays:\n- query: [a, f, b.c]\n  action: " + a + "\n  value: " + v + "\n- query: b[*]\n  action: " + a + "\n  value: " + v + "\n- query: no.such\n  onMissing: {action: inject}\n  value: " + v + "\n"
		}
	}

	flags := map[string][]string{"": nil, "style": {"--output-style", "folded"}, "single": {"--output-style", "single", "--indent-level", "3"}, "flow": {"--output-style", "flow"}, "remove": {"--remove-comments"}, "stdout": {"-s"}}

	for _, k := range sortedKeys(ins) {
		for _, f := range sortedKeys(flags) {
			if strings.HasPrefix(k, "value") && f != "" && !x.Thorough {
				continue
			}

			c := &Case{Files: map[string]string{"w/m/a.yaml": rich, "w/m/b.yaml": rich, "w/v.yaml": "v: abc\nl: [1]\n", "w/u.yaml": "l: [2]\nm: {a: 1, b: 2, c: 3}\n"}, Args: append([]string{"-i", "i.yaml"}, flags[f]...)}
			c.Files["w/i.yaml"] = ins[k] + "yamlFiles:\n- path: m\n"

			if k == "template" {
				c.Args = append(c.Args, "-f", "v.yaml", "-f", "u.yaml")
			}

			x.Do(func() *Item {
				return schedConf{key: "rich|" + k + "|" + f, class: "comments, markers, styles, templates", c: c, bound: -1}.item(x)
			})
		}
	}

	// the files given by flags only
	for _, args := range [][]string{{"-p", "m"}, {"-p", "m", "-q", "..c", "-x", "new"}, {"-p", "m", "-q", "a", "-a", "combine", "-x", "2", "-s"}, {"-p", "m", "-q", "no.such", "-x", "{a: 1}", "-m", "inject"}, {"completion", "bash"}, {"--help"}, {"-p", "none"}} {
		x.Do(func() *Item {
			c := &Case{Files: map[string]string{"w/m/a.yaml": rich, "w/m/b.yaml": rich, "w/m/d/c.yml": rich}, Args: args}

			return schedConf{key: "flags|" + strings.Join(args, " "), class: "command line only", c: c, bound: -1}.item(x)
		})
	}
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking", Explore: exploreC01,
		Rule:   "for each configuration (numbers of files, documents and overlays; overlays shared by files; failures in every subset of files and documents; entries, outputs and formats), every schedule of the tool's goroutines, up to the order of independent operations (dynamic partial-order reduction over channel, lock, wait-group, atomic and file operations), or up to the stated number of delays (departures from the order in which they run one after another), is run on the tool built with the race detector (configurations with more than three files or a very long queue: without it) and must terminate with the outcome the model predicts, the same one under every schedule; each is also run with the eight starting points of map iterations",
		Assume: []string{"code between two synchronisation operations is free of data races (checked on the schedules run under the race detector), so that other interleavings are equivalent to one explored", "the controlled scheduler decides every order of synchronisation operations; function-style atomic operations and reads such as len of a channel are not scheduling points"}})
}
