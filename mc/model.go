//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Ov is an overlay of the reference model.
type Ov struct {
	Q     []string // queries
	List  bool     // write the query as a list
	NoQ   bool
	Act   string // merge, replace, delete, combine or "" (not given)
	Val   string // YAML text of the value; a text with a newline is written as a block
	HasV  bool
	OM    string // onMissing action or ""
	IP    []string
	Idx   []int // documentIndex
	HasIx bool
	DQ    [][]Cond
	HasDQ bool
}

// Cond is a documentQuery condition.
type Cond struct {
	Q    []string
	Val  string
	HasV bool
}

func (o Ov) val() *N {
	if !o.HasV {
		return nil
	}

	return mustParse(o.Val)
}

func indentText(s string, n int) string {
	pad := strings.Repeat(" ", n)
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")

	for i, l := range ls {
		if l != "" {
			ls[i] = pad + l
		}
	}

	return strings.Join(ls, "\n")
}

func yq(s string) string {
	if strings.ContainsAny(s, "\n\t") {
		return dq(s)
	}

	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

func yqList(q []string, list bool) string {
	if len(q) == 1 && !list {
		return yq(q[0])
	}

	p := make([]string, len(q))
	for i, s := range q {
		p[i] = yq(s)
	}

	return "[" + strings.Join(p, ", ") + "]"
}

// text renders the overlay as an item of a YAML list.
func (o Ov) text() string {
	var l []string

	if !o.NoQ {
		l = append(l, "query: "+yqList(o.Q, o.List))
	}

	if o.Act != "" {
		l = append(l, "action: "+o.Act)
	}

	if o.HasV {
		if strings.Contains(o.Val, "\n") {
			l = append(l, "value:\n"+indentText(o.Val, 2))
		} else {
			l = append(l, "value: "+o.Val)
		}
	}

	if o.OM != "" || o.IP != nil {
		s := "onMissing:"
		if o.OM != "" {
			s += "\n  action: " + o.OM
		}

		if o.IP != nil {
			s += "\n  injectPath: " + yqList(o.IP, false)
		}

		l = append(l, s)
	}

	if o.HasIx {
		s := strings.Join(strings.Fields(fmt.Sprint(o.Idx)), ", ")
		l = append(l, "documentIndex: "+s)
	}

	if o.HasDQ {
		if len(o.DQ) == 0 {
			l = append(l, "documentQuery: []")
		} else {
			s := "documentQuery:"

			for _, g := range o.DQ {
				if len(g) == 0 {
					s += "\n- conditions: []"

					continue
				}

				s += "\n- conditions:"

				for _, c := range g {
					s += "\n  - query: " + yqList(c.Q, false)
					if c.HasV {
						s += "\n    value: " + c.Val
					}
				}
			}

			l = append(l, s)
		}
	}

	t := indentText(strings.Join(l, "\n"), 2)
	if t == "" {
		return "- {}\n"
	}

	return "-" + t[1:] + "\n"
}

func ovsText(os []Ov, ind int) string {
	var b strings.Builder
	for _, o := range os {
		b.WriteString(indentText(o.text(), ind) + "\n")
	}

	return b.String()
}

// DocEnt and Ent are the entries of an instructions file.
type DocEnt struct {
	Path int
	Ovs  []Ov
}

type Ent struct {
	Path, Out string
	Ovs       []Ov
	Docs      []DocEnt
}

// Ins is an instructions file.
type Ins struct {
	Common []Ov
	Ents   []Ent
}

func (in Ins) text() string {
	var b strings.Builder

	b.WriteString("---\n")

	if len(in.Common) > 0 {
		b.WriteString("commonOverlays:\n" + ovsText(in.Common, 0))
	}

	if len(in.Ents) > 0 {
		b.WriteString("yamlFiles:\n")
	}

	for _, e := range in.Ents {
		b.WriteString("- path: " + yq(e.Path) + "\n")

		if e.Out != "" {
			b.WriteString("  outputPath: " + yq(e.Out) + "\n")
		}

		if len(e.Ovs) > 0 {
			b.WriteString("  overlays:\n" + ovsText(e.Ovs, 2))
		}

		if len(e.Docs) > 0 {
			b.WriteString("  documents:\n")

			for _, d := range e.Docs {
				b.WriteString(fmt.Sprintf("  - path: %d\n", d.Path))

				if len(d.Ovs) > 0 {
					b.WriteString("    overlays:\n" + ovsText(d.Ovs, 4))
				}
			}
		}
	}

	return b.String()
}

var (
	errCombine     = errors.New("combine")
	errUnspecified = errors.New("unspecified")
)

// doc is one document being processed; root nil means deleted.
type doc struct {
	root *N
	lib  bool // find matches with yaml-jsonpath instead of the model's evaluator
}

func (d *doc) find(qs []string) []ref {
	if d.lib {
		return findLib(d.root, qs)
	}

	return findAll(d.root, qs)
}

func (d *doc) clone() *doc {
	if d.root == nil {
		return &doc{}
	}

	return &doc{d.root.clone(), d.lib}
}

// mergeInto is the reference merge (data only, no markers).
func mergeInto(o, v *N) {
	switch v.K {
	case Map:
		if o.K != Map {
			*o = N{K: Map, Tag: "!!map"}
		}

		for i := 0; i+1 < len(v.C); i += 2 {
			if x := o.at(v.C[i]); x != nil {
				mergeInto(x, v.C[i+1])
			} else {
				o.C = append(o.C, v.C[i].clone(), v.C[i+1].clone())
			}
		}
	case Seq:
		if o.K != Seq {
			*o = N{K: Seq, Tag: "!!seq"}
		}

		for _, c := range v.C {
			o.C = append(o.C, c.clone())
		}
	case Sca:
		*o = N{K: Sca, Tag: v.Tag, V: v.V}
	}
}

// mergeDefined says whether the outcome of merging is documented: an empty
// map or list onto something of another kind is not.
func mergeDefined(o, v *N) bool {
	if v.K != Sca && len(v.C) == 0 && o.K != v.K {
		return false
	}

	if v.K == Map && o.K == Map {
		for i := 0; i+1 < len(v.C); i += 2 {
			if x := o.at(v.C[i]); x != nil && !mergeDefined(x, v.C[i+1]) {
				return false
			}
		}
	}

	return true
}

func yamlInt(s string) *big.Int {
	i, ok := new(big.Int).SetString(strings.ReplaceAll(s, "_", ""), 0)
	if !ok {
		return nil
	}

	return i
}

// combineInto is the reference combine. The error says the run must fail.
func combineInto(o, v *N) error {
	if o.K != Sca || v.K != Sca {
		return errCombine
	}

	if o.Tag != v.Tag {
		// a text that cannot be read as the original's type
		if _, err := strconv.ParseBool(v.V); o.Tag == "!!bool" && err != nil || o.Tag == "!!int" && yamlInt(v.V) == nil {
			return errCombine
		}

		return errUnspecified
	}

	switch o.Tag {
	case "!!int":
		a, b := yamlInt(o.V), yamlInt(v.V)
		if a == nil || b == nil {
			return errCombine
		}

		s := new(big.Int).Add(a, b)
		if !a.IsInt64() || !b.IsInt64() || !s.IsInt64() {
			return errCombine
		}

		o.V = s.String()
	case "!!bool":
		pb := func(s string) bool { return strings.EqualFold(s, "true") }
		if pb(o.V) && pb(v.V) {
			o.V = "true"
		} else {
			o.V = "false"
		}
	case "!!str":
		o.V += v.V
	default:
		return errUnspecified
	}

	return nil
}

// removeNode deletes the node from the tree, if it is (still) there.
func removeNode(n, x *N) bool {
	for i, c := range n.C {
		if c != x {
			if removeNode(c, x) {
				return true
			}

			continue
		}

		from, to := i, i+1

		if n.K == Map {
			from = i - i%2
			to = from + 2
		}

		n.C = append(append([]*N{}, n.C[:from]...), n.C[to:]...)

		return true
	}

	return false
}

// act applies an action to every matched node.
func (d *doc) act(action string, rs []ref, v *N) error {
	for _, r := range rs {
		switch action {
		case "delete":
			if r.n == d.root {
				d.root = nil

				continue
			}

			if d.root != nil {
				removeNode(d.root, r.n)
			}
		case "replace":
			*r.n = *v.clone()
		case "combine":
			if err := combineInto(r.n, v); err != nil {
				return err
			}
		default:
			if !mergeDefined(r.n, v) {
				return errUnspecified
			}

			mergeInto(r.n, v)
		}
	}

	return nil
}

// nested says whether one of the matches lies inside another (or is matched
// twice).
func nested(rs []ref) bool {
	in := map[*N]bool{}
	for _, r := range rs {
		if in[r.n] {
			return true
		}

		in[r.n] = true
	}

	for _, r := range rs {
		hit := false

		for _, c := range r.n.C {
			preorderAll(c, func(n *N) {
				if in[n] {
					hit = true
				}
			})
		}

		if hit {
			return true
		}
	}

	return false
}

func preorderAll(n *N, f func(*N)) {
	f(n)

	for _, c := range n.C {
		preorderAll(c, f)
	}
}

// pathOf returns the name sets of an injectable path, or nil.
func pathOf(q string) [][]string {
	var out [][]string

	for _, s := range parseQuery(q) {
		if s.op != "child" {
			return nil
		}

		out = append(out, s.names)
	}

	return out
}

// inject creates the path in the tree with the value at its end.
func inject(n *N, path [][]string, v *N) error {
	if len(path) == 0 {
		*n = *v.clone()

		return nil
	}

	if n.K != Map {
		if n.K == Sca && n.Tag == "!!null" {
			*n = N{K: Map, Tag: "!!map"}
		} else {
			return errUnspecified
		}
	}

	for _, nm := range path[0] {
		c := n.get(nm)
		if c == nil {
			c = &N{K: Sca, Tag: "!!null", V: "null"}
			n.C = append(n.C, str(nm), c)
		} else if len(path) == 1 {
			// part of a multi-name path exists already: it is overwritten as the path's value
			_ = c
		}

		if err := inject(c, path[1:], v); err != nil {
			return err
		}
	}

	return nil
}

func condsMet(d *doc, dq [][]Cond) bool {
	if len(dq) == 0 {
		return true
	}

	for _, g := range dq {
		ok := true

		for _, c := range g {
			rs := d.find(c.Q)
			if len(rs) == 0 {
				ok = false

				break
			}

			if c.HasV {
				v := canon(mustParse(c.Val))

				for _, r := range rs {
					if canon(r.n) != v {
						ok = false
					}
				}
			}
		}

		if ok {
			return true
		}
	}

	return false
}

// apply is the reference semantics of one overlay on one document.
// defaultOM is the configured default onMissing action.
func (d *doc) apply(o Ov, index int, defaultOM string) error {
	if o.HasIx {
		ok := false

		for _, i := range o.Idx {
			ok = ok || i == index
		}

		if !ok {
			return nil
		}
	}

	if d.root == nil { // deleted documents stay deleted
		return nil
	}

	if o.HasDQ && !condsMet(d, o.DQ) {
		return nil
	}

	rs := d.find(o.Q)
	if len(rs) > 0 {
		if d.lib && o.Act != "delete" && nested(rs) {
			// the order in which the matches are processed is not documented
			rev := d.clone()
			rr := rev.find(o.Q)

			for i, j := 0, len(rr)-1; i < j; i, j = i+1, j-1 {
				rr[i], rr[j] = rr[j], rr[i]
			}

			fwd := d.clone()

			e1, e2 := fwd.act(o.Act, fwd.find(o.Q), o.val()), rev.act(o.Act, rr, o.val())
			if e1 != e2 || canon(fwd.root) != canon(rev.root) {
				return errUnspecified
			}
		}

		err := d.act(o.Act, rs, o.val())

		// renaming a key to the name of a sibling is not specified
		if err == nil && o.Act == "replace" && d.root != nil && noDups(d.root) != nil {
			return errUnspecified
		}

		return err
	}

	om := o.OM
	if om == "" || om == "default" {
		om = defaultOM
	}

	if om != "inject" || o.Act == "delete" || o.Act == "combine" {
		return nil
	}

	paths := make([][][]string, 0, len(o.Q))
	direct := len(o.Q) > 0

	for _, q := range o.Q {
		p := pathOf(q)
		if p == nil {
			direct = false
		}

		paths = append(paths, p)
	}

	if !direct {
		paths = nil

		for _, q := range o.IP {
			p := pathOf(q)
			if p == nil {
				return errUnspecified
			}

			paths = append(paths, p)
		}
	}

	for i, p := range paths {
		// whether a path leads into a value injected by the same overlay is not specified
		for _, q := range paths[:i] {
			if leadsInto(p, q) {
				return errUnspecified
			}
		}

		if err := inject(d.root, p, o.val()); err != nil {
			return err
		}
	}

	return nil
}

// leadsInto tells whether a path goes further than another one does.
func leadsInto(p, q [][]string) bool {
	if len(p) <= len(q) {
		return false
	}

	for i, names := range q {
		common := false

		for _, a := range names {
			for _, b := range p[i] {
				common = common || a == b
			}
		}

		if !common {
			return false
		}
	}

	return true
}

// runModel applies overlays to a stream of documents.
func runModel(docs []*N, ovs []Ov, defaultOM string) ([]*N, error) {
	var out []*N

	for i, n := range docs {
		d := &doc{root: n.clone()}

		for _, o := range ovs {
			if err := d.apply(o, i, defaultOM); err != nil {
				return nil, err
			}
		}

		if d.root != nil {
			out = append(out, d.root)
		}
	}

	return out, nil
}
