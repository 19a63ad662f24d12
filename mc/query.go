//go:build go1.22

package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"gopkg.in/yaml.v3"
)

// step is one step of the reference query evaluator. It covers the notations
// the alphabets use; selfCheckQueries compares it with yaml-jsonpath.
type step struct {
	op    string // child, idx, all, desc, key, filt
	names []string
	ints  []int // idx: start (len 1) or start,end (len 2)
	fpath []string
	fval  *N // nil: existence
}

type ref struct {
	n      *N
	parent *N // nil for the root
	i      int
}

// parseQuery parses the query notations used in the alphabets.
func parseQuery(q string) []step {
	var st []step

	s := strings.TrimPrefix(q, "$")
	first := s == q

	name := func() string {
		i := strings.IndexAny(s, ".[~")
		if i < 0 {
			i = len(s)
		}

		n := s[:i]
		s = s[i:]

		return n
	}

	for s != "" {
		switch {
		case strings.HasPrefix(s, ".."):
			s = s[2:]
			st = append(st, step{op: "desc", names: []string{name()}})
		case s[0] == '.':
			s = s[1:]
			if n := name(); n == "*" {
				st = append(st, step{op: "all"})
			} else {
				st = append(st, step{op: "child", names: []string{n}})
			}
		case s[0] == '~':
			s = s[1:]
			last := &st[len(st)-1]

			switch last.op {
			case "child":
				last.op = "key"
			case "all":
				last.op, last.names = "key", []string{"*"}
			default:
				panic("bad ~ in " + q)
			}
		case strings.HasPrefix(s, "[?("):
			e := strings.Index(s, ")]")
			ex := s[3:e]
			s = s[e+2:]
			f := step{op: "filt"}
			l, r, eq := strings.Cut(ex, "==")
			l = strings.TrimPrefix(strings.TrimSpace(l), "@")

			for _, p := range strings.Split(l, ".") {
				if p != "" {
					f.fpath = append(f.fpath, p)
				}
			}

			if eq {
				r = strings.TrimSpace(r)
				if strings.HasPrefix(r, "'") {
					f.fval = str(strings.Trim(r, "'"))
				} else {
					f.fval = &N{K: Sca, Tag: "!!int", V: r}
				}
			}

			st = append(st, f)
		case s[0] == '[':
			e := strings.IndexByte(s, ']')
			in := s[1:e]
			s = s[e+1:]

			switch {
			case in == "*":
				st = append(st, step{op: "all"})
			case in[0] == '\'' || in[0] == '"':
				var ns []string
				for _, p := range strings.Split(in, ",") {
					p = strings.TrimSpace(p)
					ns = append(ns, p[1:len(p)-1])
				}

				st = append(st, step{op: "child", names: ns})
			default:
				var is []int

				for _, p := range strings.Split(in, ":") {
					k, err := strconv.Atoi(p)
					if err != nil {
						panic("query " + q)
					}

					is = append(is, k)
				}

				st = append(st, step{op: "idx", ints: is})
			}
		default:
			if !first {
				panic("query " + q)
			}

			if n := name(); n == "*" {
				st = append(st, step{op: "all"})
			} else {
				st = append(st, step{op: "child", names: []string{n}})
			}
		}

		first = false
	}

	return st
}

func children(r ref) []ref {
	var out []ref

	for i, c := range r.n.C {
		if r.n.K == Map && i%2 == 0 {
			continue
		}

		out = append(out, ref{c, r.n, i})
	}

	return out
}

func preorder(r ref, f func(ref)) {
	f(r)

	for _, c := range children(r) {
		preorder(c, f)
	}
}

func (s step) apply(r ref) []ref {
	var out []ref

	switch s.op {
	case "child":
		for _, nm := range s.names {
			for i := 0; r.n.K == Map && i+1 < len(r.n.C); i += 2 {
				if r.n.C[i].V == nm {
					out = append(out, ref{r.n.C[i+1], r.n, i + 1})
				}
			}
		}
	case "key":
		for _, nm := range s.names {
			for i := 0; r.n.K == Map && i+1 < len(r.n.C); i += 2 {
				if nm == "*" || r.n.C[i].V == nm {
					out = append(out, ref{r.n.C[i], r.n, i})
				}
			}
		}
	case "idx":
		if r.n.K != Seq {
			return nil
		}

		l := len(r.n.C)
		from := s.ints[0]

		if from < 0 {
			from += l
		}

		to := from + 1
		if len(s.ints) == 2 {
			to = s.ints[1]
			if to < 0 {
				to += l
			}
		}

		for i := from; i < to && i < l; i++ {
			if i >= 0 {
				out = append(out, ref{r.n.C[i], r.n, i})
			}
		}
	case "all":
		return children(r)
	case "desc":
		preorder(r, func(x ref) {
			if s.names[0] == "*" {
				out = append(out, children(x)...)
			} else {
				out = append(out, step{op: "child", names: s.names}.apply(x)...)
			}
		})
	case "filt":
		cand := []ref{r}
		if r.n.K == Seq {
			cand = children(r)
		}

		for _, c := range cand {
			x := c.n
			for _, p := range s.fpath {
				if x != nil {
					x = x.get(p)
				}
			}

			if x != nil && (s.fval == nil || (x.K == Sca && canon(x) == canon(s.fval))) {
				out = append(out, c)
			}
		}
	}

	return out
}

// find evaluates a query on a document root.
func find(root *N, q string) []ref {
	rs := []ref{{root, nil, 0}}

	for _, s := range parseQuery(q) {
		var next []ref
		for _, r := range rs {
			next = append(next, s.apply(r)...)
		}

		rs = next
	}

	return rs
}

func findAll(root *N, qs []string) []ref {
	var out []ref
	for _, q := range qs {
		out = append(out, find(root, q)...)
	}

	return out
}

// selfCheckQueries compares the evaluator with yaml-jsonpath on every
// document and query of an alphabet.
func selfCheckQueries(docs []string, queries []string) (int, error) {
	n := 0

	for _, d := range docs {
		var y yaml.Node
		if err := yaml.Unmarshal([]byte(d), &y); err != nil {
			return n, err
		}

		root := mustParse(d)

		for _, q := range queries {
			p, err := yamlpath.NewPath(q)
			if err != nil {
				return n, fmt.Errorf("%s: %w", q, err)
			}

			res, _ := p.Find(&y)

			var a, b []string

			for _, r := range res {
				m, err := fromYAML(r, 0)
				if err != nil {
					return n, err
				}

				a = append(a, canon(m))
			}

			for _, r := range find(root, q) {
				b = append(b, canon(r.n))
			}

			if strings.Join(a, "|") != strings.Join(b, "|") {
				return n, fmt.Errorf("query %s on %s: yaml-jsonpath %v, model %v", q, d, a, b)
			}

			n++
		}
	}

	return n, nil
}

var pathCache = map[string]*yamlpath.Path{}

// findLib evaluates queries with yaml-jsonpath.
func findLib(root *N, qs []string) []ref {
	pos := map[*yaml.Node]ref{}

	var conv func(n, parent *N, i int) *yaml.Node

	conv = func(n, parent *N, i int) *yaml.Node {
		y := &yaml.Node{Kind: map[Kind]yaml.Kind{Map: yaml.MappingNode, Seq: yaml.SequenceNode, Sca: yaml.ScalarNode}[n.K], Tag: n.Tag, Value: n.V}
		pos[y] = ref{n, parent, i}

		for j, c := range n.C {
			y.Content = append(y.Content, conv(c, n, j))
		}

		return y
	}

	doc := &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{conv(root, nil, 0)}}
	pos[doc] = ref{root, nil, 0}

	var out []ref

	for _, q := range qs {
		p := pathCache[q]
		if p == nil {
			var err error
			if p, err = yamlpath.NewPath(q); err != nil {
				panic(q + ": " + err.Error())
			}

			pathCache[q] = p
		}

		rs, err := p.Find(doc)
		if err != nil {
			panic(q + ": " + err.Error())
		}

		for _, r := range rs {
			x, ok := pos[r]
			if !ok {
				// a node made up by the library: what it stands for cannot be located
				x = ref{r2n(r), nil, -1}
			}

			out = append(out, x)
		}
	}

	return out
}

func r2n(y *yaml.Node) *N {
	n, err := fromYAML(y, 0)
	if err != nil {
		panic(err)
	}

	return n
}
