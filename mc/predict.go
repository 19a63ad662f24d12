//go:build go1.22

package main

import (
	"errors"
	"path"
	"sort"
	"strings"
)

// Spec is a run described at the level of the model.
type Spec struct {
	Files map[string]string // sandbox-relative YAML sources
	Ins   *Ins              // instructions file, at w/i.yaml unless InsAt
	InsAt string
	Path  string // -p
	CLI   *Ov    // -q/-a/-x overlay
	OutD  string // -o, default ./output
	Std   bool   // -s
	DefOM string // --default-on-missing-action
	More  []string
	Env   map[string]string
	Stdin *string
	Lib   bool // matches are determined by yaml-jsonpath
}

func (s *Spec) insAt() string {
	if s.InsAt == "" {
		return "w/i.yaml"
	}

	return s.InsAt
}

func (s *Spec) toCase() *Case {
	c := &Case{Files: map[string]string{}, Env: s.Env, Stdin: s.Stdin}

	for k, v := range s.Files {
		c.Files[k] = v
	}

	if s.Ins != nil {
		c.Files[s.insAt()] = s.Ins.text()
		c.Args = append(c.Args, "-i", relTo("w", s.insAt()))
	}

	if s.Path != "" {
		c.Args = append(c.Args, "-p", s.Path)
	}

	if s.CLI != nil {
		for _, q := range s.CLI.Q {
			c.Args = append(c.Args, "-q", q)
		}

		if s.CLI.Act != "" {
			c.Args = append(c.Args, "-a", s.CLI.Act)
		}

		if s.CLI.HasV {
			c.Args = append(c.Args, "-x", s.CLI.Val)
		}
	}

	if s.OutD != "" {
		c.Args = append(c.Args, "-o", s.OutD)
	}

	if s.Std {
		c.Args = append(c.Args, "-s")
	}

	if s.DefOM != "" {
		c.Args = append(c.Args, "--default-on-missing-action", s.DefOM)
	}

	c.Args = append(c.Args, s.More...)

	return c
}

func relTo(dir, p string) string {
	if strings.HasPrefix(p, dir+"/") {
		return p[len(dir)+1:]
	}

	return "../" + p
}

// src is one processed file.
type src struct {
	path string // absolute, the sandbox being "/"
	out  string
	ovs  []Ov
	docs []DocEnt
}

// resolve makes an input path absolute in a world whose root is the sandbox
// ("{{ROOT}}" being "/").
func resolve(base, p string) string {
	if strings.HasPrefix(p, "{{ROOT}}") {
		return path.Clean("/" + strings.TrimPrefix(p, "{{ROOT}}"))
	}

	return path.Clean("/" + base + "/" + p)
}

func (s *Spec) isDir(abs string) bool {
	for f := range s.Files {
		if strings.HasPrefix("/"+f, strings.TrimSuffix(abs, "/")+"/") {
			return true
		}
	}

	return abs == "/w"
}

// walk lists the YAML files below a directory, each directory's entries in
// name order.
func (s *Spec) walk(dir string) []string {
	var out []string

	add := func(f string) {
		if e := path.Ext(f); strings.HasPrefix(f, strings.TrimSuffix(dir, "/")+"/") && (e == ".yaml" || e == ".yml") {
			out = append(out, f)
		}
	}

	for f := range s.Files {
		add("/" + f)
	}

	if s.Ins != nil {
		if _, ok := s.Files[s.insAt()]; !ok {
			add("/" + s.insAt())
		}
	}

	sort.Slice(out, func(i, j int) bool {
		a, b := strings.Split(out[i], "/"), strings.Split(out[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}

		return len(a) < len(b)
	})

	return out
}

func (s *Spec) entFiles(base string, e Ent) ([]*src, bool) {
	if e.Path == "-" {
		o := e.Out
		if o == "" {
			o = "stdin.yaml"
		}

		return []*src{{path: "-", out: o, ovs: e.Ovs, docs: e.Docs}}, true
	}

	abs := resolve(base, e.Path)
	if _, ok := s.Files[abs[1:]]; ok {
		o := e.Out
		if o != "" && !namesFile(o) {
			o = path.Join(o, path.Base(abs))
		}

		return []*src{{path: abs, out: o, ovs: e.Ovs, docs: e.Docs}}, true
	}

	if !s.isDir(abs) || namesFile(e.Out) {
		return nil, false
	}

	var out []*src

	for _, f := range s.walk(abs) {
		o := e.Out
		if o != "" {
			o = path.Join(o, strings.TrimPrefix(f, strings.TrimSuffix(abs, "/")+"/"))
		}

		out = append(out, &src{path: f, out: o, ovs: e.Ovs, docs: e.Docs})
	}

	return out, true
}

// namesFile: an outputPath with an extension is a file, anything else a
// directory.
func namesFile(o string) bool {
	b := path.Base(o)

	return path.Ext(o) != "" && b != "." && b != ".."
}

func mergeSrc(in []*src) []*src {
	var out []*src

	by := map[string]*src{}

	for _, x := range in {
		if y := by[x.path]; y != nil {
			y.ovs = append(append([]Ov{}, y.ovs...), x.ovs...)
			y.docs = append(append([]DocEnt{}, y.docs...), x.docs...)

			if x.out != "" {
				y.out = x.out
			}

			continue
		}

		by[x.path] = x
		out = append(out, x)
	}

	return out
}

func commonDir(ps []string) string {
	if len(ps) == 0 {
		return "/"
	}

	d := strings.Split(path.Dir(ps[0]), "/")

	for _, p := range ps[1:] {
		e := strings.Split(path.Dir(p), "/")
		k := 0

		for k < len(d) && k < len(e) && d[k] == e[k] {
			k++
		}

		d = d[:k]
	}

	return strings.Join(d, "/")
}

// plan lists the processed files with everything that applies to them.
func (s *Spec) plan() ([]*src, bool) {
	var all []*src

	base := "w"

	if s.Ins != nil {
		base = path.Dir(s.insAt())

		for _, e := range s.Ins.Ents {
			fs, ok := s.entFiles(base, e)
			if !ok {
				return nil, false
			}

			all = append(all, fs...)
		}
	}

	if s.Path != "" {
		fs, ok := s.entFiles(base, Ent{Path: s.Path})
		if !ok {
			return nil, false
		}

		all = append(all, fs...)
	}

	all = mergeSrc(all)

	var ps []string

	for _, f := range all {
		if f.path != "-" {
			ps = append(ps, f.path)
		}
	}

	root := commonDir(ps)

	var common []Ov
	if s.Ins != nil {
		common = append(common, s.Ins.Common...)
	}

	if s.CLI != nil {
		common = append(common, *s.CLI)
	}

	for _, f := range all {
		if f.out == "" {
			f.out = strings.TrimPrefix(strings.TrimPrefix(f.path, root), "/")
		}

		f.ovs = append(append([]Ov{}, common...), f.ovs...)
	}

	return all, true
}

func (s *Spec) content(f *src) string {
	if f.path == "-" {
		return *s.Stdin
	}

	return s.Files[f.path[1:]]
}

// predict computes the outcome of the run; the error is errUnspecified if the
// documentation leaves it open.
func (s *Spec) predict() (Exp, error) {
	e := Exp{Stdout: s.Std, Files: map[string][]*N{}}

	fs, ok := s.plan()
	if !ok {
		return Exp{Fail: true}, nil
	}

	fail := false

	for _, f := range fs {
		in, err := parseStream(s.content(f))
		if err != nil {
			return Exp{Fail: true}, nil //nolint
		}

		var docs []*N

		for i, n := range in {
			d := &doc{n.clone(), s.Lib}

			ovs := append([]Ov{}, f.ovs...)

			for _, de := range f.docs {
				if de.Path == i {
					ovs = append(ovs, de.Ovs...)
				}
			}

			for _, o := range ovs {
				if err := d.apply(o, i, s.DefOM); err != nil {
					if errors.Is(err, errCombine) {
						fail = true

						break
					}

					return e, err
				}
			}

			if d.root != nil {
				docs = append(docs, d.root)
			}
		}

		if len(docs) == 0 {
			continue
		}

		e.Docs = append(e.Docs, docs...)

		outD := s.OutD
		if outD == "" {
			outD = "./output"
		}

		name := path.Join(outD, f.out)
		if strings.HasPrefix(f.out, "/") || strings.HasPrefix(f.out, "{{ROOT}}") {
			name = f.out
		}

		var rel string
		if strings.HasPrefix(name, "{{ROOT}}") {
			rel = strings.TrimPrefix(path.Clean(strings.TrimPrefix(name, "{{ROOT}}")), "/")
			name = "{{ROOT}}/" + rel
		} else {
			rel = strings.TrimPrefix(path.Join("/w", name), "/")
		}

		e.Files[rel] = docs
		e.List = append(e.List, name)
	}

	if fail {
		return Exp{Fail: true}, nil
	}

	if e.List == nil {
		e.List = []string{}
	}

	return e, nil
}

// item turns a Spec into an item of a check's space.
func (s *Spec) item(key, class string) *Item {
	c := s.toCase()
	e, err := s.predict()
	it := &Item{Key: key, Class: class, Case: c}

	if err != nil {
		it.Skip = true

		return it
	}

	it.Verify = func(r *Result) string { return e.verify(c, r) }

	return it
}

// history explores all overlay sequences: the model's reachable documents are
// enumerated up to bfs steps (every transition is run on the implementation),
// and every sequence up to depth all is replayed in one run.
type history struct {
	name   string
	inits  []string // documents or streams
	alpha  []Ov
	bfs    int
	all    int
	twin   string // if set, a second file the same (common) overlays run on
	defOM  string
	maxSt  int
	viaDoc bool // put the last overlay of a sequence into a documents entry
}

func (h history) key(p ...string) string { return h.name + "|" + strings.Join(p, "|") }

func ovKey(os []Ov) string {
	var p []string
	for _, o := range os {
		p = append(p, strings.ReplaceAll(strings.TrimSpace(strings.TrimPrefix(o.text(), "- ")), "\n", ";"))
	}

	return strings.Join(p, " // ")
}

func (h history) explore(x *X) {
	// 1. states and transitions of the model
	seen := map[string]bool{}

	type st struct{ docs []*N }

	var frontier []st

	for _, t := range h.inits {
		d := mustParseAll(t)
		if k := canonAll(d); !seen[k] {
			seen[k] = true
			frontier = append(frontier, st{d})
			x.States++
		}
	}

	for depth := 0; depth < h.bfs; depth++ {
		var next []st

		for _, s := range frontier {
			for _, o := range h.alpha {
				o := o
				s := s
				x.Transitions++

				to, err := runModel(s.docs, []Ov{o}, h.defOM)

				if depth > 0 {
					x.Do(func() *Item {
						var b strings.Builder
						for _, d := range s.docs {
							b.WriteString("---\n" + block(d))
						}

						it := (&Spec{Files: map[string]string{"w/a.yaml": b.String()}, Std: true, DefOM: h.defOM,
							Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{o}}}}}).item(h.key("edge", canonAll(s.docs), ovKey([]Ov{o})), h.name+"/edge")
						it.Trace = 1

						return it
					})
				}

				if err != nil || len(to) == 0 {
					continue
				}

				if k := canonAll(to); !seen[k] && (h.maxSt == 0 || len(seen) < h.maxSt) {
					seen[k] = true
					x.States++
					next = append(next, st{to})
				}
			}
		}

		frontier = next
	}

	// 2. every sequence, in one run
	for _, t := range h.inits {
		t := t

		var rec func(seq []Ov)

		rec = func(seq []Ov) {
			if len(seq) > 0 {
				q := append([]Ov{}, seq...)

				x.Do(func() *Item {
					sp := &Spec{Files: map[string]string{"w/a.yaml": t}, Std: true, DefOM: h.defOM}

					switch {
					case h.twin != "":
						sp.Files["w/b.yaml"] = h.twin
						sp.Ins = &Ins{Common: q, Ents: []Ent{{Path: "a.yaml"}, {Path: "b.yaml"}}}
					case h.viaDoc:
						l := len(q) - 1
						sp.Ins = &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: q[:l], Docs: []DocEnt{{Path: 0, Ovs: q[l:]}}}}}
					default:
						sp.Ins = &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: q}}}
					}

					it := sp.item(h.key("seq", t, ovKey(q)), h.name+"/seq")
					it.Trace = len(q)

					return it
				})
			}

			if len(seq) < h.all {
				for _, o := range h.alpha {
					rec(append(seq, o))
				}
			}
		}

		rec(nil)
	}
}
