//go:build go1.22

package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
)

// ioBase is a successful run whose I/O operations are made to fail.
type ioBase struct {
	key string
	c   *Case
	out string // file mode: output directory
}

func ioBases(thorough bool) []ioBase {
	src := map[string]string{
		"w/m/a.yaml":      "log: a0\nk: 1\n---\nlog: a1\n",
		"w/m/b.yaml":      "log: b0\nm:\n  x: [1, 2]\n",
		"w/m/s/c.yml":     "# c\nlog: c0\n",
		"w/m/s/notes.txt": "no: [yaml\n",
	}
	values := map[string]string{"w/v1.yaml": "mark: one\nd: m\n", "w/v2.yaml": "mark: two\n"}
	ent := map[string]string{
		"file":  "yamlFiles:\n- path: %s/a.yaml\n  overlays:\n  - query: log\n    action: combine\n    value: \" %s\"\n",
		"files": "commonOverlays:\n- query: log\n  action: combine\n  value: \" %[2]s\"\nyamlFiles:\n- path: %[1]s/a.yaml\n- path: %[1]s/b.yaml\n  outputPath: o/b2.yaml\n- path: %[1]s/s/c.yml\n",
		"dir":   "commonOverlays:\n- query: log\n  action: combine\n  value: \" %[2]s\"\nyamlFiles:\n- path: %[1]s\n",
		"mixed": "yamlFiles:\n- path: %[1]s/s\n  outputPath: q\n  overlays:\n  - query: log\n    value: %[2]s\n- path: %[1]s\n  documents:\n  - path: 1\n    overlays:\n    - query: $\n      action: delete\n",
	}

	var bs []ioBase

	add := func(key string, c *Case, extra map[string]string, out string) {
		if c.Files == nil {
			c.Files = map[string]string{}
		}

		for k, v := range src {
			c.Files[k] = v
		}

		for k, v := range extra {
			c.Files[k] = v
		}

		bs = append(bs, ioBase{key, c, out})
	}

	type mode struct {
		name  string
		args  []string
		files map[string]string
		dirs  []string
		out   string
	}

	modes := []mode{
		{"stdout", []string{"-s"}, nil, nil, ""},
		{"new", nil, nil, nil, "w/output"},
		{"deep", []string{"-o", "x/y/z"}, nil, nil, "w/x/y/z"},
		{"over", []string{"-o", "./m/../x"}, map[string]string{"w/x/a.yaml": "old: " + strings.Repeat("content ", 40) + "\n", "w/x/m/a.yaml": "old: 1\n", "w/x/keep.txt": "keep\n"}, nil, "w/x"},
		{"made", []string{"-o", "x"}, nil, []string{"w/x/o", "w/x/s"}, "w/x"},
	}

	for _, e := range []string{"file", "files", "dir", "mixed"} {
		for _, m := range modes {
			for v := 0; v < 4; v++ {
				extra := map[string]string{}
				for k, t := range m.files {
					extra[k] = t
				}

				c := &Case{Dirs: m.dirs}

				switch v {
				case 0: // plain
					extra["w/i.yaml"] = fmt.Sprintf(ent[e], "m", "X")
					c.Args = append([]string{"-i", "i.yaml"}, m.args...)
				case 1: // values files, template
					extra["w/i.yaml"] = fmt.Sprintf(ent[e], "{{ .d }}", "{{ .mark }}")
					c.Args = append([]string{"-i", "i.yaml", "-f", "v1.yaml", "-f", "v2.yaml"}, m.args...)

					for k, t := range values {
						extra[k] = t
					}
				case 2: // elsewhere, with a config file
					extra["w/d/i.yaml"] = fmt.Sprintf(ent[e], "../m", "X")
					extra["home/.yot/config.yaml"] = "indentLevel: 4\nremoveComments: true\n"
					c.Args = append([]string{"-i", "d/i.yaml"}, m.args...)
				case 3: // instructions on stdin, config named
					in := fmt.Sprintf(ent[e], "{{ROOT}}/w/m", "X")
					c.Stdin = &in
					extra["w/c.yaml"] = "outputStyle: [doubleQuoted]\n"
					c.Args = append([]string{"-i", "-", "--config", "c.yaml"}, m.args...)
				}

				add(fmt.Sprintf("%s|%s|%d", e, m.name, v), c, extra, m.out)
			}
		}
	}

	for _, m := range modes[:3] {
		doc := "log: s0\n---\nlog: s1\n"

		for i, args := range [][]string{
			{"-p", "-", "-q", "log", "-a", "combine", "-x", " X"},
			{"-p", "m", "-q", "log", "-a", "combine", "-x", " X"},
			{"-p", "m/a.yaml", "-q", "log", "-q", "k", "-a", "delete"},
			{"-p", "{{ROOT}}/w/m/s/c.yml", "-q", "$", "-x", "{log: 1}"},
			{"-p", "-", "-i", "i.yaml"},
			{"-p", "m/s", "-i", "i.yaml", "-q", "log", "-x", "Y"},
		} {
			c := &Case{Args: append(append([]string{}, args...), m.args...)}
			if i == 0 || i == 4 {
				c.Stdin = &doc
			}

			add(fmt.Sprintf("adhoc|%s|%d", m.name, i), c, map[string]string{"w/i.yaml": fmt.Sprintf(ent["files"], "m", "X")}, m.out)
		}
	}

	// writing over the sources is what was asked for
	add("inplace", &Case{Args: []string{"-i", "i.yaml", "-o", "m"}}, map[string]string{"w/i.yaml": fmt.Sprintf(ent["dir"], "m", "X")}, "w/m")
	add("stdin-in-list", &Case{Args: []string{"-i", "i.yaml"}, Stdin: new(string)},
		map[string]string{"w/i.yaml": "yamlFiles:\n- path: m/b.yaml\n- path: \"-\"\n  outputPath: p.yaml\n"}, "w/output")

	s := "log: q\n"
	bs[len(bs)-1].c.Stdin = &s

	add("env-one", &Case{Args: []string{"env", "YOT_INDENT_LEVEL"}, Env: map[string]string{"YOT_CONFIG_FILE": "c.yaml"}}, map[string]string{"w/c.yaml": "indentLevel: 3\n"}, "")

	return bs
}

type ioOp struct {
	op, name string
	occ, n   int
}

func parseOps(ls []string) []ioOp {
	var o []ioOp

	for _, l := range ls {
		f := strings.Split(l, "|")
		if len(f) != 4 {
			continue
		}

		occ, _ := strconv.Atoi(f[2])
		n, _ := strconv.Atoi(f[3])
		o = append(o, ioOp{f[0], f[1], occ, n})
	}

	return o
}

func (o ioOp) spec(errno, part int) string {
	return fmt.Sprintf("%s|%s|%d|%d|%d", o.op, o.name, o.occ, errno, part)
}

// isOutput says whether the operation produces output.
func (o ioOp) isOutput() bool {
	return o.op == "create" || o.op == "mkdir" || o.op == "rename" || o.op == "write"
}

// abs is the operation's file relative to the sandbox.
func (o ioOp) abs(c *Case) string {
	return strings.TrimPrefix(resolve(c.cwd(), o.name), "/")
}

// firstOutput is the index of the first operation that produces output.
func firstOutput(ops []ioOp) int {
	for i, o := range ops {
		if o.isOutput() {
			return i
		}
	}

	return len(ops)
}

// isInput says whether an operation reads what the run depends on.
func (o ioOp) isInput(c *Case) bool {
	switch o.op {
	case "read", "open", "readdir":
		return true
	case "stat", "lstat":
		_, is := c.Files[o.abs(c)]

		return is
	}

	return false
}

// verifyFault judges a run some of whose operations failed against the
// fault-free run.
func verifyFault(b ioBase, base *Result, before bool) func(*Result) string {
	c := b.c

	return func(r *Result) string {
		if r.Exit == 0 {
			if r.Stdout != base.Stdout {
				return fmt.Sprintf("exit status 0 despite the failure, but stdout is %q instead of %q", clip(r.Stdout, 300), clip(base.Stdout, 300))
			}

			for _, f := range sortedKeys(base.Files) {
				if got, ok := r.Files[f]; !ok || got != base.Files[f] {
					return fmt.Sprintf("exit status 0 despite the failure, but %s is %q instead of %q", f, clip(got, 300), clip(base.Files[f], 300))
				}
			}
		} else if strings.TrimSpace(r.Stderr) == "" {
			return "failed without a message"
		}

		if before && r.Exit != 0 {
			if r.Stdout != "" && !strings.HasPrefix(r.Stdout, "Usage") {
				return fmt.Sprintf("reading failed, but something was output: %q", clip(r.Stdout, 300))
			}

			return filesExactly(c, r, nil)
		}

		for _, f := range sortedKeys(r.Files) {
			got := r.Files[f]
			want, out := base.Files[f]
			old, in := c.Files[f]

			switch {
			case in && got == old:
			case out && in && want == old:
				return fmt.Sprintf("%s, which the run only reads or ignores, was changed to %q", f, clip(got, 300))
			case out && strings.HasPrefix(want, got):
			case out:
				return fmt.Sprintf("%s is %q, which is not a part of the correct %q", f, clip(got, 300), clip(want, 300))
			default:
				return fmt.Sprintf("unexpected file %s: %q", f, clip(got, 300))
			}
		}

		for _, f := range sortedKeys(c.Files) {
			if _, ok := r.Files[f]; !ok {
				return "file " + f + " was removed"
			}
		}

		if !strings.HasPrefix(base.Stdout, r.Stdout) && !strings.HasPrefix(r.Stdout, "Usage") {
			return fmt.Sprintf("stdout is %q, which is not a part of the correct %q", clip(r.Stdout, 300), clip(base.Stdout, 300))
		}

		return ""
	}
}

func exploreIOFaults(x *X) {
	if !haveFaults {
		return
	}

	for _, b := range ioBases(x.Thorough) {
		b := b
		tc := *b.c
		tc.Traced, tc.CLI = true, true

		base, err := x.run.run(&tc, true)
		if err != nil {
			panic(err)
		}

		x.Do(func() *Item {
			return &Item{Key: "io|" + b.key + "|none", Class: "fault-free", Case: b.c, Verify: func(r *Result) string {
				if r.Exit != 0 || r.Stdout != base.Stdout {
					return fmt.Sprintf("fault-free run: exit %d, stdout %q, then %q, stderr %q", r.Exit, clip(r.Stdout, 300), clip(base.Stdout, 300), clip(r.Stderr, 300))
				}

				return ""
			}}
		})

		if base.Exit != 0 {
			continue
		}

		ops := parseOps(base.Ops)
		first := firstOutput(ops)
		x.States++

		emit := func(class, spec string, before bool) {
			x.Transitions++

			x.Do(func() *Item {
				c := *b.c
				c.Fault = spec

				return &Item{Key: "io|" + b.key + "|" + spec, Class: class, Case: &c, Verify: verifyFault(b, base, before)}
			})
		}

		faults := func(o ioOp) [][2]int {
			eio, eacc, enoent, enospc, emfile := int(syscall.EIO), int(syscall.EACCES), int(syscall.ENOENT), int(syscall.ENOSPC), int(syscall.EMFILE)

			switch o.op {
			case "read":
				f := [][2]int{{eio, 0}, {0, 1}}
				if x.Thorough {
					f = append(f, [2]int{0, 2}, [2]int{0, 7}, [2]int{int(syscall.EISDIR), 0})
				}

				return f
			case "write":
				var f [][2]int

				for k := 0; k <= o.n; k++ {
					if x.Thorough || o.n <= 24 || k < 3 || k > o.n-3 || k == o.n/2 {
						f = append(f, [2]int{enospc, k})
					}
				}

				return append(f, [2]int{int(syscall.EPIPE), 0}, [2]int{eio, o.n})
			case "open":
				return [][2]int{{eio, 0}, {enoent, 0}, {eacc, 0}, {emfile, 0}}
			case "create":
				return [][2]int{{enospc, 0}, {enoent, 0}, {eacc, 0}, {emfile, 0}, {int(syscall.EROFS), 0}, {int(syscall.EISDIR), 0}}
			case "mkdir":
				return [][2]int{{enospc, 0}, {enoent, 0}, {eacc, 0}, {int(syscall.ENOTDIR), 0}}
			case "close":
				return [][2]int{{eio, 0}, {enospc, 0}}
			}

			return [][2]int{{eio, 0}, {enoent, 0}, {eacc, 0}}
		}

		for i, o := range ops {
			// which optional configuration files exist is a probe whose failure means "no"
			if o.op == "stat" && strings.Contains(o.name, "config") {
				continue
			}

			for _, f := range faults(o) {
				before := i < first || o.isInput(b.c)
				emit(o.op, o.spec(f[0], f[1]), before)

				// a second fault behind a first one that need not end the run
				ends := f[0] != 0 && o.op != "close" && o.op != "stat" && o.op != "mkdir"
				if !x.Thorough && (ends || f[0] == int(syscall.EACCES)) {
					continue
				}

				for j := i + 1; j < len(ops); j++ {
					p := ops[j]
					if p.op == "stat" && strings.Contains(p.name, "config") {
						continue
					}

					for k, g := range faults(p) {
						if (k > 1 || g[1] != 0) && !x.Thorough {
							continue
						}

						emit("pair", o.spec(f[0], f[1])+";"+p.spec(g[0], g[1]), before && (j < first || p.isInput(b.c)))
					}
				}
			}
		}
	}
}

// A failure of each kind at each position of the instructions.
// failingPlaces has one document on which one overlay fails, at every place of
// streams, lists and files, with every restriction to documents.
func failingPlaces(x *X, docs, list int) {
	good := mergeOv("log", "'g'")

	for n := 1; n <= docs; n++ {
		for at := 0; at < n; at++ {
			var src string

			for i := 0; i < n; i++ {
				src += fmt.Sprintf("---\nlog: %d\nm: %s\n", i, map[bool]string{true: "{q: 1}", false: "s"}[i == at])
			}

			for gate := 0; gate < 9; gate++ {
				for place := 0; place < 4; place++ {
					for file := 0; file < 3; file++ {
						for pos := 0; pos < list; pos++ {
							if !x.Thorough && (n+at+gate+place+file+pos)%4 != 0 && n > 2 {
								continue
							}

							x.Do(func() *Item {
								o := combineOv("m", "x")

								switch gate {
								case 1:
									o.Idx, o.HasIx = []int{at}, true
								case 2:
									o.Idx, o.HasIx = []int{0, at, n - 1}, true
								case 3:
									o.HasIx = true
									for i := n; i >= 0; i-- {
										if i != at {
											o.Idx = append(o.Idx, i)
										}
									}
								case 4:
									o = gated(o, and(cond("m.q")))
								case 5:
									o = gated(o, and(condIs("m", "s")))
								case 6:
									o = gated(o, and(condIs("m.q", "2")), and(cond("zz")), and(cond("log"), condIs("m", "{q: 1}")))
								case 7:
									o.Idx, o.HasIx = []int{at}, true
									o = gated(o, and(condIs("m.q", "1")))
								case 8:
									o.Q = []string{"nothing", "m"}
								}

								var os []Ov

								for k := 0; k < list; k++ {
									if k == pos {
										os = append(os, o)
									} else {
										os = append(os, good)
									}
								}

								in := &Ins{}
								fs := map[string]string{}

								for k := 0; k < 3; k++ {
									f := fmt.Sprintf("m/%c.yaml", 'a'+k)
									in.Ents = append(in.Ents, Ent{Path: f})
									fs["w/"+f] = "log: 0\nm: s\n"

									if k == file {
										fs["w/"+f] = src
									}
								}

								sp := &Spec{Files: fs, Ins: in, Std: (at+pos)%2 == 0}

								switch place {
								case 0:
									in.Common = os
								case 1:
									in.Ents[file].Ovs = os
								case 2:
									if o.HasIx || o.HasDQ {
										return nil // not available there
									}

									in.Ents[file].Docs = []DocEnt{{Path: at, Ovs: os}, {Path: 0, Ovs: []Ov{good}}}
								default:
									if o.HasIx || o.HasDQ {
										return nil
									}

									in.Common = os[:pos]
									sp.CLI = &o
								}

								it := sp.item(fmt.Sprintf("place|%d|%d|%d|%d|%d|%d", n, at, gate, place, file, pos), "failing places")
								it.Trace = n

								return it
							})
						}
					}
				}
			}
		}
	}
}

func exploreFailing(x *X) {
	failingPlaces(x, 5, 3)

	src := map[string]string{
		"w/m/a.yaml":  "log: a0\nk: 1\nl: [1]\ns: x\nm: {q: 1}\n---\nlog: a1\nk: 1\nl: [1]\ns: x\nm: {q: 1}\n",
		"w/m/b.yaml":  "log: b0\nk: 1\nl: [1]\ns: x\nm: {q: 1}\n",
		"w/m/c.yaml":  "log: c0\nk: 1\nl: [1]\ns: x\nm: {q: 1}\n",
		"w/ok/v.yaml": "v: 1\n",
	}

	// overlays that cannot be applied, or cannot be read
	bad := map[string]string{
		"combine-map":     "query: m\n  action: combine\n  value: x",
		"combine-seq":     "query: l\n  action: combine\n  value: [x]",
		"combine-range":   "query: k\n  action: combine\n  value: 9223372036854775807",
		"query-syntax":    "query: \"l[\"\n  action: delete",
		"query-syntax2":   "query: [s, \"l[?(@\"]\n  action: delete",
		"action":          "query: s\n  action: repalce\n  value: 1",
		"docindex":        "query: s\n  documentIndex: [x]\n  action: delete",
		"docquery-syntax": "query: s\n  documentQuery:\n  - conditions:\n    - query: \"a[\"\n      value: 1\n  action: delete",
		"docquery-null":   "query: s\n  documentQuery: [null]\n  action: delete",
		"inject-wildcard": "query: \"$..zz\"\n  action: merge\n  value: 1\n  onMissing: {action: inject, injectPath: \"a[*]\"}",
		"inject-syntax":   "query: \"$..zz\"\n  action: merge\n  value: 1\n  onMissing: {action: inject, injectPath: \"a[\"}",
		"alias":           "query: s\n  value: *nowhere",
		"self-alias":      "query: s\n  value: &a [*a]",
		"field-type":      "query: s\n  documentIndex: {a: b}\n  action: delete",
		"template":        "query: s\n  value: {{ .a.b",
		"yaml":            "query: s\n  value: [1",
	}

	type place struct {
		name string
		file int // 0: common, 1..3: entry
		doc  int // -1: not in documents
		pos  int // among the overlays there
	}

	var places []place

	for f := 0; f <= 3; f++ {
		for doc := -1; doc <= 1; doc++ {
			if f == 0 && doc >= 0 || f > 1 && doc == 1 {
				continue
			}

			for pos := 0; pos < 3; pos++ {
				places = append(places, place{fmt.Sprintf("f%dd%dp%d", f, doc, pos), f, doc, pos})
			}
		}
	}

	outs := [][]string{{"-s"}, {}, {"-o", "x"}}
	good := "- query: log\n  action: combine\n  value: \" g\"\n"

	list := func(has bool, pos int, b string) string {
		s := ""

		for k := 0; k < 3; k++ {
			if has && k == pos {
				s += "- " + b + "\n"
			} else {
				s += good
			}
		}

		return s
	}

	for _, kind := range sortedKeys(bad) {
		for _, p := range places {
			for oi, out := range outs {
				for v := 0; v < 2; v++ {
					x.Do(func() *Item {
						ins := "commonOverlays:\n" + list(p.file == 0, p.pos, bad[kind]) + "yamlFiles:\n"

						for f := 1; f <= 3; f++ {
							ins += fmt.Sprintf("- path: m/%s.yaml\n", string(rune('a'+f-1)))
							ins += "  overlays:\n" + indentText(list(p.file == f && p.doc < 0, p.pos, bad[kind]), len("  ")) + "\n"

							if p.file == f && p.doc >= 0 {
								ins += fmt.Sprintf("  documents:\n  - path: %d\n    overlays:\n", p.doc) + indentText(list(true, p.pos, bad[kind]), len("    ")) + "\n"
							}
						}

						c := &Case{Files: map[string]string{"w/i.yaml": ins}, Args: append([]string{"-i", "i.yaml"}, out...)}
						for k, t := range src {
							c.Files[k] = t
						}

						if v == 1 {
							c.Args = append(c.Args, "-f", "ok/v.yaml")
						} else if strings.HasPrefix(kind, "template") {
							return nil // no template is processed without values
						}

						e := Exp{Fail: true}

						return &Item{Key: fmt.Sprintf("fail|%s|%s|%d|%d", kind, p.name, oi, v), Class: "failing overlay", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
					})
				}
			}
		}
	}

	mixedMatches(x)

	// inputs that cannot be read, at each position
	badFiles := map[string]func(c *Case, f string){
		"missing":   func(c *Case, f string) { delete(c.Files, f) },
		"malformed": func(c *Case, f string) { c.Files[f] = "a: [1\n" },
		"second":    func(c *Case, f string) { c.Files[f] = "a: 1\n---\nb: 2\n---\nb: [}\n" },
		"utf8":      func(c *Case, f string) { c.Files[f] = "a: \xff\xfe\n" },
		"noaccess":  func(c *Case, f string) { c.Modes = map[string]uint32{f: 0} },
		"dangling":  func(c *Case, f string) { delete(c.Files, f); c.Symlinks = map[string]string{f: "nowhere"} },
		"alias":     func(c *Case, f string) { c.Files[f] = "a: *x\n" },
	}
	ins := "commonOverlays:\n" + good + "yamlFiles:\n- path: m/a.yaml\n- path: m/b.yaml\n  overlays:\n" + indentText(good, len("  ")) + "\n" + "- path: m/c.yaml\n"
	dirIns := "commonOverlays:\n" + good + "yamlFiles:\n- path: m\n"

	for _, kind := range sortedKeys(badFiles) {
		for _, f := range []string{"w/m/a.yaml", "w/m/b.yaml", "w/m/c.yaml", "w/i.yaml", "w/v1.yaml", "w/v2.yaml", "w/conf.yaml"} {
			for oi, out := range outs {
				for v := 0; v < 5; v++ {
					x.Do(func() *Item {
						isIn := strings.HasPrefix(f, "w/m/")
						c := &Case{Files: map[string]string{"w/v1.yaml": "a: 1\n", "w/v2.yaml": "b: 2\n", "w/conf.yaml": "indentLevel: 3\n"}}

						for k, t := range src {
							c.Files[k] = t
						}

						switch v {
						case 0, 1:
							c.Files["w/i.yaml"] = []string{ins, dirIns}[v]
							c.Args = append([]string{"-i", "i.yaml", "-f", "v1.yaml", "-f", "v2.yaml", "--config", "conf.yaml"}, out...)
						case 2:
							if !isIn {
								return nil
							}

							c.Args = append([]string{"-p", f[2:], "-q", "log", "-x", "n"}, out...)
						case 3:
							if !isIn {
								return nil
							}

							c.Args = append([]string{"-p", "m", "-q", "log", "-x", "n"}, out...)
						case 4:
							c.Files["w/i.yaml"] = ins
							c.Args = append([]string{"-i", "i.yaml", "-f", "v1.yaml", "-f", "v2.yaml"}, out...)
							c.Env = map[string]string{"YOT_CONFIG_FILE": "conf.yaml"}
						}

						if kind == "missing" && (v == 1 || v == 3) && isIn {
							return nil // a directory's files are those that are there
						}

						if kind == "alias" && !isIn && f != "w/i.yaml" || kind == "second" && !isIn {
							return nil
						}

						badFiles[kind](c, f)
						e := Exp{Fail: true}

						return &Item{Key: fmt.Sprintf("input|%s|%s|%d|%d", kind, f, oi, v), Class: "unreadable input", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
					})
				}
			}
		}
	}

	// outputs that cannot be written: the failing file at each position
	type obstacle struct {
		name string
		set  func(c *Case, f string)
	}

	obstacles := []obstacle{
		{"directory", func(c *Case, f string) { c.Dirs = append(c.Dirs, f) }},
		{"readonly", func(c *Case, f string) { c.Files[f] = "old: 1\n"; c.Modes = map[string]uint32{f: 0o444} }},
		{"parent-file", func(c *Case, f string) { c.Files[f[:strings.LastIndex(f, "/")]] = "old: 1\n" }},
		{"parent-readonly", func(c *Case, f string) {
			d := f[:strings.LastIndex(f, "/")]
			c.Dirs = append(c.Dirs, d)
			c.Modes = map[string]uint32{d: 0o555}
		}},
		{"dangling", func(c *Case, f string) { c.Symlinks = map[string]string{f: "no/where"} }},
		{"full", func(c *Case, f string) { c.Symlinks = map[string]string{f: "/dev/full"} }},
	}

	for _, ob := range obstacles {
		for k := 0; k < 3; k++ {
			for v := 0; v < 2; v++ {
				x.Do(func() *Item {
					c := &Case{Args: []string{"-i", "i.yaml", "-o", "x"}, Files: map[string]string{
						"w/i.yaml": "commonOverlays:\n" + good + "yamlFiles:\n- path: m/a.yaml\n  outputPath: p0/a.yaml\n- path: m/b.yaml\n  outputPath: p1/b.yaml\n- path: m/c.yaml\n  outputPath: p2/c.yaml\n"}}
					for n, t := range src {
						c.Files[n] = t
					}

					if ob.name == "full" {
						if _, err := os.Stat("/dev/full"); err != nil {
							return nil
						}
					}

					f := fmt.Sprintf("w/x/p%d/%s.yaml", k, string(rune('a'+k)))
					if v == 1 {
						c.Args = []string{"-i", "i.yaml", "-o", "{{ROOT}}/w/x"}
					}

					ob.set(c, f)

					return &Item{Key: fmt.Sprintf("out|%s|%d|%d", ob.name, k, v), Class: "unwritable output", Case: c, CLI: ob.name == "full", Verify: func(r *Result) string {
						e := Exp{Fail: true, AnyOut: true}
						if m := e.verify(c, r); m != "" {
							return m
						}

						for _, l := range strings.Fields(r.Stdout) {
							p := strings.TrimPrefix(resolve(c.cwd(), l), "/")
							if p == f {
								continue
							}

							if _, ok := r.Files[p]; !ok {
								return "listed " + l + " was not written"
							}
						}

						for n := k + 1; n < 3; n++ {
							g := fmt.Sprintf("w/x/p%d/%s.yaml", n, string(rune('a'+n)))
							if t, ok := r.Files[g]; ok {
								if m := docsEqual(g, t, []*N{mustParse(strings.Replace(strings.Split(src[fmt.Sprintf("w/m/%s.yaml", string(rune('a'+n)))], "---")[0], "0\n", "0 g\n", 1))}); m != "" {
									return m
								}
							}
						}

						return ""
					}}
				})
			}
		}
	}

	// standard output that cannot be written
	if _, err := os.Stat("/dev/full"); err == nil {
		for i, args := range [][]string{{"-i", "i.yaml", "-s"}, {"-i", "i.yaml"}, {"-i", "i.yaml", "-o", "x"}, {"env"}, {"env", "YOT_STDOUT"}, {"-p", "m", "-q", "log", "-x", "n"}, {"-p", "m", "-s"}} {
			x.Do(func() *Item {
				c := &Case{Args: args, StdoutTo: "/dev/full", Files: map[string]string{"w/i.yaml": ins}}
				for n, t := range src {
					c.Files[n] = t
				}

				e := Exp{Fail: true, AnyOut: true}

				return &Item{Key: fmt.Sprintf("devfull|%d", i), Class: "full stdout", CLI: true, Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
			})
		}
	}

	// settings and options that cannot be honoured
	for i, args := range [][]string{
		{"-i", "nowhere.yaml"}, {"-i", "i.yaml", "-f", "nowhere.yaml"}, {"-i", "i.yaml", "--config", "nowhere.yaml"},
		{"-i", "i.yaml", "-I", "x"}, {"-i", "i.yaml", "-I", "-1"}, {"-i", "i.yaml", "--log-level", "loud"}, {"-i", "i.yaml", "--nosuch"},
		{"-p", "nowhere", "-q", "a", "-x", "1"}, {"-p", "m", "-q", "a[", "-x", "1"}, {"-p", "m", "-q", "a", "-a", "nosuch", "-x", "1"},
		{"-p", "m", "-q", "log", "-x", "[1"}, {"-p", "m", "-q", "log", "-x", "*a"}, {"-i", "m"},
		{"-i", "i.yaml", "--output-style", "nosuch"},
		{"nosuch"},
	} {
		for oi, out := range outs {
			x.Do(func() *Item {
				c := &Case{Args: append(append([]string{}, args...), out...), Files: map[string]string{"w/i.yaml": ins}}
				for n, t := range src {
					c.Files[n] = t
				}

				e := Exp{Fail: true}

				return &Item{Key: fmt.Sprintf("option|%d|%d", i, oi), Class: "unusable option", CLI: true, Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
			})
		}
	}
}

func init() {
	register(&Check{
		ID: "C20", Level: "model_checking",
		Rule: "every single fault (and pairs) of every I/O operation of representative runs - each open, create, read, write (after any number of bytes), close, stat, readdir and mkdir fails with each of several errors, or transfers less - injected into the real code through the standard library; every kind of unreadable or inapplicable input at every position of bounded instructions; real unwritable outputs; one failing document at every place of streams, lists of overlays, levels and files, with every restriction to documents",
		Assume: []string{
			"faults are delivered where package os enters the operation; errors of optional configuration-file probes (stat) are exempt",
			"a failed write leaves a prefix of what was to be written",
		},
		Explore: func(x *X) {
			exploreIOFaults(x)
			exploreFailing(x)
		},
	})
}
