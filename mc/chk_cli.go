//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// cliArgs are the flags of a command-line overlay.
func cliArgs(o Ov, form int) []string {
	var a, q0 []string

	for _, q := range o.Q {
		switch form % 3 {
		case 0:
			q0 = append(q0, "-q", q)
		case 1:
			q0 = append(q0, "--query="+q)
		case 2:
			q0 = append(q0, "--query", q)
		}
	}

	if o.Act != "" {
		a = append(a, [][]string{{"-a", o.Act}, {"--action=" + o.Act}, {"-a" + o.Act}}[form%3]...)
	}

	if o.HasV {
		a = append(a, [][]string{{"-x", o.Val}, {"--value=" + o.Val}, {"--value", o.Val}}[form%3]...)
	}

	if form >= 3 { // the queries last, or around the rest
		n := 0
		if form == 5 {
			n = len(q0) / 4 * 2
		}

		return append(append(append([]string{}, q0[:n]...), a...), q0[n:]...)
	}

	return append(q0, a...)
}

// overlayText is the overlay as an instructions file has it.
func overlayText(o Ov) string {
	var b strings.Builder

	if len(o.Q) == 1 {
		b.WriteString("- query: " + dq(o.Q[0]) + "\n")
	} else {
		b.WriteString("- query:\n")

		for _, q := range o.Q {
			b.WriteString("  - " + dq(q) + "\n")
		}
	}

	if o.Act != "" {
		b.WriteString("  action: " + o.Act + "\n")
	}

	if o.HasV {
		b.WriteString("  value:\n" + indentText(o.Val, 4) + "\n")
	}

	return b.String()
}

// cliItem runs one overlay on a stream from the command line with a file, a
// directory, stdin, and a file of the instructions, and as common overlay.
func cliItem(key, class, src string, o Ov, opts ...string) *Item {
	c := &Case{Files: map[string]string{
		"w/d/a.yaml":  src,
		"w/i.yaml":    "commonOverlays:\n" + overlayText(o) + "yamlFiles:\n- path: d/a.yaml\n",
		"w/none.yaml": "yamlFiles:\n- path: d/a.yaml\n",
	}}

	form := 0
	for _, ch := range key {
		form = (form + int(ch)) % 6
	}

	with := func(a ...string) []string { return append(append(a, opts...), "-s") }
	c.Args = with("-i", "i.yaml")

	runs := [][]string{with(append(cliArgs(o, form), "-p", "d/a.yaml")...), with(append([]string{"-p", "./d"}, cliArgs(o, form+1)...)...), with(append(cliArgs(o, form+2), "-p-")...), with(append([]string{"-i", "none.yaml"}, cliArgs(o, form+3)...)...)}
	for i, a := range runs {
		s := &Case{Args: a}
		if i == 2 {
			s.Stdin = &src
		}

		c.Steps = append(c.Steps, s)
	}

	return &Item{Key: key, Class: class, Case: c, Trace: len(runs), Verify: func(r *Result) string {
		for i, n := range r.Next {
			if (n.Exit == 0) != (r.Exit == 0) {
				return fmt.Sprintf("%q: exit status %d (%s), as common overlay %d (%s)", runs[i], n.Exit, clip(n.Stderr, 300), r.Exit, clip(r.Stderr, 300))
			}

			if n.Exit != 0 && strings.TrimSpace(n.Stderr) == "" {
				return "failed without a message"
			}

			if n.Exit == 0 && n.Stdout != r.Stdout {
				return fmt.Sprintf("%q: output %q, as common overlay %q", runs[i], clip(n.Stdout, 600), clip(r.Stdout, 600))
			}
		}

		return filesExactly(c, r.Next[len(r.Next)-1], nil)
	}}
}

var cliQueries = []string{
	"*", "$", "$.*", "['a']", "[\"a\"]", "['a', 'c']", "['a','c']", "[0]", "a # b", "a: b", "$['x: y']", "['x: y']", "['#']", "$['it''s']", "['it\\'s']", "x\\.y", "[*]", "l[0]", "l[-1]", "l[0,1]", "l[?(@.k=='x')]", "l[?(@.k=='x')].n", "l[?(@.k==\"x\")].n", "..n", "..*", "a~", "m~", "m.*~", "a,c", "a, c", " a", "a ", "\"a\"", "'a'", "null", "~", "true", "5", "0x10", "1e3", "&x a", "*x", "!x a", "- a", "-a", "? a", "%a", "@", "`", "{a: b}", "[a, c]", "|", ">", "a\n", "a\nb", "\ta", "é", "...", "---", "--- a", "$['']", ".", "..", "$.", "a.", "[", "a[", "a[?", "l[?(@.n>1)]", "l[?(@.n=~/1/)]", "m['p','q']", "zz.y", "zz['a.b'].c", "zz.*", "", "=", "<<", "!!str a", "a\\", "'", "\"",
}

var cliValues = []string{
	"v", "7", "true", "~", "''", "'5'", "{n: 1}", "[9]", "{a: {b: [1, {c: d}]}}", "n: 1\nm: [2]", "- x\n- y", "|\n  t\n  u\n", ">-\n  t\n  u", "\"q\\n\"", "%v-%v", "'%k'", "{'%k': '%v'}", "{'%k-new': 1}", "v # note", "# h\nn: 1", "{{ .a }}", "'{{ .a }}'", "!custom x", "&an v", "{x: &an [1], y: *an}", "1.50", "0x1F", "2001-01-01", "é", "a, b", "-1", "- -1", "--x", "%v{s/./X/}", "[]", "{}", "null", "{a: ~}",
}

var badValues = []string{"{", "[1", "'", "a: b: c", "*nope", "@", "`x`", "a:\n\tb", "!!int x: [", "{a: *b}", "%x y\n"}

const cliDocs = "a: x\nc: y\nm: {p: 1, q: [2]}\nl: [{k: x, n: 1}, {k: y, n: 2}]\n'x: y': 1\n'#': 2\n\"it's\": 3\nx.y: 4\né: 5\nn: 6\n'': 7\n'null': 8\n'5': 9\n---\na: true\nl: []\n---\n- 1\n- [2]\n---\ntext\n"

func exploreC18(x *X) {
	acts := []string{"", "merge", "replace", "delete", "combine"}

	// 1. all queries, all values, all actions
	qs := append(append([]string{}, cliQueries...), frameQueries...)

	for qi, q := range qs {
		for _, act := range acts {
			for _, om := range []string{"", "inject"} {
				if om != "" && act != "" && act != "replace" {
					continue
				}

				var opts []string
				if om != "" {
					opts = []string{"--default-on-missing-action", om}
				}

				vals := []string{"v", "{n: 1}", "[9]"}

				if act == "combine" {
					vals = []string{"7", "v", "true"}
				}

				for _, v := range vals {
					x.Do(func() *Item {
						return cliItem(fmt.Sprintf("q|%d|%s|%s|%s|%s", qi, q, act, v, om), "queries", cliDocs, Ov{Q: []string{q}, Act: act, Val: v, HasV: true}, opts...)
					})
				}
			}
		}
	}

	few := []string{"a", "m", "l[0]", "..n", "$", "l", "zz.y", "m.q"}

	for vi, v := range append(append([]string{}, cliValues...), badValues...) {
		for _, act := range acts {
			for _, q := range few {
				for _, opts := range [][]string{nil, {"-S", "flow"}, {"--remove-comments"}, {"--default-on-missing-action", "inject", "-I", "4"}} {
					x.Do(func() *Item {
						return cliItem(fmt.Sprintf("v|%d|%s|%s|%v", vi, act, q, opts), "values", cliDocs, Ov{Q: []string{q}, Act: act, Val: v, HasV: true}, opts...)
					})
				}
			}
		}
	}

	for _, act := range acts {
		for _, q := range qs {
			x.Do(func() *Item {
				return cliItem(fmt.Sprintf("nov|%s|%s", act, q), "no value", cliDocs, Ov{Q: []string{q}, Act: act})
			})
		}
	}

	// 2. several query flags form one list
	few = []string{"a", "c", "m.p", "zz", "l[*]", "a", "['x: y']", "a,c"}

	depth := 3
	if x.Thorough {
		depth = 4
	}

	seqs(len(few), depth, func(ix []int) {
		if len(ix) < 2 {
			return
		}

		for _, act := range []string{"", "replace", "delete", "combine"} {
			for _, om := range []string{"ignore", "inject"} {
				x.Do(func() *Item {
					var q []string
					for _, i := range ix {
						q = append(q, few[i])
					}

					return cliItem(fmt.Sprintf("list|%v|%s|%s", ix, act, om), "query lists", cliDocs, Ov{Q: q, Act: act, Val: "v", HasV: true}, "--default-on-missing-action", om)
				})
			}
		}
	})

	// 3. in combination with an instructions file and any path, against the model
	files := map[string]string{"w/a.yaml": "a: x\nb: {c: 1}\n---\na: y\n", "w/d/b.yaml": "b: {c: 2, d: [3]}\na: z\n", "w/d/e/c.yml": "a: q\nb: 1\n", "w/d/no.txt": "a: [\n"}
	stdin := "a: in\nb: {c: 0}\n---\na: put\n"

	commons := [][]Ov{nil, {{Q: []string{"a"}, Val: "common", HasV: true, Act: "combine"}}, {{Q: []string{"a"}, Val: "first", HasV: true}, {Q: []string{"b"}, Act: "delete"}}}
	entOv := []Ov{{Q: []string{"a"}, Act: "combine", Val: "-ent", HasV: true}}
	entSets := [][]Ent{nil, {{Path: "a.yaml"}}, {{Path: "a.yaml", Ovs: entOv}, {Path: "d", Ovs: entOv}}, {{Path: "d/b.yaml", Out: "named.yaml", Docs: []DocEnt{{Path: 0, Ovs: entOv}}}}, {{Path: "d", Out: "sub"}, {Path: "a.yaml", Out: "x/y.yaml", Ovs: entOv}}}
	paths := []string{"", "a.yaml", "d", "d/b.yaml", "./d/../a.yaml", "{{ROOT}}/w/a.yaml", "-", ".", "d/e", "nope.yaml", "{{ROOT}}/w/d/"}
	clis := []*Ov{nil, {Q: []string{"a"}, Act: "combine", Val: "-cli", HasV: true}, {Q: []string{"a", "b.c"}, Act: "replace", Val: "{n: cli}", HasV: true}, {Q: []string{"b", "zz"}, Act: "delete"}, {Q: []string{"n.e.w"}, Val: "cli", HasV: true}, {Q: []string{"b"}, Val: "{c: cli}", HasV: true}, {Q: []string{"$"}, Act: "delete"}}

	for ci, cm := range commons {
		for ei, es := range entSets {
			for _, p := range paths {
				for oi, o := range clis {
					for mode := 0; mode < 6; mode++ {
						if ei == 0 && (p == "" || ci > 0 && false) {
							continue
						}

						x.Do(func() *Item {
							sp := &Spec{Files: files, InsAt: "w/i.ins", Path: p, CLI: o, Std: mode%3 == 0, Stdin: &stdin}

							if ci > 0 || ei > 0 || mode >= 3 {
								sp.Ins = &Ins{Common: cm, Ents: es}
							}

							if mode%3 == 2 {
								sp.OutD = "o/p"
							}

							if mode >= 3 {
								sp.DefOM = "inject"
							}

							return sp.item(fmt.Sprintf("with|%d|%d|%s|%d|%d", ci, ei, p, oi, mode), "with instructions")
						})
					}
				}
			}
		}
	}

	// 4. any content read from stdin is like the content of a file
	contents := append([]string{"", "\n", "# only\n", "---\n", "a: 1", "---\na: 1\n...\n", "a: 1\n...\n---\nb: 2\n", "%YAML 1.1\n---\na: 1\n", "\ufeffa: 1\n", "a: [1\n", "a: 1\r\nb: 2\r\n", "a: 1\n---\n\tb: [\n", "a: " + strings.Repeat("long ", 20000) + "\n", strings.Repeat("---\na: {b: [1, 2, 3]}\n", 800), strings.Repeat("- x\n", 5000), "a: \x01\n", "a: \"\\x01\"\n", "a: é\xff\n"}, commentFrames...)
	contents = append(contents, strings.Split(strings.Join(valueFiles, "\x00"), "\x00")...)

	for i, t := range contents {
		for _, out := range []string{"", "-oo/p", "-s"} {
			for oi, o := range clis {
				x.Do(func() *Item {
					var extra []string
					if o != nil {
						extra = cliArgs(*o, i)
					}

					if out != "" {
						extra = append(extra, out)
					}

					c := &Case{Files: map[string]string{"w/stdin.yaml": t}, Args: append([]string{"-p", "stdin.yaml"}, extra...), CLI: (i+oi)%5 == 0}
					c.Steps = []*Case{{Args: append([]string{"-p", "-"}, extra...), Stdin: &t, CLI: c.CLI}}

					return &Item{Key: fmt.Sprintf("stdin|%d|%s|%d", i, out, oi), Class: "standard input", Case: c, Trace: 2, Verify: func(r *Result) string {
						n := r.Next[0]

						if r.Exit != n.Exit {
							return fmt.Sprintf("from stdin exit status %d (%s), from a file %d (%s)", n.Exit, clip(n.Stderr, 300), r.Exit, clip(r.Stderr, 300))
						}

						if r.Exit == 0 && r.Stdout != n.Stdout {
							return fmt.Sprintf("from stdin %q, from a file %q", clip(n.Stdout, 500), clip(r.Stdout, 500))
						}

						a, b := canonFiles(r.Files), canonFiles(n.Files)
						if a != b {
							return fmt.Sprintf("files from stdin:\n%s\nfrom a file:\n%s", clip(b, 600), clip(a, 600))
						}

						return ""
					}}
				})
			}
		}
	}

	// stdin leaves the places where other files go alone
	for _, p := range []string{"out", "a/b"} {
		x.Do(func() *Item {
			c := &Case{Files: map[string]string{"w/x/stdin.yaml": "a: file\n", "w/i.yaml": "yamlFiles:\n- path: x/stdin.yaml\n  outputPath: z.yaml\n- path: x/stdin.yaml\n"}, Args: []string{"-i", "i.yaml", "-p", "-", "-o", p, "-q", "a", "-x", "v"}, Stdin: &stdin}

			return &Item{Key: "both|" + p, Class: "standard input", Case: c, Verify: func(r *Result) string {
				return Exp{Files: map[string][]*N{"w/" + p + "/z.yaml": {mustParse("a: v")}, "w/" + p + "/stdin.yaml": {mustParse("a: v\nb: {c: 0}\n"), mustParse("a: v")}}, List: []string{p + "/z.yaml", p + "/stdin.yaml"}}.verify(c, r)
			}}
		})
	}
}

func canonFiles(fs map[string]string) string {
	var b strings.Builder
	for _, f := range sortedKeys(fs) {
		b.WriteString(f + ": " + fs[f] + "\n")
	}

	return b.String()
}

func init() {
	register(&Check{ID: "C18", Level: "model_checking", Explore: exploreC18,
		Rule:   "every overlay run five times in one sandbox - as common overlay of an instructions file, and from the command line with the file, its directory, standard input, and an instructions file listing the file - with byte-identical stdout and the same success: 154 query texts (YAML-special and invalid ones included) x 5 actions x 3 values x default onMissing, 50 values (11 invalid) x 5 actions x 8 queries x 4 option sets, all lists of 2-3 (4) of 8 queries, missing values, all spellings and orders of the flags; all combinations of 3 common overlay lists, 5 entry lists, 11 paths, 7 command-line overlays and 6 modes against the model; 44 stream contents (any line ends, empty, invalid, large) x 7 overlays x 3 outputs from stdin against the same content in a file",
		Assume: []string{"the meaning of common overlays is decided by C02-C12"}})
}
