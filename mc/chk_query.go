//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

func cond(q string) Cond           { return Cond{Q: []string{q}} }
func condIs(q, v string) Cond      { return Cond{Q: []string{q}, Val: v, HasV: true} }
func gated(o Ov, dq ...[]Cond) Ov  { o.DQ, o.HasDQ = dq, true; return o }
func injOv(act, q, val string) Ov  { o := ov(act, q, val); o.OM = "inject"; return o }
func and(c ...Cond) []Cond         { return c }
func joinDocs(ds ...string) string { return strings.Join(ds, "---\n") }

// streamItem runs one list of common overlays over one stream of documents.
func streamItem(key, class, stream string, os []Ov, place int) *Item {
	sp := &Spec{Files: map[string]string{"w/a.yaml": stream}, Std: true}

	switch place {
	case 0:
		sp.Ins = &Ins{Common: os, Ents: []Ent{{Path: "a.yaml"}}}
	case 1:
		sp.Ins = &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: os}}}
	default:
		sp.Ins = &Ins{Common: os[:1], Ents: []Ent{{Path: "a.yaml", Ovs: os[1:]}}}
	}

	it := sp.item(key, class)
	it.Trace = len(os)

	return it
}

func exploreC03(x *X) {
	docs := []string{
		"kind: Pod\nmetadata: {name: n1, labels: {app.io/x: y}}\nports: [{p: 1, q: a}, {p: 2, q: a}]\n",
		"kind: Svc\nmetadata: {name: n2}\nports: [{p: 1, q: a}]\nname: n2\n",
		"kind: Pod\nmetadata: {name: [n1]}\nports: []\n",
		"metadata: null\nkind: {a: Pod}\n",
		"- kind: Pod\n- {p: 1, q: a}\n",
		"Pod\n", "{}\n", "kind: 5\nname: true\nports: [{p: '1', q: 2}]\n", "kind: ''\nmetadata: {}\nports: {p: 1, q: a}\n",
		"kind: null\nmetadata: {name: n1, labels: {app.io/x: null}}\nname: n1\n",
	}
	qs := [][]string{{"kind"}, {"$.kind"}, {"metadata.name"}, {"metadata"}, {"metadata.labels['app.io/x']"}, {"ports"}, {"ports[*].p"}, {"ports[*].q"}, {"ports[0]"}, {"ports[1].p"},
		{"ports[?(@.p==1)].q"}, {"..name"}, {"..q"}, {"zz"}, {"zz.y"}, {"$"}, {"kind~"}, {"metadata.*"}, {"kind", "name"}, {"zz", "kind"}, {"zz", "yy"}, {"name", "metadata.name"}, {"[0].kind"}}
	vals := []string{"", "Pod", "n1", "n2", "y", "1", "a", "2", "5", "true", "null", "''", "{}", "[]", "[n1]", "{name: n2}", "{p: 1, q: a}", "kind", "'1'", "'5'", "'true'", "'null'", "{a: Pod}", "[{p: 1, q: a}]"}

	var flat []string
	for _, q := range qs {
		flat = append(flat, q...)
	}

	if n, err := selfCheckQueries(docs, flat); err != nil {
		panic(err)
	} else {
		x.Count("query_selfcheck", n)
	}

	acts := []Ov{injOv("merge", "mark", "1"), deleteOv("$"), {Q: []string{"kind", "[0]"}, Act: "replace", Val: "{r: 1}", HasV: true}, injOv("replace", "new.path", "v"), {Q: []string{"..nope"}, Act: "merge", Val: "5", HasV: true, OM: "inject", IP: []string{"i.j"}}, combineOv("$", "x")}
	maps := joinDocs(append(append([]string{}, docs[:4]...), docs[6:]...)...)
	all := joinDocs(docs...)

	for qi, q := range qs {
		for vi, v := range vals {
			for ai, a := range acts {
				c := Cond{Q: q, Val: v, HasV: v != ""}

				x.Do(func() *Item {
					s := maps
					if ai == 1 || ai == 2 {
						s = all
					}

					if ai == 5 {
						s = "Pod\n---\nkind: Pod\n" // combine fails on the map only if it is not gated out
					}

					return streamItem(fmt.Sprintf("single|%v|%s|%d", q, v, ai), "single", s, []Ov{gated(a, and(c))}, (qi+vi)%2)
				})
			}
		}
	}

	// every formula of up to 2 (3) groups of up to 2 conditions over 4 independent atoms; the stream has a document for each truth assignment
	atoms := []Cond{cond("p"), condIs("q", "1"), condIs("r[*]", "x"), {Q: []string{"s", "t"}, Val: "{k: [v]}", HasV: true}}

	var tt []string

	for m := 0; m < 16; m++ {
		d := fmt.Sprintf("id: %d\n", m)
		d += []string{"o: 1\n", "p: 0\n"}[m&1]
		d += []string{"q: '1'\n", "q: 1\n"}[m>>1&1]
		d += []string{"r: [x, y]\n", "r: [x, x]\n"}[m>>2&1]
		d += []string{"s: {k: [v]}\nt: {k: [w]}\n", "s: {k: [v]}\n"}[m>>3&1]
		tt = append(tt, d)
	}

	groups := [][]Cond{{}}
	for _, a := range atoms {
		groups = append(groups, and(a))
	}

	for _, a := range atoms {
		for _, b := range atoms {
			groups = append(groups, and(a, b))
		}
	}

	if x.Thorough {
		for _, a := range atoms {
			for _, b := range atoms {
				for _, c := range atoms {
					groups = append(groups, and(a, b, c))
				}
			}
		}
	}

	formula := func(key string, dq [][]Cond, k int) {
		x.Do(func() *Item {
			os := []Ov{gated(injOv("merge", "hit", "yes"), dq...), gated(deleteOv("id"), dq...)}
			it := streamItem("formula|"+key, "formula", joinDocs(tt...), os, k%3)
			it.Trace = 32

			return it
		})
	}

	formula("[]", nil, 0)

	for i := range groups {
		formula(fmt.Sprint(i), groups[i:i+1], i)

		for j := range groups {
			formula(fmt.Sprint(i, j), [][]Cond{groups[i], groups[j]}, i+j)

			if len(groups[i]) < 2 && len(groups[j]) < 2 || x.Thorough && len(groups[i]) < 3 && len(groups[j]) < 3 {
				for k := range groups {
					if len(groups[k]) < 3 {
						formula(fmt.Sprint(i, j, k), [][]Cond{groups[i], groups[j], groups[k]}, i+j+k)
					}
				}
			}
		}
	}

	// the same data in other spellings meets the condition, other data does not
	same := [][]string{
		{"v", "'v'", `"v"`, "v # c", "# h\nv", "!!str v", "&x v", "|-\n  v", ">-\n  v"},
		{"{a: 1, b: [x, y]}", "{a: 1, \"b\": ['x', y]}", "a: 1\nb:\n- x\n- y", "# h\na: 1 # l\n# in\nb: # m\n- x\n# f\n- y", "&z {a: 1, b: &w [x, y]}", "!!map {a: 1, b: [x, y]}"},
		{"[]", "[ ]", "[] # c", "&e []", "!!seq []"},
		{"{}", "{ }", "{} # c", "&e {}"},
		{"null", "null # c", "!!null null"},
		{"5", "5 # five", "!!int 5", "&n 5"},
		{"true", "true # t", "&n true", "!!bool true"},
		{"'5'", `"5"`, "!!str 5"},
		{"''", `""`, "!!str"},
		{"'true'", `"true"`},
		{"'null'", `"null"`},
		{"[1, {a: []}]", "- 1\n- a: []", "- 1\n- # c\n  a: []"},
		{"'l1\n\n  l2\n\n  '", "|\n  l1\n  l2", `"l1\nl2\n"`},
		{"{a: '1', b: [x, y]}"}, {"{a: 1, b: [y, x]}"}, {"{a: 1}"}, {"{a: 1, b: [x]}"}, {"[5]"}, {"{v: v}"}, {"V"}, {"false"}, {"5.5"}, {"[[]]"}, {"[{}]"}, {"[null]"}, {"{a: null}"},
	}

	for gi, g := range same {
		for di, dt := range g {
			for gj, h := range same {
				for vi, vt := range h {
					if gi != gj && (vi > 0 && di > 0) {
						continue
					}

					for n := 0; n < 2; n++ {
						x.Do(func() *Item {
							put := func(s, pre string, ind int) string {
								s = strings.TrimSuffix(s, "\n")
								if strings.HasPrefix(s, "|") || strings.HasPrefix(s, ">") || strings.HasPrefix(s, "'l1") {
									return pre + " " + strings.ReplaceAll(s, "\n", "\n"+strings.Repeat(" ", ind)) + "\n"
								}

								if strings.Contains(s, "\n") {
									return pre + "\n" + indentText(s, ind+2) + "\n"
								}

								return pre + " " + s + "\n"
							}

							d, q := put(dt, "k:", 0), "k"
							if n == 1 {
								d, q = "o:\n"+put(dt, "  k:", 2)+"k: 0\n", "o.k"
							}

							ins := "commonOverlays:\n- query: nw\n  value: 1\n  onMissing:\n    action: inject\n  documentQuery:\n  - conditions:\n    - query: " + q + "\n" + put(vt, "      value:", 6) + "yamlFiles:\n- path: a.yaml\n"

							c := &Case{Files: map[string]string{"w/a.yaml": d, "w/i.yaml": ins}, Args: []string{"-i", "i.yaml", "-s"}}
							want := mustParse(d)

							if gi == gj {
								want.set("nw", mustParse("1"))
							}

							e := Exp{Stdout: true, Docs: []*N{want}}

							return &Item{Key: fmt.Sprintf("same|%d.%d|%d.%d|%d", gi, di, gj, vi, n), Class: "spelling", Case: c, Trace: 1, Verify: func(r *Result) string { return e.verify(c, r) }}
						})
					}
				}
			}
		}
	}

	// gates see the document as it stands: all sequences
	v1 := [][]Cond{{condIs("a", "1")}}
	v2 := [][]Cond{{condIs("a", "2"), cond("b")}, {condIs("c[*]", "z")}}
	alpha := []Ov{
		mergeOv("a", "1"), gated(injOv("merge", "a", "2"), v1...), gated(injOv("replace", "b", "{x: 1}"), v2...), deleteOv("a"), gated(deleteOv("b"), and(cond("b.x"))),
		gated(injOv("merge", "c", "[z]"), and(condIs("b", "{x: 1}"))), gated(deleteOv("$"), and(cond("c"), condIs("a", "1"))), gated(injOv("merge", "d.e", "n"), and(cond("zz")), and(condIs("..x", "1"))),
		gated(replaceOv("a~", "c"), v1...), gated(mergeOv("*", "w")), injOv("merge", "a", "1"), gated(combineOv("a", "1"), and(condIs("a", "1"))),
	}
	h := history{name: "hist", inits: []string{"a: 1\n---\na: 2\nb: {x: 1}\n", "c: [z]\nb: 0\n---\n{}\n---\na: 1\n"}, alpha: alpha, bfs: 3, all: 3, twin: "a: 2\nb: 5\n"}

	if x.Thorough {
		h.bfs, h.all = 4, 4
	}

	h.explore(x)

	// a condition is evaluated on what an earlier overlay has made of the value, however it came about
	made := []string{"x", "''", "5", "true", "null", "{}", "[]", "{x: 1}", "{x: 1, y: [a]}", "[x]", "[x, {y: 1}]", "{x: {y: {}}}", "'5'"}

	for fi, from := range made {
		for ti, to := range made {
			for ai, act := range []string{"merge", "replace", "combine"} {
				x.Do(func() *Item {
					first := ov(act, "k", to)
					doc := "k: " + from + "\nn: {k: " + from + ", z: 1}\n"
					os := []Ov{first, ov(act, "n.k", to)}

					for ci, c := range append(made[:len(made):len(made)], "[{x: 1}]", "[x, x]", "{x: x}", "[a]", "{x: 1, y: [a, a]}") {
						os = append(os, gated(injOv("merge", fmt.Sprintf("hit.c%d", ci), "1"), and(condIs("k", c))), gated(injOv("merge", fmt.Sprintf("hit.d%d", ci), "1"), and(condIs("n", "{k: "+c+", z: 1}"))))
					}

					it := streamItem(fmt.Sprintf("made|%d|%d|%d", fi, ti, ai), "made", doc, os, 0)

					return it
				})
			}
		}
	}

	// conditions with one query and different values, as groups and within one group
	kinds := []string{"5", "'5'", "true", "'true'", "null", "'null'", "''", "5.5", "'5.5'", "x", "[5]", "['5']", "{a: 5}", "{a: '5'}", "{}", "[]", "{'5': a}", "{5: a}"}
	oneEach := ""

	for i, k := range kinds {
		if i > 0 {
			oneEach += "---\n"
		}

		oneEach += fmt.Sprintf("id: %d\nk: %s\nm: [%s]\n", i, k, k)
	}

	for i, a := range kinds {
		for j, b := range kinds {
			for f := 0; f < 6; f++ {
				x.Do(func() *Item {
					ca, cb := condIs("k", a), condIs("k", b)

					switch f {
					case 3:
						ca = condIs("m[0]", a)
					case 4:
						cb = condIs("m[*]", b)
					case 5:
						cb = Cond{Q: []string{"m[*]", "k"}, Val: b, HasV: true}
					}

					dq := [][]Cond{{ca}, {cb}}

					switch f {
					case 1, 3, 5:
						dq = [][]Cond{{ca, cb}}
					case 2:
						dq = [][]Cond{{cond("zz"), ca}, {ca, cb}, {cb}}
					}

					return streamItem(fmt.Sprintf("samequery|%d|%d|%d", i, j, f), "samequery", oneEach, []Ov{gated(injOv("merge", "hit", "1"), dq...), gated(injOv("merge", "other", "1"), dq[len(dq)-1])}, f%2)
				})
			}
		}
	}

	// an alias is the data it refers to, wherever it is met
	aliased := []string{"1", "'1'", "x", "null", "{}", "[]", "[1]", "{a: 1}", "{a: [1], b: x}", "[{a: 1}]", "true"}

	for ti, t := range aliased {
		for vi, v := range aliased {
			for f := 0; f < 3; f++ {
				x.Do(func() *Item {
					doc := "src: &s " + t + "\nk: *s\nl: [*s, *s]\nm: {i: *s, j: {h: *s}}\n"
					if f == 1 {
						doc = "k: &s " + t + "\nl: [*s, " + t + "]\nm: &u {i: *s, j: &w {h: *s}}\nc: *u\nd: *w\n"
					}

					in := []Cond{condIs("k", v), condIs("l", "["+v+", "+v+"]"), condIs("l[*]", v), condIs("l[1]", v), condIs("m", "{i: "+v+", j: {h: "+v+"}}"), condIs("m.j", "{h: "+v+"}"), condIs("m.j.h", v), condIs("..h", v), condIs("c", "{i: "+v+", j: {h: "+v+"}}"), condIs("d", "{h: "+v+"}"), condIs("m.*", v)}

					var os []Ov
					for ci, c := range in {
						os = append(os, gated(injOv("merge", fmt.Sprintf("hit.c%d", ci), "1"), and(c)))
					}

					if f == 2 {
						os = append(os, deleteOv("src"), gated(injOv("merge", "hit.again", "1"), and(condIs("l[0]", v))), gated(injOv("merge", "hit.other", "1"), and(condIs("l[*]", v))))
					}

					return streamItem(fmt.Sprintf("alias|%d|%d|%d", ti, vi, f), "alias", doc, os, 0)
				})
			}
		}
	}

	treeConditions(x)

	// together with documentIndex, at common, entry and command-line level
	for _, idx := range [][]int{{0}, {1}, {0, 1}, {2}} {
		for i, a := range atoms {
			for place := 0; place < 3; place++ {
				x.Do(func() *Item {
					o := gated(injOv("merge", "hit", "1"), and(a))
					o.Idx, o.HasIx = idx, true

					return streamItem(fmt.Sprintf("index|%v|%d|%d", idx, i, place), "index", joinDocs(tt[3], tt[15], tt[8]), []Ov{o, gated(deleteOv("p"), and(atoms[(i+1)%4]))}, place)
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking", Explore: exploreC03,
		Rule:   "every (query list, value) condition x documents x actions; every formula of up to 2-3 groups of up to 2-3 conditions over independent atoms against a stream with all truth assignments; every pair of spellings of equal/different data; aliases of every kind of data met at every depth; conditions on values an earlier overlay made; conditions with one query and differently typed values; all overlay histories mixing changes and gated overlays; values made by earlier overlays; the same query in several groups; aliases; all small trees as conditions on all small trees",
		Assume: []string{"equality of differently spelled numbers and of maps with reordered keys is not specified", "yaml.v3 parses the tool's output correctly"}})
}
