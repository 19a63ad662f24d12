//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"strings"
)

func ov(act, q, val string) Ov { return Ov{Q: []string{q}, Act: act, Val: val, HasV: val != ""} }

func mergeOv(q, val string) Ov   { return ov("merge", q, val) }
func replaceOv(q, val string) Ov { return ov("replace", q, val) }
func deleteOv(q string) Ov       { return ov("delete", q, "") }
func combineOv(q, val string) Ov { return ov("combine", q, val) }

// smallTrees enumerates all trees: scalars, and maps/lists of up to two
// entries over them, nested up to depth.
func smallTrees(depth int, scalars []string) []string {
	if depth == 0 {
		return scalars
	}

	sub := smallTrees(depth-1, scalars)

	// the second entry of a pair ranges over scalars only to keep the space small
	out := append([]string{}, scalars...)
	out = append(out, "{}", "[]")

	for _, s := range sub {
		out = append(out, "{a: "+s+"}", "{b: "+s+"}", "["+s+"]")
	}

	for _, s := range sub {
		for _, t := range scalars[:2] {
			out = append(out, "{a: "+s+", b: "+t+"}", "{b: "+s+", a: "+t+"}", "["+s+", "+t+"]")
		}
	}

	seen := map[string]bool{}

	var res []string

	for _, s := range out {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}

	return res
}

// shortStrings enumerates all strings of up to max characters over the alphabet.
func shortStrings(alpha []string, max int) []string {
	out := []string{""}
	last := out

	for ; max > 0; max-- {
		var next []string

		for _, p := range last {
			for _, c := range alpha {
				next = append(next, p+c)
			}
		}

		out = append(out, next...)
		last = next
	}

	return out
}

var strAlpha = []string{"a", "B", "0", " ", "\n", "\t", "%", "#", "'", "\"", "\\", ":", "-", "é", "~", "{", "&", "!", "|", ",", ".", "_"}

// strPairs runs an action on all pairs of short strings: one run per overlay
// string, one document per original string.
func strPairs(x *X, act string, want func(o, v string) string) {
	n := 1
	if x.Thorough {
		n = 2
	}

	origs := shortStrings(strAlpha, 2)
	vals := append(shortStrings(strAlpha, n), "a\n", "\na", "a\nb", "a\n\n", " a", "a ", "a: b", "- a", "# a", "a #b", "yes", "null", "1e3", "0x1", "true", "2001-01-01", "...", "---", "<<", "=", "\u00a0", "\u2028", "\ufeff", "😀", "a\r\nb", "\r", "\x00", "\x07", "\u0085")

	for _, v := range vals {
		if strings.Contains(v, "%") && act == "merge" {
			continue // a format marker
		}

		x.Do(func() *Item {
			var src strings.Builder

			for _, o := range origs {
				src.WriteString("---\nk: " + dq(o) + "\nl: [" + dq(o) + ", " + dq(v) + "]\n")
			}

			ins := Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{{Q: []string{"k", "l[0]"}, Act: act, Val: dq(v), HasV: true}}}}}
			c := &Case{Files: map[string]string{"w/a.yaml": src.String(), "w/i.yaml": ins.text()}, Args: []string{"-i", "i.yaml", "-s"}}

			var docs []*N
			for _, o := range origs {
				w := str(want(o, v))
				docs = append(docs, &N{K: Map, Tag: "!!map", C: []*N{str("k"), w, str("l"), {K: Seq, Tag: "!!seq", C: []*N{w, str(v)}}}})
			}

			e := Exp{Stdout: true, Docs: docs}

			return &Item{Key: fmt.Sprintf("strings|%q", v), Class: "all short strings", Case: c, Trace: 2 * len(origs), Verify: func(r *Result) string { return e.verify(c, r) }}
		})
	}
}

// sameText changes scalars to scalars with the same or nearly the same text and other types.
func sameText(x *X, act string) {
	var toks []string

	for _, t := range []string{"5", "5.0", "0x5", "05", "5e0", "true", "True", "yes", "on", "null", "Null", "~", "", "2001-01-01", ".inf", ".nan", "1_000", "x", "-0", "<<", "=", "[", "- a", "{}", "[]"} {
		toks = append(toks, "'"+t+"'", "!!str "+dq(t))

		if t != "[" && t != "- a" && t != "<<" && t != "=" && t != "" {
			toks = append(toks, t)
		}
	}

	toks = append(toks, "!!int '5'", "!!float 5", "!!bool 'true'", "!!null ''", "!!null x", "!custom 5", "!custom x", "!other x")

	for oi, o := range toks {
		for vi, v := range toks {
			a, b := mustParse(o), mustParse(v)
			if !strings.EqualFold(a.V, b.V) && oi%4 != vi%4 && !x.Thorough {
				continue
			}

			if act == "merge" && (b.K != Sca) {
				continue
			}

			x.Do(func() *Item {
				sp := &Spec{Files: map[string]string{"w/a.yaml": "k: " + o + "\nl: [" + strings.TrimSpace(o) + ", 1]\nm: {k: " + strings.TrimSpace(o) + ", z: " + strings.TrimSpace(v) + "}\n"}, Std: true,
					Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{{Q: []string{"k", "l[0]"}, Act: act, Val: v, HasV: true}, ov(act, "m", "{k: "+v+", z: "+o+"}")}}}}}

				return sp.item(fmt.Sprintf("text|%s|%s", o, v), "same text")
			})
		}
	}
}

// place puts a tree at a position of a document and gives the query for it.
type place struct {
	name, pre, post, q string
}

var places = []place{
	{"key", "y: 0\nk: ", "\nz: [9, {k: 8}]\n", "k"},
	{"nested", "o:\n  y: {k: 7}\n  k: ", "\n  z: 9\np: {k: 3}\n", "o.k"},
	{"item", "- 7\n- ", "\n- {k: 8}\n", "$[1]"},
	{"filter", "l:\n- {n: w, k: 5}\n- n: x\n  k: ", "\n- {n: y, k: {a: 1}}\n", "l[?(@.n=='x')].k"},
	{"root", "", "\n", "$"},
	{"rec", "p: [q, r]\no:\n- k: ", "\n- 6\n", "..k"},
	{"wild", "o:\n  k: ", "\n", "o.*"},
	{"quoted", "\"k.1 a\": ", "\nk: 5\n", "$['k.1 a']"},
}

func init() {
	register(&Check{
		ID: "C04", Level: "model_checking",
		Rule:   "all pairs (original tree, overlay tree) of small trees at every place kind; all overlay histories over a merge alphabet; every run compared with the reference merge; keys of every kind incl. collections and aliases; same text with other types; all short strings; overlays after builders, on large documents, on decorated documents; all pairs of trees of up to 3 and 4 (5) nodes; 37 queries on all such trees",
		Assume: []string{"yaml.v3 parses the tool's output correctly", "empty map/list merged into another kind is undocumented and only checked for crashes"},
		Explore: func(x *X) {
			depth := 1
			if x.Thorough {
				depth = 2
			}

			origs := smallTrees(depth, []string{"1", "xyz", "true", "null", "1.5", `"12"`})
			vals := smallTrees(1, []string{"2", "v w", "false", "null", "-0.5", `"7"`, `""`})

			extra := []string{"{a: {a: 1, c: 2}}", "{a: [1], b: {a: [2]}}", "{a: {b: {a: q}}}", "[[1], [2]]", "[{a: 1}, {b: 2}]", "{a: {}, c: []}", "{c: 1, b: 2, a: 3}", "{a: [null], d: null}"}
			vals = append(vals, extra...)

			if !x.Thorough {
				origs = append(origs, extra...)
			}

			for pi, p := range places {
				for oi, o := range origs {
					for vi, v := range vals {
						if !x.Thorough && pi >= 3 && (oi+vi)%4 != pi%4 {
							continue
						}

						x.Do(func() *Item {
							act := "merge"
							if (oi+vi)%2 == 0 {
								act = ""
							}

							sp := &Spec{Files: map[string]string{"w/a.yaml": p.pre + o + p.post}, Std: true,
								Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{ov(act, p.q, v)}}}}}

							return sp.item(fmt.Sprintf("pair|%s|%s|%s", p.name, o, v), "pair/"+p.name)
						})
					}
				}
			}

			x.Count("original_trees", len(origs))
			x.Count("value_trees", len(vals))

			doc := "a: {p: 1, q: [x]}\nb: [1, {p: 2}]\nc: text\nd: 5\n"
			alpha := []Ov{
				mergeOv("a", "{p: {r: 1}, s: [z]}"), mergeOv("$", "{e: {p: 1}, c: [1]}"), mergeOv("b", "[3, {p: 4}]"),
				ov("", "c", "9"), mergeOv("d", "{p: [1]}"), mergeOv("e", "{t: new}"), mergeOv("b[*]", "{p: 5, u: [k]}"),
				mergeOv("..p", "{v: 1}"), mergeOv("..q", "[y]"), mergeOv("*", "null"), mergeOv("a.*", `"8"`), mergeOv("..u", "[w, {u: 1}]"),
			}

			// ..u / ..p and b[*] may match nested nodes; those with nested matches are order dependent
			h := history{name: "hist", inits: []string{doc, "b: [{p: {p: 1}}]\nd: []\n", "c: {p: [[1]]}\na: null\n"}, alpha: alpha, bfs: 2, all: 3, twin: "a: {q: [{p: 0}]}\nb: [[2]]\n"}

			if x.Thorough {
				h.bfs, h.all = 3, 4
			}

			h.explore(x)

			// keys that are nearly the same
			keys := []string{`a`, `A`, `ab`, `b`, `" a"`, `"a "`, `"a\n"`, `"\ta"`, `""`, `" "`, `a.b`, `"a.B"`, `"'a'"`, `"a\\"`, `1`, `1.0`, `"+1"`, `true`, `"yes"`, `"on"`, `null`, `"~"`, `é`, `"e\u0301"`, `É`, `"*"`, `"$"`, `"a,b"`, `"[a]"`, `"a~"`, `ß`, `ss`, `ſ`, `s`, `S`, `K`, `k`, `"\u212a"`, `"<<"`, `"="`, `"-"`, `"?"`, `"#"`, `"a#"`, `"a: b"`}
			for _, k1 := range keys {
				for _, k2 := range keys {
					for _, p := range places[:2] {
						for _, v := range []string{"[1, {x: 2}, x, {y: 3}]", "{y: 7}"} {
							x.Do(func() *Item {
								a, b := mustParse("{" + k1 + ": 0}").C[0], mustParse("{" + k2 + ": 0}").C[0]
								if a.V == b.V && a.Tag != b.Tag {
									return nil // the same text, other types
								}

								o := "{" + k1 + ": {x: 1}, zz: 5}"
								if v[0] == '[' {
									o = "{" + k1 + ": [x], zz: 5}"
								}

								sp := &Spec{Files: map[string]string{"w/a.yaml": p.pre + o + p.post}, Std: true, Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{ov("", p.q, "{"+k2+": "+v+"}")}}}}}

								return sp.item(fmt.Sprintf("keys|%s|%s|%s|%s", p.name, k1, k2, v), "similar keys")
							})
						}
					}
				}
			}

			// keys which are collections or aliases
			ks := []string{`""`, "[a]", "[b]", "[a, b]", "[[a]]", "{a: 1}", "{a: 2}", "{a: 1, b: 2}", "{}", "[]", "~", "a", `"[a]"`, `"{a: 1}"`, "{a: {a: 1}}", "[{a: 1}]", "*al", "al", "*ac", "ac", "[*al]", "val"}
			for _, k1 := range ks {
				for _, k2 := range ks {
					for _, k3 := range ks {
						for pi, p := range []place{{"root", "", "", "$"}, {"nested", "o: ", "", "o"}} {
							if pi == 1 && k3 != "a" && k3 != "[a]" && !x.Thorough {
								continue
							}

							x.Do(func() *Item {
								if strings.Contains(k1, "*") && (strings.HasPrefix(k2, "a") || k3 == "al" || k3 == "ac") {
									return nil // changes what the alias refers to
								}

								o := "{? al : &al val, ? ac : &ac [a], ? " + k1 + " : {x: 1}, zz: 5, ? " + k3 + " : 1}"
								v := "{? " + k2 + " : {y: 2}, ? " + k3 + " : 3, ? [a] : 4}"
								def := "d: [&al val, &ac [a]]\n"

								docs, err := parseStream(p.pre + o + p.post + "\n")
								if err != nil || strings.Contains(k2+k3, "*") || noDups(docs[0]) != nil {
									return nil
								}

								val, err := parseStream(def + "v: " + v + "\n")
								if err != nil || noDups(val[0]) != nil {
									return nil
								}

								sp := &Spec{Files: map[string]string{"w/a.yaml": p.pre + o + p.post + "\n"}, Std: true, Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{ov("", p.q, v)}}}}}

								return sp.item(fmt.Sprintf("collkeys|%s|%s|%s|%s", p.name, k1, k2, k3), "keys of every kind")
							})
						}
					}
				}
			}

			sameText(x, "merge")
			treePairs(x, "merge")
			treeActs(x, mergeOv("", "{a: {b: 2}}"), mergeOv("", "[3, {}]"), mergeOv("", "y"))
			mixed(x, mergeOvs)
			decorated(x, mergeOvs)
			large(x, largeMerges)

			strPairs(x, "merge", func(_, v string) string { return v })

			// the same overlay object at several places: via commonOverlays, a directory, two entries and documents
			for _, o1 := range alpha {
				for _, o2 := range alpha {
					x.Do(func() *Item {
						sp := &Spec{Files: map[string]string{"w/m/a.yaml": doc + "---\n" + doc, "w/m/b.yaml": doc, "w/m/c.yml": "b: [{u: 1}]\n"}, Std: true,
							Ins: &Ins{Common: []Ov{o1}, Ents: []Ent{{Path: "m", Ovs: []Ov{o2}}, {Path: "m/b.yaml", Ovs: []Ov{o1}}}}}
						it := sp.item("shared|"+ovKey([]Ov{o1, o2}), "shared")
						it.Trace = 9

						return it
					})
				}
			}
		},
	})

	register(&Check{
		ID: "C05", Level: "model_checking",
		Rule:   "all pairs (original tree, overlay tree) at every place kind; all histories over an alphabet of multi-match replaces followed by changes to single copies; key renames; same text with other types; all short strings; overlays after builders, on large documents, on decorated documents; all pairs of trees of up to 3 and 4 (5) nodes; 37 queries on all such trees",
		Assume: []string{"yaml.v3 parses the tool's output correctly"},
		Explore: func(x *X) {
			depth := 1
			if x.Thorough {
				depth = 2
			}

			origs := smallTrees(depth, []string{"1", "xyz", "true", "null"})
			vals := smallTrees(1, []string{"2", "v w", "false", "null", "1e3", `"7"`, `""`, `"a: b"`, `"%v"`, `"x%ky"`, "0x1f", "'- z'", "!!str 5", "!!float 3"})
			vals = append(vals, "{a: {b: {c: [1, {d: 2}]}}}", "[[1, [2]], {a: [3]}]", "{x: null, y: {}, z: []}")

			for pi, p := range places {
				for oi, o := range origs {
					for vi, v := range vals {
						if !x.Thorough && pi >= 4 && (oi+vi)%4 != pi%4 {
							continue
						}

						x.Do(func() *Item {
							sp := &Spec{Files: map[string]string{"w/a.yaml": p.pre + o + p.post}, Std: true,
								Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{replaceOv(p.q, v)}}}}}

							return sp.item(fmt.Sprintf("pair|%s|%s|%s", p.name, o, v), "pair/"+p.name)
						})
					}
				}
			}

			doc := "a: {p: 1, q: x}\nl: [1, {p: 2}, [3]]\nm: {p: {q: 1}, r: 2}\n"
			v := "{k: {p: [1]}, p: 0}"
			alpha := []Ov{
				replaceOv("l[*]", v), replaceOv("*", v), replaceOv("..p", "[{q: 1}, {q: 2}]"), replaceOv("m.*", "{q: {q: [5]}}"),
				mergeOv("l[0].k", "{p: [2], n: 1}"), mergeOv("m", "{k: {p: [7]}}"), replaceOv("l[1].k", "gone"), deleteOv("a.k"),
				deleteOv("l[2]"), mergeOv("..p[0]", "{q: [w]}"), replaceOv("a~", "A"), replaceOv("m.r~", "'s t'"), deleteOv("l[0].k.p"), replaceOv("l[-1]", "[1]"),
			}
			h := history{name: "hist", inits: []string{doc, "l: [{k: {p: [9]}}, {k: {p: 1}}]\na: {k: 1}\n"}, alpha: alpha, bfs: 2, all: 3, twin: "l: [0, 1]\nm: {p: [1], r: {p: 2}}\n"}

			if x.Thorough {
				h.all = 4
				h.bfs = 3
			}

			h.explore(x)

			for _, o1 := range alpha {
				for _, o2 := range alpha {
					x.Do(func() *Item {
						sp := &Spec{Files: map[string]string{"w/m/a.yaml": doc + "---\n" + doc, "w/m/b.yaml": doc}, Std: true,
							Ins: &Ins{Common: []Ov{o1}, Ents: []Ent{{Path: "m/a.yaml", Docs: []DocEnt{{Path: 1, Ovs: []Ov{o2}}}}, {Path: "m", Ovs: []Ov{o1, o2}}}}}
						it := sp.item("shared|"+ovKey([]Ov{o1, o2}), "shared")
						it.Trace = 9

						return it
					})
				}
			}

			sameText(x, "replace")
			treePairs(x, "replace")
			treeActs(x, replaceOv("", "{b: [9]}"), replaceOv("", "y"), replaceOv("", "[]"))
			mixed(x, replaceOvs)
			decorated(x, replaceOvs)
			large(x, largeReplace)

			strPairs(x, "replace", func(_, v string) string { return v })

			// renames: the value, position and the other keys stay
			for _, d := range []string{"a: 1\nb: {a: [1]}\nc: x\n", "b: {c: {a: null}}\na: {}\n", "l: [{a: 1, b: 2}, {b: 3}]\n", "a: [{b: {a: 1}}]\n"} {
				for _, q := range []string{"a~", "b~", "b.a~", "b.c.a~", "l[0].a~", "l[*].b~", "a[0].b~", "$.a~", "..b~", "zz~"} {
					for _, n := range []string{"new", "'with space'", "\"1\"", "true", "5", "''", "\"q: r\""} {
						x.Do(func() *Item {
							if strings.HasPrefix(q, "..") {
								return nil
							}

							sp := &Spec{Files: map[string]string{"w/a.yaml": d}, Std: true, Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{replaceOv(q, n)}}}}}

							return sp.item("rename|"+d+"|"+q+"|"+n, "rename")
						})
					}
				}
			}
		},
	})

	register(&Check{
		ID: "C06", Level: "model_checking",
		Rule:   "documents x delete queries x all delete sequences (bounded), mixed with merges/injects; multi-document streams incl. whole-document deletion; overlays after builders, on large documents, on decorated documents; 37 queries and pairs of them on all small trees",
		Assume: []string{"yaml.v3 parses the tool's output correctly"},
		Explore: func(x *X) {
			docs := []string{
				"a: 1\nb: 2\nc: 3\n", "a: {a: {a: 1, b: 2}, b: 3}\nb: [1, 2, 3]\n", "- 1\n- {a: 1, b: [x, y]}\n- [a, b]\n- 4\n",
				"l: [{n: x, a: 1}, {n: y, a: 2}, {n: x, a: 3}]\n", "a: b\nb: a\n", "a: null\n", "a: [[1, 2], [3]]\nb: {a: [5]}\n", "text\n", "a: same\nb: same\nc: [same, same]\n",
				"[]\n", "{}\n", "x: {a: {}, b: []}\na: ''\n",
			}
			qs := []string{
				"a", "b", "c", "*", "$", "$.a", "a.a", "a.b", "b[0]", "b[1]", "b[-1]", "b[*]", "b[0:2]", "$[0]", "$[1]", "$[1].a", "$[*]", "$[1].b[0]", "..a", "..b", "..*",
				"a~", "b~", "a.b~", "*.a", "l[?(@.n=='x')]", "l[*].a", "l[0].n~", "l[?(@.a)].n", "a[*]", "a[*][0]", "a[0]", "zz", "$['a','b']", "$['b','a']", "$['a','c']", "x.*", "l", "c[0]", "c[*]", "[*]~",
			}

			if n, err := selfCheckQueries(docs, qs); err != nil {
				panic(err)
			} else {
				x.Count("query_selfcheck", n)
			}

			var alpha []Ov
			for _, q := range qs {
				alpha = append(alpha, deleteOv(q))
			}

			alpha = append(alpha, Ov{Q: []string{"a", "b"}, Act: "delete", List: true}, Ov{Q: []string{"..a", "a"}, Act: "delete"}, Ov{Q: []string{"b", "..b", "c"}, Act: "delete"}, Ov{Q: []string{"*", "$"}, Act: "delete"})

			depth := 2
			h := history{name: "del", inits: docs, alpha: alpha, bfs: 2, all: depth}

			if x.Thorough {
				h.bfs = 4
				h.all = 3
			}

			h.explore(x)

			dels := alphaOf(deleteOv, "a", "b", "s", "l[0]", "l[1]", "l[-1]", "l[1:]", "l[?(@.n==1)]", "l[?(@=='x')]", "..n", "..k", "*", "a.n", "a.v[0]", "i.n", "j", "j.n.n", "a~", "l[*].v", "q[0]", "s[1]")
			treeActs(x, deleteOv(""))
			treeHistories(x, []Ov{deleteOv("")}, []Ov{deleteOv("")})
			mixed(x, dels)
			decorated(x, dels)
			large(x, alphaOf(deleteOv, "m", "l[*].v", "..v", "l[-1]", "l[200:]", "l[::2]", "m.*", "e[?(@>3)]", "*", "m.k16", "l[16].d", "..d.w", "f16"))

			// deleting documents of a stream, followed by anything
			later := []Ov{
				{Q: []string{"n.e.w"}, Act: "merge", Val: "1", HasV: true, OM: "inject"}, {Q: []string{"n"}, Act: "replace", Val: "{z: 1}", HasV: true, OM: "inject"},
				{Q: []string{"..nope"}, Act: "merge", Val: "5", HasV: true, OM: "inject", IP: []string{"i.j"}}, mergeOv("$", "{m: 1}"), replaceOv("$", "{r: 1}"), deleteOv("$"), deleteOv("a"),
				combineOv("a", "1"), {Q: []string{"a"}, Act: "merge", Val: "2", HasV: true, HasDQ: true, DQ: [][]Cond{{{Q: []string{"a"}}}}},
				{Q: []string{"a"}, Act: "merge", Val: "2", HasV: true, HasDQ: true, DQ: [][]Cond{}}, replaceOv("..a", "q"), deleteOv("*"),
			}
			streams := []string{"a: 1\n", "a: 1\n---\nb: 2\n", "a: 1\n---\na: 2\n---\na: 3\n"}
			masks := [][]int{nil, {0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}, {5}, {}}

			for _, s := range streams {
				for _, m := range masks {
					for i := range later {
						for j := -1; j < len(later); j++ {
							for _, std := range []bool{true, false} {
								x.Do(func() *Item {
									d := deleteOv("$")
									if m != nil {
										d.Idx, d.HasIx = m, true
									}

									os := []Ov{d, later[i]}
									if j >= 0 {
										os = append(os, later[j])
									}

									sp := &Spec{Files: map[string]string{"w/a.yaml": s, "w/b.yaml": "keep: 1\n"}, Std: std, Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: os}, {Path: "b.yaml"}}}}
									it := sp.item(fmt.Sprintf("stream|%s|%v|%v|%s", s, m, std, ovKey(os)), "stream")
									it.Trace = len(os)

									return it
								})
							}
						}
					}
				}
			}
		},
	})

	register(&Check{
		ID: "C07", Level: "model_checking",
		Rule:   "all pairs of scalars (integer notations and boundaries, strings, booleans) and of kinds, at several places; all combine histories to a depth; all short strings; overlays after builders, on large documents, on decorated documents; matches some of which cannot be combined",
		Assume: []string{"yaml.v3 parses the tool's output correctly", "combine of different scalar types is undocumented where the overlay's text can be read as the original's type, as are floats and nulls: crashes only", "a sum outside int64 may fail or be exact"},
		Explore: func(x *X) {
			ints := []string{"0", "1", "-1", "7", "42", "010", "0o17", "0x1F", "-0x10", "0b101", "1_000", "+5", "2147483647", "2147483648", "-2147483649", "4294967296",
				"9007199254740993", "4611686018427387904", "-4611686018427387905", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615"}
			strs := []string{`""`, "a", `" b "`, `"5"`, `"true"`, `"c: d"`, `"e\nf"`, `"#g"`, "'%v'", `"null"`, "ünï"}
			strs = append(strs, "|\n    x\n", "|-\n    x\n     y", ">\n    x\n    y\n\n    z\n", "'single ''q'", "!!str 12", "\"tab\\t\"")
			strs = append(strs, `"1.5"`, `"2"`, `"-0.5"`, `"1e3"`, `".5"`, `"0x10"`, `"1,000"`, `"1.0.1"`, `"2020-01-01"`, `"~"`, `"yes"`, `" 1"`, `"1 "`, `"+1"`, `"."`, `"0"`, `"false"`)
			bools := []string{"true", "false", "True", "FALSE"}
			others := []string{"{a: 1}", "[1]", "{}", "[]", "null", "1.5"}
			all := append(append(append(append([]string{}, ints...), strs...), bools...), others...)

			for pi, p := range places {
				for _, o := range all {
					for _, v := range all {
						if !x.Thorough && pi > 2 && p.name != "wild" {
							continue
						}

						x.Do(func() *Item { return combineItem(p, o, v) })
					}
				}
			}

			alpha := []Ov{
				combineOv("i", "3"), combineOv("i", "-9"), combineOv("s", "-x"), combineOv("s", `"9"`), combineOv("b", "true"), combineOv("b", "false"),
				combineOv("l[*]", "1"), combineOv("..i", "100"), combineOv("m.*", "z"), {Q: []string{"i", "l[0]"}, Act: "combine", Val: "5", HasV: true},
				combineOv("zz", "1"), {Q: []string{"zz"}, Act: "combine", Val: "1", HasV: true, OM: "inject"}, replaceOv("i", "20"), mergeOv("s", "new"), combineOv("m", "{s: 1}"),
			}
			h := history{name: "hist", inits: []string{"i: 1\ns: a\nb: true\nl: [1, 2]\nm: {s: q, t: r}\n", "i: -5\ns: ''\nb: false\nl: []\nm: {}\n"}, alpha: alpha, bfs: 3, all: 3, twin: "i: 1000\ns: tw\nb: true\nl: [9]\nm: {i: y}\n"}

			if x.Thorough {
				h.all, h.bfs = 4, 4
			}

			h.explore(x)

			combs := []Ov{combineOv("s", "y"), combineOv("a.n", "5"), combineOv("..n", "10"), combineOv("l[*].n", "-3"), combineOv("b", "x"), combineOv("a", "z"), combineOv("s[*]", "q"), combineOv("l[-1]", "q"), combineOv("q[*]", "q"), combineOv("i.n", "1"), combineOv("j", "s"), combineOv("a.k", "4")}
			mixed(x, combs)
			decorated(x, combs)
			large(x, []Ov{combineOv("e[*]", "1000"), combineOv("..id", "-5"), combineOv("l[*].v", "y"), combineOv("z", "!"), combineOv("m.*.id", "1"), combineOv("f16", "w"), combineOv("..d.v", "9007199254740993"), combineOv("m.v", "more"), combineOv("l[*].d.w[0]", "1")})

			strPairs(x, "combine", func(o, v string) string { return o + v })

			mixedMatches(x)

			// a combine that must fail stops the whole run: nothing of any file is written
			for _, bad := range []Ov{combineOv("m", "1"), combineOv("l", "x"), combineOv("i", "{a: 1}"), combineOv("s", "[q]"), combineOv("i", "9223372036854775807"), combineOv("$", "1"), combineOv("..*", "1")} {
				for pos := 0; pos < 3; pos++ {
					for _, std := range []bool{true, false} {
						for _, second := range []bool{true, false} {
							x.Do(func() *Item {
								os := []Ov{mergeOv("n", "1"), replaceOv("b", "1")}
								os = append(os[:min(pos, 2)], append([]Ov{bad}, os[min(pos, 2):]...)...)
								d := "i: 1\ns: a\nb: true\nl: [1, 2]\nm: {s: q}\n"
								sp := &Spec{Files: map[string]string{"w/a.yaml": d, "w/b.yaml": d, "w/c.yaml": d}, Std: std}
								ents := []Ent{{Path: "a.yaml"}, {Path: "b.yaml"}, {Path: "c.yaml"}}

								if second {
									ents[1].Ovs = os
								} else {
									ents[2].Docs = []DocEnt{{Path: 0, Ovs: os}}
								}

								sp.Ins = &Ins{Ents: ents}

								return sp.item(fmt.Sprintf("fail|%s|%d|%v|%v", ovKey([]Ov{bad}), pos, std, second), "fail")
							})
						}
					}
				}
			}
		},
	})
}

// combineItem judges one combine; integer sums beyond int64 may be refused or
// exact, never anything else.
func combineItem(p place, o, v string) *Item {
	sp := &Spec{Files: map[string]string{"w/a.yaml": p.pre + o + p.post}, Std: true, Ins: &Ins{Ents: []Ent{{Path: "a.yaml", Ovs: []Ov{combineOv(p.q, v)}}}}}
	key := fmt.Sprintf("pair|%s|%s|%s", p.name, o, v)
	it := sp.item(key, "pair/"+p.name)

	a, b := mustParse(o), mustParse(v)
	if a.Tag != "!!int" || b.Tag != "!!int" {
		return it
	}

	x, y := yamlInt(a.V), yamlInt(b.V)
	s := new(big.Int).Add(x, y)

	if s.IsInt64() && x.IsInt64() && y.IsInt64() {
		return it
	}

	exact := mustParseAll(p.pre + "!!int " + s.String() + p.post)
	strict := it.Verify

	it.Verify = func(r *Result) string {
		if r.Exit == 0 && s.BitLen() <= 64 && s.Sign() >= 0 {
			return Exp{Stdout: true, Docs: exact}.verify(it.Case, r)
		}

		return strict(r)
	}

	return it
}

// mixedMatches combines values some of which can be combined and some not.
func mixedMatches(x *X) {
	vals := []string{"s", "1", "true", "{a: 1}", "[1]", "{}", "\"\"", "[]"}
	top := 3

	if x.Thorough {
		top = 4
	}

	seqs(len(vals), top, func(vs []int) {
		var list, pairs, qs []string

		for i, v := range vs {
			list = append(list, vals[v])
			pairs = append(pairs, fmt.Sprintf("k%d: %s", i, vals[v]))
			qs = append(qs, fmt.Sprintf("m.k%d", i))
		}

		doc := "l: [" + strings.Join(list, ", ") + "]\nm: {" + strings.Join(pairs, ", ") + "}\n"

		for vi, v := range []string{"x", "1", "true", "[1]"} {
			for qi, q := range [][]string{{"l[*]"}, {"m.*"}, qs} {
				if len(vs) > 2 && !x.Thorough && (vs[0]+vs[2]+vi+qi)%2 != 0 {
					continue
				}

				x.Do(func() *Item {
					o := Ov{Q: q, Act: "combine", Val: v, HasV: true}

					return (&Spec{Files: map[string]string{"w/a.yaml": "z: 1\n", "w/b.yaml": doc}, Std: vi%2 == 0, Ins: &Ins{Common: []Ov{o}, Ents: []Ent{{Path: "a.yaml"}, {Path: "b.yaml"}}}}).item(fmt.Sprintf("some|%v|%d|%d", vs, vi, qi), "some of the matches")
				})
			}
		}
	})
}
