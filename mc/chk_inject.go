//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// specStream keeps the documents for which the outcome of the overlays is
// documented.
func specStream(docs []string, os []Ov, defOM string) string {
	var keep []string

	for _, t := range docs {
		if _, err := runModel(mustParseAll(t), os, defOM); err == nil || err == errCombine {
			keep = append(keep, t)
		}
	}

	return strings.Join(keep, "---\n")
}

func exploreC08(x *X) {
	docs := []string{
		"{}\n", "a: 1\n", "a: {}\n", "a: null\n", "a: {b: null}\nc: 2\n", "a:\n  b: {x: 1}\nc: [1]\n", "x:\n  a: {b: 1}\n  y: {}\n", "a:\n  b:\n    c:\n      d: deep\n", "y: [1, {zz: 2}]\n",
		"b.c: {d: 1}\na: {'b.c': {e: 1}}\n", "p: {q: null}\nr: text\n", "b: {c: {}}\nx: null\n", "q: {r: [1]}\np: {}\n", "- {a: 1}\n- b: 2\n", "plain\n", "null\n", "[]\n",
	}
	ql := [][]string{
		{"a"}, {"b"}, {"a.b"}, {"a.b.c"}, {"$.a.b"}, {"$.a.b.c.d"}, {"a['b']"}, {"a[\"b.c\"].d"}, {"$['x'].y"}, {"$[\"n w\"]['z']"}, {"a['b','c'].d"}, {"$['m','n']"}, {"x['b','c']"}, {"a.b", "c"}, {"b.x", "b.y"}, {"$.p.q", "$.p.s.t", "n"}, {"p.q.r"},
		{"a[*]"}, {"*.zz"}, {"..zz"}, {"a[0]"}, {"y[5]"}, {"y[?(@.k=='x')]"}, {"a[?(@.x==1)].b"}, {"zz~"}, {"a.zz~"}, {"b", "..zz"}, {"..zz", "b.x"}, {"zz[*].y"}, {"a.*"}, {"q.r[0:1]"}, {"*"}, {"$.*"}, {"[*]"}, {"$[*].k"}, {"..*"},
	}
	ips := [][]string{nil, {"p"}, {"p.q"}, {"$.p", "q.r"}, {"a.z"}, {"a"}, {"$['x.y'].z"}, {"c['d','e']"}, {"n.e.w", "n.e.x"}, {"p.q.r"}}
	oms := []string{"", "default", "ignore", "inject"}
	defs := []string{"", "ignore", "inject"}
	actions := []string{"", "merge", "replace", "delete", "combine"}
	vals := []string{"1", "{k: v, l: {m: [1]}}", "[1, {z: 2}]", "null", "''", "{}"}

	if x.Thorough {
		vals = append(vals, "[]", "'true'", "{a: {b: 9}}", "12.5")
	}

	x.Count("documents", len(docs))

	var flat []string
	for _, q := range ql {
		flat = append(flat, q...)
	}

	if n, err := selfCheckQueries(docs, flat); err != nil {
		panic(err)
	} else {
		x.Count("query_selfcheck", n)
	}

	for qi, q := range ql {
		for ii, ip := range ips {
			for _, om := range oms {
				for _, def := range defs {
					for ai, act := range actions {
						for vi, v := range vals {
							// the action that is taken depends on nothing else: full product only for merge and replace with inject
							active := om == "inject" || def == "inject" && om != "ignore"
							if !x.Thorough && (ai > 2 || !active) && (qi+ii+vi)%6 != 0 {
								continue
							}

							x.Do(func() *Item {
								o := Ov{Q: q, Act: act, OM: om, IP: ip, List: vi%2 == 1}
								if act != "delete" || vi%2 == 0 {
									o.Val, o.HasV = v, true
								}

								s := specStream(docs, []Ov{o}, def)
								if s == "" {
									return nil
								}

								sp := &Spec{Files: map[string]string{"w/a.yaml": s, "w/b.yaml": "a: {b: {c: {d: 1}}}\n"}, Std: true, DefOM: def, Ins: &Ins{Common: []Ov{o}, Ents: []Ent{{Path: "a.yaml"}}}}

								return sp.item(fmt.Sprintf("case|%v|%v|%s|%s|%s|%s", q, ip, om, def, act, v), "om="+om+"/"+def)
							})
						}
					}
				}
			}
		}
	}

	// overlays without any query: nothing matches and there is no path
	for _, act := range actions {
		for _, om := range oms {
			for _, v := range vals {
				for _, d := range docs {
					x.Do(func() *Item {
						o := Ov{NoQ: true, Act: act, OM: om, Val: v, HasV: true}

						return (&Spec{Files: map[string]string{"w/a.yaml": d}, Std: true, Ins: &Ins{Common: []Ov{o}, Ents: []Ent{{Path: "a.yaml"}}}}).item("noquery|"+act+"|"+om+"|"+v+"|"+d, "no query")
					})
				}
			}
		}
	}

	// all sequences of injecting overlays: the first one injects, a later one finds
	alpha := []Ov{
		injOv("merge", "a.b", "1"), injOv("merge", "a.b", "{k: [1]}"), injOv("replace", "a", "{b: 2}"), injOv("merge", "$.a.b.k", "[2]"), injOv("merge", "c['d','e']", "{f: 1}"), injOv("replace", "c.d.f", "9"),
		{Q: []string{"..new"}, Act: "merge", Val: "{new: {n: 1}}", HasV: true, OM: "inject", IP: []string{"a.x", "$.c"}}, deleteOv("a.b"), {Q: []string{"a.*"}, Act: "replace", Val: "w", HasV: true, OM: "inject", IP: []string{"a.w"}},
		{Q: []string{"a.y", "c.y"}, Act: "merge", Val: "[y]", HasV: true, OM: "inject"}, mergeOv("nope", "1"), deleteOv("c"), injOv("delete", "z", "1"), injOv("combine", "z", "1"),
	}
	h := history{name: "hist", inits: []string{"{}\n", "a: {q: 1}\n", "c: null\n"}, alpha: alpha, bfs: 2, all: 3, twin: "a: {b: {k: [0]}}\n"}

	if x.Thorough {
		h.bfs, h.all = 4, 4
	}

	h.explore(x)

	h2 := h
	h2.name, h2.defOM, h2.bfs, h2.all, h2.twin = "histdef", "inject", 2, 2, ""
	h2.explore(x)

	// gated per document: only documents in which nothing matched are injected
	masks := []string{"a: {b: 1}\n", "a: {}\n", "c: 1\n"}
	seqs(len(masks), 4, func(s []int) {
		for oi, o := range alpha {
			x.Do(func() *Item {
				var ds []string
				for _, i := range s {
					ds = append(ds, masks[i])
				}

				return streamItem(fmt.Sprintf("stream|%v|%d", s, oi), "stream", joinDocs(ds...), []Ov{o, alpha[(oi+s[0])%len(alpha)]}, 2)
			})
		}
	})

	// after overlays that change many places
	inj := []Ov{
		injOv("merge", "a.y", "1"), injOv("merge", "a.n.m", "{w: 1}"), injOv("replace", "i.n", "[1]"), injOv("merge", "j.n", "x"), injOv("replace", "b.k.n", "x"), injOv("merge", "s", "{n: 1}"), injOv("merge", "q", "x"), injOv("merge", "j.n.n.n", "x"),
		{Q: []string{"..y"}, Act: "merge", Val: "{n: 1}", HasV: true, OM: "inject", IP: []string{"j.n", "a.y", "i.z.y"}}, {Q: []string{"l[*].y", "..z"}, Act: "replace", Val: "1", HasV: true, OM: "inject", IP: []string{"y"}}, {Q: []string{"l[?(@.n==1)]"}, Act: "replace", Val: "1", HasV: true, OM: "inject", IP: []string{"found.none"}},
	}
	treeInjections(x)
	mixed(x, inj)
	decorated(x, inj)

	// lists of paths that are alike
	alike := []string{"p", "pq", "P", "p.q", "p.qr", "$.p.r", "$.pq", "q.p", "$['p.q']", "$['p']['q']", "p['q','r']", "p.q.r"}

	seqs(len(alike), 3, func(ps []int) {
		for k := 0; k < 4; k++ {
			if len(ps) == 3 && !x.Thorough && (ps[0]+2*ps[1]+ps[2]+k)%4 != 0 {
				continue
			}

			x.Do(func() *Item {
				var paths []string
				for _, p := range ps {
					paths = append(paths, alike[p])
				}

				o := Ov{Q: paths, Act: []string{"merge", "replace"}[k%2], Val: []string{"1", "{v: [x]}"}[k%2], HasV: true, OM: "inject"}
				if k >= 2 {
					o.Q, o.IP = []string{"..none"}, paths
				}

				s := specStream([]string{"x: 1\n", "p: {}\n", "p: {q: {}}\n", "pq: {p: 1}\n"}, []Ov{o}, "")
				if s == "" {
					return nil
				}

				return streamItem(fmt.Sprintf("alike|%v|%d", ps, k), "paths that are alike", s, []Ov{o}, 0)
			})
		}
	})

	// deep paths, long names, many paths, large maps
	for _, n := range []int{5, 12, 33, 64, 130, 257} {
		var deep, brackets strings.Builder

		var many, queries []string

		for i := 0; i < n; i++ {
			fmt.Fprintf(&deep, ".n%d", i%9)
			fmt.Fprintf(&brackets, "['n.%d']", i%9)
			many = append(many, fmt.Sprintf("p%d.q%d", i%7, i))
			queries = append(queries, fmt.Sprintf("$.f%d.x%d", i*3, i%5))
		}

		name := strings.Repeat("long", n)

		for _, act := range []string{"merge", "replace"} {
			for _, v := range []string{"1", "{v: [x]}", "[[]]"} {
				os := []Ov{
					injOv(act, strings.TrimPrefix(deep.String(), "."), v), injOv(act, "$"+deep.String(), v), injOv(act, "m"+brackets.String(), v), injOv(act, "$"+brackets.String(), v), injOv(act, name+".x", v), injOv(act, "$['"+name+"',\""+name+"2\"]", v), injOv(act, "m."+name, v), injOv(act, "m.k16.w.x", v), injOv(act, "l", v),
					{Q: []string{"..none"}, Act: act, Val: v, HasV: true, OM: "inject", IP: many}, {Q: queries, Act: act, Val: v, HasV: true, OM: "inject"}, {Q: []string{"l[?(@.none)].id", "m.*.none"}, Act: act, Val: v, HasV: true, OM: "inject", IP: []string{"m.k3.none", "zz." + name}},
				}

				for oi, o := range os {
					x.Do(func() *Item {
						s := specStream(append(append([]string{}, "{}\n", "m: {}\n", "a: 1\n"), largeDocs()[:8]...), []Ov{o, o}, "")
						if s == "" {
							return nil
						}

						return streamItem(fmt.Sprintf("large|%d|%s|%s|%d", n, act, v, oi), "large", s, []Ov{o, o}, 0)
					})
				}
			}
		}
	}

	// the documentation's own example of an injectPath
	x.Do(func() *Item {
		ins := "yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: ..image\n    value: nginx:latest\n    onMissing:\n      action: inject\n      injectPath: spec.template.spec.containers[0].image\n"
		c := &Case{Files: map[string]string{"w/a.yaml": "spec:\n  template:\n    spec:\n      containers:\n      - name: c\n", "w/i.yaml": ins}, Args: []string{"-i", "i.yaml", "-s"}}
		e := Exp{Stdout: true, Docs: mustParseAll("spec: {template: {spec: {containers: [{name: c, image: 'nginx:latest'}]}}}")}

		return &Item{Key: "docs-example|containers[0].image", Class: "documentation example", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
	})
}

func init() {
	register(&Check{ID: "C08", Level: "model_checking", Explore: exploreC08,
		Rule:   "query lists x injectPath lists x onMissing action x configured default x overlay action x value, each over a stream of documents; overlays without query; all histories of injecting, changing and deleting overlays; all match masks of streams; overlays after builders, long and many paths, decorated documents; lists of up to 3 paths that are alike; injection into all small trees",
		Assume: []string{"injecting below something that is neither a map nor null is unspecified", "yaml.v3 parses the tool's output correctly"}})
}
