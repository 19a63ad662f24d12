//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

var treeLeaves = []string{"1", "x", "null", "{}", "[]"}

// allTrees enumerates every tree of up to n nodes: scalars, empty collections,
// lists of any length, maps with some of the keys (in every order, or in the given one).
func allTrees(n int, keys []string, orders bool) []string {
	bySize := [][]string{nil, treeLeaves}

	// rows gives every sequence of trees with size nodes in all, for each length
	var rows func(size, max int, f func([]string))

	rows = func(size, max int, f func([]string)) {
		if size == 0 {
			f(nil)

			return
		}

		if max == 0 {
			return
		}

		for first := 1; first <= size; first++ {
			for _, t := range bySize[first] {
				rows(size-first, max-1, func(rest []string) { f(append([]string{t}, rest...)) })
			}
		}
	}

	for s := 2; s <= n; s++ {
		var out []string

		rows(s-1, s-1, func(r []string) { out = append(out, "["+strings.Join(r, ", ")+"]") })

		rows(s-1, len(keys), func(r []string) {
			seqs(len(keys), len(r), func(ks []int) {
				if len(ks) != len(r) {
					return
				}

				var es []string

				for i, k := range ks {
					for j := range ks[:i] {
						if ks[j] == k || !orders && ks[j] > k {
							return
						}
					}

					es = append(es, keys[k]+": "+r[i])
				}

				out = append(out, "{"+strings.Join(es, ", ")+"}")
			})
		})

		bySize = append(bySize, out)
	}

	var all []string
	for _, ts := range bySize {
		all = append(all, ts...)
	}

	return all
}

// treeDocs makes a document of each tree.
func treeDocs(ts []string) []string {
	ds := make([]string, len(ts))
	for i, t := range ts {
		ds[i] = "k: " + t + "\nz: [a, 1]\n"
	}

	return ds
}

// treePairs applies an overlay with every small tree as its value to every small tree.
func treePairs(x *X, act string) {
	keys := []string{"a", "b"}
	small, big := allTrees(3, keys, true), allTrees(4, keys, true)

	if x.Thorough {
		big = allTrees(5, keys, false)
	}

	run := func(name string, vals, docs []string) {
		ds := treeDocs(docs)

		for vi, v := range vals {
			x.Do(func() *Item {
				return frameItem(fmt.Sprintf("trees|%s|%s", name, v), "all small trees", ds, []Ov{ov(act, "k", v)}, false, vi%2 == 0)
			})
		}
	}

	run("small values", small, big)
	run("small documents", big, small)

	// with the key of merges, empty and null keys
	for _, ks := range [][]string{{"a", "<<"}, {"''", "a"}, {"~", "a"}, {"1", "'1'"}} {
		if ks[1] == "'1'" && act == "merge" {
			continue // the same text, other types
		}

		ts := allTrees(3, ks, true)
		run(strings.Join(ks, " "), ts, ts)
	}
}

var treeQueries = []string{
	"k", "k.a", "k.b", "k[0]", "k[1]", "k[-1]", "k[*]", "k.*", "..a", "..b", "k..a", "k.a.a", "k.a.b", "k.a[0]", "k[0].a", "k[0][0]", "k[1][0]", "k[*].a", "k[*].b", "k[*][*]", "k.*.*", "*", "k.a~", "k[0:1]", "k[1:]", "k[::2]",
	"k[?(@.a)]", "k[?(@.a==1)]", "k[?(@.b=='x')]", "..[0]", "..[?(@.a)]", "k[?(@==1)]", "k..*", "k[0,1]", "k['a','b']", "a",
}

// treeActs applies overlays to what queries find in every small tree.
func treeActs(x *X, os ...Ov) {
	n := 4
	if x.Thorough {
		n = 5
	}

	ds := treeDocs(allTrees(n, []string{"a", "b"}, !x.Thorough))

	for qi, q := range treeQueries {
		for oi, o := range os {
			x.Do(func() *Item {
				o := o
				o.Q = []string{q}

				return frameItem(fmt.Sprintf("trees|%s|%d", q, oi), "all small trees", ds, []Ov{o}, true, (qi+oi)%2 == 0)
			})
		}
	}
}

// treeHistories applies every two overlays.
func treeHistories(x *X, first, then []Ov) {
	ds := treeDocs(allTrees(3, []string{"a", "b"}, true))

	for i, q := range treeQueries {
		for j, p := range treeQueries {
			for a, o := range first {
				for b, w := range then {
					x.Do(func() *Item {
						o, w := o, w
						o.Q, w.Q = []string{q}, []string{p}

						return frameItem(fmt.Sprintf("trees|%d|%d|%d|%d", i, j, a, b), "histories over all small trees", ds, []Ov{o, w}, true, (i+j)%2 == 0)
					})
				}
			}
		}
	}
}

// treeConditions compares every small tree with every other one.
func treeConditions(x *X) {
	keys := []string{"a", "b"}
	small, big := allTrees(3, keys, false), allTrees(4, keys, false)

	if x.Thorough {
		small = big
	}

	run := func(name string, vals, docs []string) {
		ds := treeDocs(docs)

		for vi, v := range vals {
			x.Do(func() *Item {
				c := condIs("k", v)
				if vi%3 == 0 {
					c = Cond{Q: []string{"k", "nothing"}, Val: v, HasV: true}
				}

				return streamItem(fmt.Sprintf("trees|%s|%s", name, v), "all small trees", joinDocs(ds...), []Ov{gated(injOv("merge", "hit", "1"), and(c)), gated(deleteOv("z"), and(cond("zz")), and(cond("z"), c))}, vi%3)
			})
		}
	}

	run("small values", small, big)
	run("small documents", big, small)

	// members of a collection: all of them have to be equal
	ds := treeDocs(big)

	for _, q := range treeQueries {
		for _, v := range allTrees(2, keys, false) {
			x.Do(func() *Item {
				sp := &Spec{Lib: true, Files: map[string]string{"w/a.yaml": joinDocs(ds...)}, Std: true, Ins: &Ins{Common: []Ov{gated(injOv("merge", "hit", "1"), and(condIs(q, v)))}, Ents: []Ent{{Path: "a.yaml"}}}}

				return sp.item(fmt.Sprintf("members|%s|%s", q, v), "members of small trees")
			})
		}
	}
}

// treeInjections injects into every small tree along every short path.
func treeInjections(x *X) {
	paths := []string{"k", "k.a", "k.b", "k.c", "k.a.b", "k.a.c", "k.b.a", "k.c.a", "k.c.d.e", "k['a','b']", "k['b','c'].a", "n", "n.a.b", "$.k.c", "$['k']['b']['a']"}
	ds := treeDocs(allTrees(4, []string{"a", "b"}, true))

	for pi, p := range paths {
		for vi, v := range allTrees(2, []string{"a", "b"}, true) {
			for a, act := range []string{"merge", "replace"} {
				x.Do(func() *Item {
					o := injOv(act, p, v)
					if (pi+vi)%2 == 0 {
						o.Q, o.IP = []string{"..none"}, []string{p}
					}

					return frameItem(fmt.Sprintf("trees|%s|%s|%d", p, v, a), "all small trees", ds, []Ov{o}, false, vi%2 == 0)
				})
			}
		}
	}
}

// treeStyles renders every small tree in every style.
func treeStyles(x *X) {
	n := 4
	if x.Thorough {
		n = 5
	}

	ds := treeDocs(allTrees(n, []string{"a", "b"}, false))
	ds = append(ds, allTrees(n, []string{"''", "b"}, false)...)

	for i, d := range ds {
		if !strings.HasSuffix(d, "\n") {
			ds[i] = d + "\n"
		}
	}

	for _, st := range styleCombos() {
		for _, ind := range []string{"2", "3", "9"} {
			x.Do(func() *Item {
				return styleItem(fmt.Sprintf("trees|%v|%s", st, ind), "all small trees", ds, []string{"-S", strings.Join(st, ","), "-I", ind})
			})
		}
	}
}
