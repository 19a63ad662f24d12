//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// builders change many places at once; what an overlay of any action does must
// not depend on how the data it meets came about.
var builders = []Ov{
	replaceOv("$.*", "x"), replaceOv("l[*]", "{n: {m: 1}, v: [s]}"), replaceOv("..n", "7"), mergeOv("*", "{n: 1, v: [s, s]}"), mergeOv("l[*]", "{n: 2, w: {n: 3}}"), mergeOv("l", "[{n: 1}, {n: 1}, x]"),
	{Q: []string{"a", "s", "l"}, Act: "merge", Val: "{k: {n: 1}, n: 1}", HasV: true}, {Q: []string{"a", "s"}, Act: "replace", Val: "[s, s, {n: 1}]", HasV: true}, {Q: []string{"i.n", "j.n", "i.v"}, Act: "merge", Val: "{v: 1, n: [s]}", HasV: true, OM: "inject"},
	{Q: []string{"..none"}, Act: "replace", Val: "{n: 1}", HasV: true, OM: "inject", IP: []string{"i", "j", "a.k"}}, deleteOv("l[0]"), deleteOv("..n"), replaceOv("a~", "s"), combineOv("s", "t"), replaceOv("$", "{a: x, b: x, s: x, l: [x, x]}"), mergeOv("$", "{a: {n: 1}, s: {n: 1}}"),
	mergeOv("..n", "{n: y}"), {Q: []string{"q"}, Act: "replace", Val: "[x, x]", HasV: true, OM: "inject"},
}

var mixedDocs = []string{
	"a: {n: 1, v: [s]}\ns: t\nl: [{n: 1}, {n: 2, v: 1}, x, x]\nb: {k: {n: 1}}\n", "a: s\nb: s\ns: [s, s]\nl: []\n", "l: [[1, 2], [1, 2]]\na: {k: 1}\ns: ''\n", "a: ~\ns: {}\nl: ~\n", "a:\n  n: &n {m: 1}\nb: 1\ns: 't'\nl:\n- n: 1\n  v: 2\n- n: 1\n  v: 2\n",
}

// mixed runs every overlay of own after every one and two of the builders.
func mixed(x *X, own []Ov) {
	for i, b1 := range builders {
		for _, o := range own {
			x.Do(func() *Item {
				return frameItem("mixed|"+ovKey([]Ov{b1, o}), "mixed histories", mixedDocs, []Ov{b1, o}, true, i%2 == 0)
			})

			for j, b2 := range builders {
				x.Do(func() *Item {
					return frameItem("mixed|"+ovKey([]Ov{b1, b2, o}), "mixed histories", mixedDocs, []Ov{b1, b2, o}, true, (i+j)%2 == 0)
				})

				if x.Thorough {
					for _, o2 := range own {
						x.Do(func() *Item {
							return frameItem("mixed|"+ovKey([]Ov{b1, o, b2, o2}), "mixed histories", mixedDocs, []Ov{b1, o, b2, o2}, true, (i+j)%2 == 0)
						})
					}
				}
			}
		}
	}
}

// largeDocs have sizes at which limits and growth of buffers show.
func largeDocs() []string {
	var ds []string

	for _, n := range []int{17, 65, 129, 257, 300, 1025} {
		var m, l, e, f strings.Builder

		for i := 0; i < n; i++ {
			fmt.Fprintf(&m, "  k%d: {id: %d, v: x, s: 's%d'}\n", i, i, i)
			fmt.Fprintf(&l, "- id: %d\n  v: x%d\n  d: {v: %d, w: [%d]}\n", i, i%3, i, i)
			fmt.Fprintf(&e, "%d, ", i)
			fmt.Fprintf(&f, "f%d: v%d\n", i, i)
		}

		ds = append(ds, "m:\n"+m.String()+"l:\n"+l.String()+"e: ["+e.String()+"]\nz: end\n", f.String())
	}

	deep := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			if i%4 == 3 {
				s += "[{o: x}, {n: "
			} else {
				s += "{n: "
			}
		}

		s += "{v: leaf}"

		for i := n - 1; i >= 0; i-- {
			if i%4 == 3 {
				s += "}]"
			} else {
				s += "}"
			}
		}

		return s
	}

	for _, n := range []int{12, 40, 100} {
		ds = append(ds, "m: "+deep(n)+"\nl: ["+deep(n/2)+", {v: x}]\nz: end\n")
	}

	word := strings.Repeat("word ", 14000) + "end"
	long := strings.Repeat("x", 70001)

	return append(ds,
		"m: {v: "+long+", w: '"+word+"'}\nl:\n- v: "+word+"\n- v: \""+strings.Repeat("q\\\"\\n ", 3000)+"\"\n- v: |\n    "+strings.Repeat("line\n    ", 5000)+"end\nz: end\n",
		"? "+strings.Repeat("k", 1100)+"\n: {v: 1}\nm: {"+strings.Repeat("j", 127)+": 1, "+strings.Repeat("h", 128)+": 2, ? "+strings.Repeat("g", 1030)+" : {v: 3}}\nl: [{v: 1}]\nz: end\n",
		"# "+strings.Repeat("c", 70000)+"\nm: {v: 1} # "+strings.Repeat("d ", 3000)+"\n# "+strings.Repeat("e", 3000)+"\nl: [{v: 2}]\nz: end\n")
}

// large runs the overlays over large documents, long streams of documents, and
// all together, many times.
func large(x *X, own []Ov) {
	ds := largeDocs()

	for di, d := range ds {
		for _, o := range own {
			x.Do(func() *Item {
				return frameItem(fmt.Sprintf("large|%d|%s", di, ovKey([]Ov{o})), "large documents", []string{d}, []Ov{o}, true, di%2 == 0)
			})
		}
	}

	for _, n := range []int{10, 11, 100, 257, 1030} {
		for _, o := range own {
			x.Do(func() *Item {
				var s []string
				for i := 0; i < n; i++ {
					s = append(s, []string{"m: {v: 1, n: 2}\nl: [{v: 1}, {v: 2}]\nz: end\n", "e: [1, 2]\nl: []\nm: s\n", "m: [x]\nl:\n- {v: {v: 3}}\n"}[i%3])
				}

				return frameItem(fmt.Sprintf("stream|%d|%s", n, ovKey([]Ov{o})), "large streams", s, []Ov{o}, true, n%2 == 0)
			})
		}
	}

	// many overlays and many queries
	for _, n := range []int{9, 33, 65, 129, 257} {
		for oi, o := range own {
			x.Do(func() *Item {
				var os []Ov
				for i := 0; i < n; i++ {
					os = append(os, own[(oi+i)%len(own)])
				}

				return frameItem(fmt.Sprintf("many|%d|%d", n, oi), "many overlays", append(append([]string{}, mixedDocs...), "m: {v: 1}\nl: [{v: 1}]\ne: [1]\nz: end\n"), os, true, true)
			})
			x.Do(func() *Item {
				o := o
				o.Q = nil

				for i := 0; i < n; i++ {
					o.Q = append(o.Q, []string{fmt.Sprintf("f%d", (i*7)%n), fmt.Sprintf("e[%d]", i), fmt.Sprintf("m.k%d.v", n-i), fmt.Sprintf("zz%d", i)}[i%4])
				}

				return frameItem(fmt.Sprintf("queries|%d|%d", n, oi), "many queries", ds[:8], []Ov{o}, true, false)
			})
		}
	}
}

func alphaOf(f func(string) Ov, qs ...string) []Ov {
	var os []Ov
	for _, q := range qs {
		os = append(os, f(q))
	}

	return os
}

var (
	mergeOvs = []Ov{
		mergeOv("a", "{n: 3, y: [1]}"), mergeOv("..n", "9"), mergeOv("l[*]", "{n: {z: 1}}"), mergeOv("*", "[1]"), mergeOv("i", "{n: [2], v: {w: 1}}"), mergeOv("a.k", "y"), mergeOv("..v", "[{s: 1}]"), mergeOv("l", "[{n: 1}]"), mergeOv("j.n.n", "1"), mergeOv("l[?(@.n==1)]", "{f: 1}"), mergeOv("$", "{q: [1], a: {n: 1}}"), mergeOv("l[-1]", "{v: [2]}"), mergeOv("s", "text"),
	}
	replaceOvs = []Ov{
		replaceOv("a", "{n: 3}"), replaceOv("..n", "{n: 9}"), replaceOv("l[*].v", "[1, {n: 1}]"), replaceOv("*", "y"), replaceOv("i.v", "5"), replaceOv("a.k.n", "y"), replaceOv("l[?(@.n==1)]", "{f: 1}"), replaceOv("l[?(@=='x')]", "{x: 1}"), replaceOv("q[0]", "{x: [1]}"), replaceOv("a~", "aa"), replaceOv("s[1]", "z"), replaceOv("l[-1].n.m", "2"),
	}
	largeMerges  = []Ov{mergeOv("l[*].v", "new"), mergeOv("..id", "{was: id}"), mergeOv("m", "{k3: {new: 1}, k16: {v: y}, k9999: {v: z}}"), mergeOv("l", "[{id: 5}, x]"), mergeOv("e[3:]", "x"), mergeOv("*", "{v: new}"), mergeOv("$", "{f16: w, f1000: w, m: {v: short}, new: 1}"), mergeOv("l[*].d", "{w: [1]}"), mergeOv("..v", "[y]"), mergeOv("l[16]", "{v: {z: 1}}"), mergeOv("..n.n.n.v", "deep")}
	largeReplace = []Ov{replaceOv("l[*].v", "{n: [1]}"), replaceOv("..id", "[i, {d: 1}]"), replaceOv("m.*", "m"), replaceOv("..d", "{v: 1}"), replaceOv("e[*]", "{v: 1}"), replaceOv("l[?(@.id>3)].d.w", "w"), replaceOv("m.k16~", "renamed"), replaceOv("l[10:]", "x"), replaceOv("f16", "[1]"), replaceOv("m.v", "short")}
)
