//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// againDocs are the documents histories start from.
var againDocs = []string{
	"a: {b: {c: 1}, d: x}\nl: [1, {n: x, v: 1}, [2]]\nm: {k: v, n: 1}\ns: txt\n",
	"a:\n  b:\n    c: 1\n# about l\nl:\n# first\n- n: x # n\n  v: 1\n- n: y\ns: 'quoted' # s\n",
	"{}\n", "[]\n", "a:\n", "a: ~\nl: []\nm: {}\ns: ''\n", "x\n", "- n: x\n- a: {b: 1}\n- s\n", "~\n",
	"a: &x {b: 1, d: [1]}\nr: *x\ns: t\n", "a:\n  <<: {b: 1}\n  c: 2\n", "s: |\n  one\n  two\nl: >-\n  f g\na: \"q\\nr\"\n", "a: {b: yes, c: 012, d: '1'}\ns: 2001-01-01\nl: [~, true, 1.0, '']\n", "? {a: 1}\n: {b: 2}\n'a b': {c: 1}\n1: {b: 2}\n",
	"a: {b: 1}\n---\ns: 2\n---\nl: [1]\n", "# of a\na: 1 # one\nb:\n  # of c\n  c: [1, 2] # list\n  d: {e: f} # map\nl:\n# x\n- x\n",
}

// againOvs are the overlays of histories; stable says that applying the overlay
// twice is to have the effect of applying it once.
var againOvs = []struct {
	o      Ov
	stable bool
}{
	{mergeOv("a", "{b: {z: 1}}"), true}, {mergeOv("a", "x"), true}, {mergeOv("a.b", "{c: {y: 1}, w: 2}"), true}, {mergeOv("s", "new"), true}, {mergeOv("l", "[9]"), false}, {mergeOv("$", "{top: {x: 1}}"), true}, {mergeOv("l[*]", "{n: z}"), true}, {mergeOv("..n", "'01'"), true},
	{replaceOv("a", "{b: {c: [1, 2]}}"), true}, {replaceOv("a.b", "~"), true}, {replaceOv("l", "[{n: x}]"), true}, {replaceOv("l[0]", "{n: {q: 1}}"), true}, {replaceOv("$", "{a: {b: 1}}"), true}, {replaceOv("*", "\"a\\nb\\n\""), true}, {replaceOv("l[?(@.n=='x')]", "{n: y}"), true},
	{deleteOv("a"), true}, {deleteOv("a.b"), true}, {deleteOv("l[*]"), true}, {deleteOv("l[0]"), false}, {deleteOv("..n"), true}, {deleteOv("l[?(@.n=='x')]"), true}, {deleteOv("$"), true}, {deleteOv("*"), true},
	{injOv("merge", "zz.y", "{i: 1}"), true}, {injOv("merge", "a.new", "'yes'"), true}, {injOv("replace", "m.deep.er", "[1, [2]]"), true}, {Ov{Q: []string{"..none"}, Act: "merge", Val: "1", HasV: true, OM: "inject", IP: []string{"p.q", "p.r"}}, false},
	{combineOv("s", "t"), false}, {mergeOv("a~", "aa"), false}, {Ov{Q: []string{"a", "s", "m"}, Act: "merge", Val: "{k: {e: 1}}", HasV: true}, true}, {gated(mergeOv("s", "'2'"), []Cond{{Q: []string{"a.b.c"}, Val: "1", HasV: true}}), true},
}

func againIns(path string, os []Ov) string {
	return (&Ins{Ents: []Ent{{Path: path, Ovs: os}}}).text()
}

// againItem applies overlays together and one after the other, the last one
// twice, and none.
func againItem(key, doc string, os []Ov, stable bool, opts ...string) *Item {
	const out = "w/%s/a.yaml"

	step := func(ins, dir string) *Case {
		return &Case{Args: append([]string{"-i", ins, "-o", dir}, opts...)}
	}

	c := step("i.yaml", "all")
	c.Files = map[string]string{"w/a.yaml": doc, "w/i.yaml": againIns("a.yaml", os)}
	at := "a.yaml"

	for k, o := range os {
		f, dir := fmt.Sprintf("i%d.yaml", k), fmt.Sprintf("o%d", k)
		c.Files["w/"+f] = againIns(at, []Ov{o})
		c.Steps = append(c.Steps, step(f, dir))
		at = dir + "/a.yaml"
	}

	c.Files["w/again.yaml"] = againIns(at, os[len(os)-1:])
	c.Files["w/none.yaml"] = againIns(at, nil)
	c.Steps = append(c.Steps, step("again.yaml", "again"), step("none.yaml", "none"))

	return &Item{Key: key, Class: fmt.Sprintf("histories of %d", len(os)), Case: c, Trace: len(c.Steps) + 1, Verify: func(r *Result) string {
		last := r.Next[len(r.Next)-1].Files
		all, ok := last[fmt.Sprintf(out, "all")]

		for k := range os {
			q := r.Next[k]
			got, has := last[fmt.Sprintf(out, fmt.Sprintf("o%d", k))]

			if q.Exit != 0 {
				if r.Exit == 0 && ok {
					return fmt.Sprintf("overlay %d fails on its own (%s), but not within the history", k, clip(q.Stderr, 200))
				}

				return ""
			}

			if !has { // nothing is left
				if ok {
					return fmt.Sprintf("nothing is left after overlay %d, but in one run there is %q", k, clip(all, 400))
				}

				return ""
			}

			if k == len(os)-1 {
				if r.Exit != 0 || got != all {
					return fmt.Sprintf("one after the other: %q, in one run: exit %d, %q", clip(got, 600), r.Exit, clip(all, 600))
				}
			}
		}

		for k, f := range []string{"again", "none"} {
			if k == 0 && !stable {
				continue
			}

			q := r.Next[len(os)+k]

			got, has := last[fmt.Sprintf(out, f)]
			if q.Exit != 0 || !has || got != all {
				return fmt.Sprintf("%s: exit %d, %q, expected %q: %s", f, q.Exit, clip(got, 600), clip(all, 600), clip(q.Stderr, 300))
			}
		}

		return ""
	}}
}

func exploreC22(x *X) {
	n := 2
	if x.Thorough {
		n = 3
	}

	for di, d := range againDocs {
		seqs(len(againOvs), n, func(s []int) {
			x.Do(func() *Item {
				var os []Ov
				for _, k := range s {
					os = append(os, againOvs[k].o)
				}

				return againItem(fmt.Sprintf("hist|%d|%v", di, s), d, os, againOvs[s[len(s)-1]].stable)
			})
		})
	}

	// tricky data, in every style and indentation: an output reproduces itself
	var docs []string
	for _, t := range tricky {
		docs = append(docs, frameDoc(t))
	}

	for _, st := range styleCombos() {
		for _, ind := range []string{"2", "3", "4", "7"} {
			for ti := range tricky {
				if !x.Thorough && (ti+len(st)+int(ind[0]))%2 != 0 {
					continue
				}

				x.Do(func() *Item {
					opts := []string{"-I", ind}
					for _, s := range st {
						opts = append(opts, "-S", s)
					}

					o := mergeOv("new.k", strings.TrimSuffix("v", "\n"))
					o.OM = "inject"

					return againItem(fmt.Sprintf("style|%v|%s|%d", st, ind, ti), docs[ti], []Ov{o}, true, opts...)
				})
			}
		}
	}

	// documents with comments at every one or two positions
	footed := []string{
		"- a\n# f\n\n- b\n", "- a # l\n# f\n\n# h\n- b # m\n# g\n", "a: 1\n# f\n\nb: 2 # l\n# g\n\nc: x\n", "l:\n- a\n# f\n\n- b\n# g\nm:\n  a: 1\n  # f\n\n  b: 2\n  # h\n", "# top\n\n# h\na: b\n# f\n", "- a # l\n# f\n\n# end\n", "- - a\n  # f\n\n  - b\n- c: 1\n  # g\n\n  d: 2\n",
	}

	for di, d := range append(footed, commentDocs()...) {
		if strings.ContainsAny(d, "|\\?") {
			continue // comments at block scalars and collections as keys take several runs to settle
		}

		for oi, o := range []Ov{
			replaceOv("$.*", "c"), replaceOv("$.*", "{y: 1}"), replaceOv("$[0]", "[z]"), replaceOv("$..*[0]", "w"), replaceOv("$.*.*", "'u'"), mergeOv("$.*", "c"), mergeOv("$", "{a: {n: 1}, new: x}"), mergeOv("$..*[0]", "w"), deleteOv("$.*.*"), deleteOv("$.a"), replaceOv("$", "[x, {y: 1}]"),
			{Q: []string{"$.*"}, Act: "replace", Val: "c # new line\n", HasV: true},
			{Q: []string{"$.*"}, Act: "merge", Val: "c # new line\n", HasV: true},
		} {
			if di < len(footed) && !strings.Contains(" 0 4 5 6 7 8 11 12 ", fmt.Sprintf(" %d ", oi)) {
				continue // the comment below a value that becomes a collection moves
			}

			x.Do(func() *Item {
				return againItem(fmt.Sprintf("comments|%d|%d", di, oi), d, []Ov{o}, oi != 1 && oi != 2 && (oi != 8 || !strings.Contains(d, "*")))
			})
		}
	}

	// names and strings that overlays add, of every kind, in every style
	words := shortStrings([]string{"a", "0", " ", "-", ".", "/", ":", "#", "%", "~", "{", "[", "&", "*", "!", "|", "?", ",", "@", "=", "<", "_", "é", "+", "(", "$"}, 2)
	words = append(words, "app.io/x", "a-b-c", "a/b", "yes", "No", "null", "true", "1.5", "12", "0x1f", "1e3", "2001-01-01", "12:30", "- a", "# a", "a #b", "a: b", "a:b", "...", "---", "<<", "a.b.c", "A_B", "with space", "very-long-name-with-dashes/and.dots/and.even.more-of-them/so.that.it.is.longer.than.eighty.columns.altogether", strings.Repeat("k", 128), strings.Repeat("k ", 65)+"k")

	for wi, w := range words {
		if w == "" || strings.ContainsAny(w, "'\\\n") {
			continue
		}

		for form := 0; form < 6; form++ {
			for si, st := range [][]string{nil, {"-S", "single"}, {"-S", "flow"}, {"-S", "double", "-S", "tagged"}, {"-S", "literal"}, {"-S", "folded", "-S", "flow"}} {
				if !x.Thorough && si > 0 && (wi+form+si)%9 != 0 {
					continue
				}

				x.Do(func() *Item {
					n := "['" + w + "']"

					var os []Ov

					switch form {
					case 0:
						os = []Ov{injOv("merge", "a.new"+n, "1")}
					case 1:
						os = []Ov{{Q: []string{"..none"}, Act: "replace", Val: "{x: 1}", HasV: true, OM: "inject", IP: []string{"$" + n + n}}}
					case 2:
						os = []Ov{injOv("replace", "m"+n, dq(w))}
					case 3:
						os = []Ov{mergeOv("a", "{"+dq(strings.ReplaceAll(w, "%", "p"))+": {"+dq(strings.ReplaceAll(w, "%", "p"))+": "+dq(strings.ReplaceAll(w, "%", "p"))+"}}")}
					case 4:
						os = []Ov{replaceOv("s", "["+dq(w)+", {"+dq(w)+": "+dq(w)+"}]"), injOv("merge", "a"+n+".b", "x")}
					default:
						os = []Ov{replaceOv("s~", dq(w)), combineOv("s2", dq(w))}
					}

					return againItem(fmt.Sprintf("word|%d|%d|%d", wi, form, si), "a: {b: 1}\nm: {}\ns: t\ns2: 'q'\n", os, form < 4, st...)
				})
			}
		}
	}

	layoutsReproduce(x)

	// large documents
	for di, d := range largeDocs() {
		for oi, o := range append(append([]Ov{}, largeMerges...), largeReplace...) {
			x.Do(func() *Item {
				return againItem(fmt.Sprintf("large|%d|%d", di, oi), d, []Ov{o}, false, "-I", fmt.Sprint(2+oi%4))
			})
		}
	}

	// tricky values installed by overlays
	for ti, t := range tricky {
		for di, d := range againDocs {
			for k, q := range []string{"a", "s", "l[*]", "$.new"} {
				if !x.Thorough && (ti+di+k)%3 != 0 {
					continue
				}

				x.Do(func() *Item {
					o := Ov{Q: []string{q}, Act: "replace", Val: "\n" + indentText("v: "+t, 2), HasV: true, OM: "inject"}

					return againItem(fmt.Sprintf("value|%d|%d|%d", ti, di, k), d, []Ov{o}, true)
				})
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "C22", Level: "model_checking",
		Rule:    "every history of up to N overlays from a set of documents, run at once and one overlay at a time over the intermediate outputs: byte-identical results; the last overlay again, and no overlay, reproduce the output; every tricky value in every output style and indentation reproduces itself; comments at one or two positions and below values; names that overlays add; large documents; the same data in every layout",
		Assume:  []string{"list merges, combinations, deletions by position and key renaming are not idempotent by design: only their histories are compared"},
		Explore: exploreC22,
	})
}
