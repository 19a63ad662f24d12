//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf16"
)

// tricky are texts of nodes whose data is easily damaged.
var tricky = []string{
	"yes", "no", "on", "Off", "y", "012", "0o14", "0x1F", "0b11", "1_000", "+1", "-0", "1e3", "1E+3", ".5", "1.", "-.5e-3", "1_0.5", ".inf", "-.Inf", ".nan", "~", "Null", "''", "'null'", "'true'", "\"1\"", "'1.0'", "'~'", "TRUE", "False",
	"2001-12-14", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43.10 -5", "'2001-12-14'", "12:30:45", "190:20:30", "1.2.3", "v1", "123456789012345678901234567890", "-9223372036854775808", "18446744073709551615", "3.141592653589793238462643383279", "1e400",
	"!!binary aGVsbG8=", "!!str 5", "!!int \"5\"", "!!float 1", "!!str null", "!!str ''", "!custom x", "!custom {a: 1}", "!custom [1]", "!<tag:x.org,2000:y> z", "!!set {a: null}", "! 5",
	"'<<'", "'='", "'*a'", "'&a'", "'!a'", "'%a'", "'@a'", "'`a'", "'#a'", "'a #b'", "'a: b'", "'a:'", "':'", "'- a'", "'-'", "'--'", "'---'", "'...'", "'? a'", "'?'", "'{'", "'}'", "'[a'", "','", "'a, b'", "'|'", "'>'", "'\"'", "''''", "'a''b'", "\"\\\\\"", "'\\n'", "'%v'", "'%k %h %l %f'", "'{{ .a }}'",
	"' a'", "'a '", "' '", "\"\\ta\"", "\"a\\t\"", "\"a\\tb\"", "\"a\\nb\"", "\"a\\n\"", "\"\\n\"", "\"\\na\"", "\"a\\n\\nb\\n\"", "\" a\\n b\\n\"", "\"a\\r\\nb\"", "\"\\0\"", "\"\\e[1m\"", "\"\\x7f\"", "\"\\u0085\"", "\"\\u00a0\"", "\"\\u2028\"", "\"\\ufeff\"", "\"\\U0001F600\"", "é", "日本", "\"a\\\n      b\"", "'a\n\n      b'",
	"|\n      a\n       b\n\n      c\n", "|-\n      a", "|+\n      a\n\n", ">\n      a\n      b\n\n      c\n       d\n", ">-\n      a\n      b", "|2-\n       a\n", "|\n      # not a comment\n      a: b\n      - c\n      %v\n",
	strings.Repeat("word ", 60) + "end", "\"" + strings.Repeat("x", 200) + "\"", "|\n      " + strings.Repeat("word ", 60) + "end\n      " + strings.Repeat("y", 130) + "\n", "'" + strings.Repeat("a b  c   ", 20) + "'",
	"{}", "[]", "[[], [[]], {}]", "{a: {}, b: []}", "[~, null, '']", "{k: ~}", "[{a: 1}, [2]]", "{? [1, 2] : x, ? {a: 1} : y}", "{1: a, true: b, null: c, 1.5: d, 2001-01-01: e}", "{'': a, ' ': b, 'a: b': c, '#': d, '- e': f, '?': g, '\"': h}", "{" + strings.Repeat("k", 130) + ": long key}", "{\"a\\nb\": c}", "{yes: 1, no: 2, on: 3}", "{'1': a, 'true': b, 'null': c}", "{!!str 1: a, !x b: c}",
	"{b: 1, a: 2, c: 3, B: 4}", "[3, 1, 2, 1]",
	"", "!!null", "!!null ''", "!!str", "!x", "&an", "{a: , b: }", "[!!null '', x, !!str '']", "{? : x, y: z}", "[{a: }, !x '']", "!!map {}", "!!seq []", "!x {}", "!x []", "&an {}", "&an ''",
}

func frameDoc(t string) string {
	return "c: first\nt: " + t + "\na:\n  sib: 1\n  b: X\n  t:\n    t: " + t + "\n  z: [1, 2]\nl:\n  - " + t + "\n  - x\n  - k: " + t + "\n    n: 3\n    v: w\n  - n: 1\n    k: x\n"
}

var frameQueries = []string{
	"a.b", "$.a.b", "a", "$.a['b','sib']", "a.*", "a[*]", "..b", "..k", "..n", "..t", "..z[0]", "l[0]", "l[1]", "l[-1]", "l[0,2]", "l[1:3]", "l[::2]", "l[-2:]", "l[*]", "l[*].v", "l[*].n", "l[5]", "l[?(@.k=='x')]", "l[?(@.k=='x')].n", "l[?(@.n>1)]", "l[?(@.n>=1)].v", "l[?(@.n<2)]", "l[?(@.n!=3)]",
	"l[?(@.k=~/^x/)].n", "l[?(@.n==1 && @.k=='x')].n", "l[?(@.n==1 || @.v=='w')].n", "l[?(!@.v)]", "l[?(@.v)].v", "l[?(@=='x')]", "a[?(@.t)]", "..[?(@.n)].n", "..[?(@.n==$.a.sib)].k", "l[?(@.v=='none')]", "a~", "a.b~", "a['sib']~", "a[*]~", "..n~", "l[2].v~", "$", "", "zz", "a.zz", "a.b.c", "*", "$.*", "$[*]", "['c']", "$['c','l'][0]", "a.z[0]", "a.z[*]", "..*", "$..*", "l[*][*]", "*.*",
}

// stream runs an overlay list over a stream of the documents for which the
// outcome is documented, together with other files.
func frameItem(key, class string, docs []string, os []Ov, lib, common bool) *Item {
	var keep []string

	fails := false

	for _, t := range docs {
		in := mustParseAll(t)
		d := &doc{in[0], lib}

		var err error

		for _, o := range os {
			if err = d.apply(o, 0, ""); err != nil {
				break
			}
		}

		if err == nil && d.root != nil && noDups(d.root) != nil {
			err = errUnspecified
		}

		if errors.Is(err, errUnspecified) || errors.Is(err, errCombine) && fails {
			continue
		}

		fails = fails || err != nil
		keep = append(keep, t)
	}

	if len(keep) == 0 {
		return nil
	}

	other := "o:\n  a: {b: 1}\n  l: [1]\n---\na: {b: 0o7, c: 'yes'}\n"
	sp := &Spec{Lib: lib, Files: map[string]string{"w/a.yaml": strings.Join(keep, "---\n"), "w/o.yaml": other, "w/unlisted.yaml": "a: {b: 1}\n"}, Std: true}

	if common {
		sp.Ins = &Ins{Common: os, Ents: []Ent{{Path: "a.yaml"}}}
	} else {
		sp.Ins = &Ins{Ents: []Ent{{Path: "o.yaml"}, {Path: "a.yaml", Ovs: os}}}
	}

	it := sp.item(key, class)
	it.Trace = len(keep) * len(os)

	return it
}

var encodings = []struct {
	name string
	f    func(string) string
}{
	{"crlf", func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }},
	{"cr", func(s string) string { return strings.ReplaceAll(s, "\n", "\r") }},
	{"bom", func(s string) string { return "\ufeff" + s }},
	{"utf16le", func(s string) string { return wide(s, 0) }},
	{"utf16be", func(s string) string { return wide(s, 1) }},
}

// wide encodes a text in UTF-16.
func wide(s string, big int) string {
	var b strings.Builder

	for _, u := range utf16.Encode([]rune("\ufeff" + s)) {
		p := [2]byte{byte(u), byte(u >> 8)}
		b.WriteByte(p[big])
		b.WriteByte(p[1-big])
	}

	return b.String()
}

func exploreC10(x *X) {
	var frames []string
	for _, t := range tricky {
		frames = append(frames, frameDoc(t))
	}

	// the texts mean what the harness takes them for
	for _, f := range frames {
		mustParse(f)
	}

	frames = append(frames, "", "~\n", "# only a comment\n", "plain\n", "- a\n- {b: 1}\n", "%YAML 1.1\n---\na: {b: 1}\n", "a: {b: 1}\n...\n", "--- |\n  text\n", "{}\n", "[]\n")
	last := len(frames)

	for i := len(tricky); i < last; i++ {
		if ds, err := parseStream(frames[i]); err != nil || len(ds) != 1 {
			frames[i] = "null\n"
		}
	}

	x.Count("frames", len(frames))
	x.Count("queries", len(frameQueries))

	vals := map[string][]string{
		"merge": {"new", "{k: v, new: [1]}", "[1, n]", "null"}, "replace": {"new", "{k: {m: 1}}", "[]"}, "combine": {"5", "s", "true"}, "delete": {""},
	}

	// 1. every query with every action: the whole remainder of the stream
	for _, act := range []string{"merge", "replace", "delete", "combine"} {
		for _, v := range vals[act] {
			for _, q := range frameQueries {
				for _, common := range []bool{false, true} {
					x.Do(func() *Item {
						return frameItem(fmt.Sprintf("q|%s|%s|%s|%v", act, v, q, common), "query x action", frames, []Ov{ov(act, q, v)}, true, common)
					})
				}
			}
		}
	}

	layoutsKeepData(x)
	treeActs(x, mergeOv("", "{c: [1]}"), replaceOv("", "{k: 1}"), deleteOv(""))
	treeHistories(x, []Ov{mergeOv("", "{a: [n]}"), deleteOv("")}, []Ov{replaceOv("", "r")})

	// every document on its own, so that the first and last ones are covered, and with errors not hiding anything
	for fi, f := range frames {
		for _, o := range []Ov{mergeOv("zz", "1"), mergeOv("a.b", "new"), deleteOv("c"), deleteOv("a"), replaceOv("l[1]", "{p: q}"), mergeOv("l", "[{end: 1}]"), mergeOv("$", "{new: 1}")} {
			x.Do(func() *Item {
				return frameItem(fmt.Sprintf("one|%d|%s", fi, ovKey([]Ov{o})), "single document", []string{f}, []Ov{o}, true, false)
			})
		}
	}

	// every pair of different documents around a separator
	pairs := len(frames)
	if !x.Thorough {
		pairs = 24
	}

	for i := 0; i < pairs; i++ {
		for j := range frames {
			x.Do(func() *Item {
				return frameItem(fmt.Sprintf("pair|%d|%d", i, j), "document pairs", []string{frames[(i*7)%len(frames)], frames[j]}, []Ov{mergeOv("a.b", "new")}, true, false)
			})
		}
	}

	// 2. tricky values in overlays: installed as they are, everywhere
	for ti, t := range tricky {
		if t == "" || strings.Contains(t, "\n") || strings.Contains(t, "%") {
			continue
		}

		for _, act := range []string{"merge", "replace"} {
			for _, q := range [][]string{{"a.b"}, {"zz"}, {"l[*]"}, {"a.t"}, {"$"}, {"c", "l[1]"}, {"l[3].k"}} {
				x.Do(func() *Item {
					o := Ov{Q: q, Act: act, Val: t, HasV: true, OM: "inject"}
					if len(q[0]) > 1 && strings.ContainsAny(q[0], "[$") || len(q) > 1 {
						o.OM = ""
					}

					return frameItem(fmt.Sprintf("val|%d|%s|%v", ti, act, q), "tricky values", []string{frames[3], frames[8], "a: {b: {c: 1}}\n"}, []Ov{o}, false, ti%2 == 0)
				})
				x.Do(func() *Item {
					o := Ov{Q: q, Act: act, Val: "{v: " + t + ", w: [" + t + "]}", HasV: true}
					if ds, err := parseStream(o.Val); err != nil || len(ds) != 1 {
						return nil // not usable in a flow collection
					}

					return frameItem(fmt.Sprintf("valin|%d|%s|%v", ti, act, q), "tricky values", []string{frames[3], frames[8], "a: {b: {c: 1}}\n"}, []Ov{o}, false, ti%2 == 0)
				})
			}
		}
	}

	// 3. lists of queries: the union of their matches
	few := []string{"a.b", "a.sib", "..n", "l[0]", "l[*].v", "l[?(@.n>1)].n", "zz", "c", "a['b','sib']", "$.a.z[1]", "l[1]", "..zz", "a.t.t"}
	sample := []string{frames[1], frames[9], frames[60], frames[len(tricky)-3], "a: {b: 1, sib: 2}\nl: []\n", "zz: 1\nl: [{zz: {v: 1}}, {v: 2}]\n"}

	for _, act := range []string{"merge", "replace", "delete", "combine"} {
		for _, v := range vals[act][:1] {
			for _, q1 := range few {
				for _, q2 := range few {
					x.Do(func() *Item {
						o := Ov{Q: []string{q1, q2}, Act: act, Val: v, HasV: v != ""}

						return frameItem(fmt.Sprintf("list|%s|%s|%s", act, q1, q2), "query lists", sample, []Ov{o}, true, false)
					})

					if !x.Thorough {
						continue
					}

					for _, q3 := range few {
						x.Do(func() *Item {
							o := Ov{Q: []string{q1, q2, q3}, Act: act, Val: v, HasV: v != ""}

							return frameItem(fmt.Sprintf("list|%s|%s|%s|%s", act, q1, q2, q3), "query lists", sample, []Ov{o}, true, false)
						})
					}
				}
			}
		}
	}

	// 4. pairs of overlays: the second sees what the first left
	seq := []Ov{mergeOv("a.b", "{n: 7}"), mergeOv("l", "[{n: 7, k: x}]"), replaceOv("..n", "x"), deleteOv("l[?(@.n>1)]"), deleteOv("..k"), replaceOv("l[0]", "[1, {n: 5}]"), combineOv("..n", "1"), deleteOv("a.t"), replaceOv("a.b~", "n"), mergeOv("*", "{n: 3}"), deleteOv("l[0]"), mergeOv("..z", "[{k: x}]")}

	for _, o1 := range seq {
		for _, o2 := range seq {
			x.Do(func() *Item {
				return frameItem("seq|"+ovKey([]Ov{o1, o2}), "sequences", sample, []Ov{o1, o2}, true, false)
			})

			for _, o3 := range seq {
				if !x.Thorough && o3.Act != "merge" {
					continue
				}

				x.Do(func() *Item {
					return frameItem("seq|"+ovKey([]Ov{o1, o2, o3}), "sequences", sample, []Ov{o1, o2, o3}, true, true)
				})
			}
		}
	}

	// large documents, streams, lists of overlays and queries
	large(x, append(append(append([]Ov{}, largeMerges[:6]...), largeReplace[:6]...), deleteOv("l[*].v"), deleteOv("..id"), deleteOv("m.k16"), combineOv("l[*].v", "+"), combineOv("..id", "1"), Ov{Q: []string{"l[*].v", "m.*.v", "e[*]"}, Act: "replace", Val: "q", HasV: true}))

	// 5. documents with aliases: whatever is changed elsewhere, what they stand for stays
	aliased := []string{
		"x: &a {k: 1, l: [1, 2]}\ny: *a\nz: [*a, {m: *a}]\nw: 5\nv: {u: 6}\n",
		"x: &a [1, {k: 2}]\ny: *a\nw: 5\nv: {u: 6}\n",
		"x: &a text\ny: *a\nz: [*a, *a]\nw: 5\nv: {u: 6}\n",
		"x: &a {k: &b {m: 1}}\ny: *b\nz: *a\nw: 5\nv: {u: 6}\n",
		"x: &a {k: 1}\ny: {<<: *a, n: 2}\nz: {<<: [*a, {o: 3}]}\nw: 5\nv: {u: 6}\n",
		"x: &a 1\ny: *a\nx2: &a 2\nz: *a\nw: 5\nv: {u: 6}\n",
		"x: &a null\n? *a\n: y\nz: {*a : 1}\nw: 5\nv: {u: 6}\n",
		"x: &a {}\np: &b [*a]\ny: *b\nw: 5\nv: {u: 6}\n",
		"x: &a |\n  lit\n  eral\nz: *a\nw: 5\nv: {u: 6}\n",
		"w: 5\nv: {u: 6}\nl: [&i 1, &j 2, *i, *j]\n",
	}
	plain := []Ov{mergeOv("w", "7"), mergeOv("v", "{u: 8, t: [1]}"), replaceOv("v", "{n: 1}"), replaceOv("w", "[1]"), deleteOv("w"), deleteOv("v"), deleteOv("v.u"), combineOv("w", "1"), mergeOv("zz", "1"), mergeOv("$", "{new: 1}"), replaceOv("w~", "ww"),
		{Q: []string{"n.e.w"}, Act: "merge", Val: "1", HasV: true, OM: "inject"}, {Q: []string{"v.e"}, Act: "replace", Val: "{a: 1}", HasV: true, OM: "inject"}}
	// deleting what the anchor stands on, or what an alias stands on
	dels := []Ov{deleteOv("x"), deleteOv("y"), deleteOv("z"), deleteOv("z[0]"), deleteOv("l[0]"), deleteOv("l[1]"), deleteOv("l[2]"), deleteOv("l[3]")}
	// changing one occurrence of an alias changes only that one
	occ := []Ov{replaceOv("y", "new"), replaceOv("z", "{a: 1}"), replaceOv("z[0]", "[1]"), replaceOv("l[2]", "9"), replaceOv("l[3]", "9"), mergeOv("y", "new"), combineOv("l[2]", "5"), combineOv("y", "5")}

	all := append(append(append([]Ov{}, plain...), dels...), occ...)

	for di, d := range aliased {
		for _, o1 := range all {
			x.Do(func() *Item {
				return frameItem(fmt.Sprintf("alias|%d|%s", di, ovKey([]Ov{o1})), "aliases", []string{d}, []Ov{o1}, false, false)
			})

			for _, o2 := range all {
				x.Do(func() *Item {
					return frameItem(fmt.Sprintf("alias|%d|%s", di, ovKey([]Ov{o1, o2})), "aliases", []string{d, aliased[(di+1)%len(aliased)]}, []Ov{o1, o2}, false, true)
				})
			}
		}
	}

	// every encoding and line ending YAML has, of inputs and instructions
	for _, e := range encodings {
		for fi := range frames {
			for oi, o := range []Ov{mergeOv("a.b", "new"), replaceOv("..n", "{é: \"1\"}"), deleteOv("c"), mergeOv("$", "{'ключ': [\"x\"]}")} {
				x.Do(func() *Item {
					if (fi+oi)%4 != 0 && !x.Thorough {
						return nil
					}

					it := frameItem(fmt.Sprintf("enc|%s|%d|%d", e.name, fi, oi), "encodings", []string{frames[fi], frames[(fi*5+1)%len(frames)]}, []Ov{o}, false, oi%2 == 0)
					if it == nil {
						return nil
					}

					for n, t := range it.Case.Files {
						if strings.HasSuffix(n, "/i.yaml") && oi < 2 || strings.HasSuffix(n, "/a.yaml") {
							it.Case.Files[n] = e.f(t)
						}
					}

					return it
				})
			}
		}
	}

	// 6. anchors and aliases in overlay values and in instructions
	for _, v := range []string{"{a: &q {k: 1}, b: *q}", "[&q 1, *q]", "{a: &q [1, *r]}", "&q {a: 1}", "{a: &q x, b: {c: *q, d: [*q]}}"} {
		for _, act := range []string{"merge", "replace"} {
			for _, q := range []string{"a.b", "l[*]", "$", "zz", "a"} {
				if strings.Contains(v, "*r") {
					continue
				}

				x.Do(func() *Item {
					o := Ov{Q: []string{q}, Act: act, Val: v, HasV: true, OM: "inject"}
					if strings.ContainsAny(q, "$[") {
						o.OM = ""
					}

					return frameItem("alval|"+v+"|"+act+"|"+q, "aliases in values", []string{frames[0], aliased[0] + "a: {b: 1}\nl: [1]\n", "a: {b: 0}\nm: &q 1\nl: [2, *q]\n"}, []Ov{o}, false, true)
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking", Explore: exploreC10,
		Rule:   "57 queries of every form of the query language x 11 action/value pairs x ~150 documents built around data that is easily damaged (types, tags, strings, keys, block scalars, empty documents), alone, in pairs and as one stream next to other files; all lists of 2 (3) of 13 queries; all sequences of 2 and 3 of 12 overlays; 29 overlays alone and in pairs on 10 documents with anchors, aliases and merge keys; ~100 overlay values installed at 7 places; the whole output is compared with the model; every encoding and line ending; 37 queries and pairs of them on all small trees; the same data in every layout (offset, indent, list indent, blanks, blank lines, comments)",
		Assume: []string{"yaml-jsonpath defines which nodes a query matches", "an alias stands for what its anchor holds when the document is read"}})
}
