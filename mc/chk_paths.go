//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"gopkg.in/yaml.v3"
)

// pathText is one text used as query of an injecting overlay on an empty map.
type pathText struct {
	t    string
	must int // 1: a path (want is the document), -1: not a path (nothing is created), 0: either, but consistently
	want string
}

const injected = "V.5"

// usable says whether the query language accepts the text and it matches
// nothing in an empty map.
func usable(t string) bool {
	p, err := yamlpath.NewPath(t)
	if err != nil {
		return false
	}

	r, err := p.Find(emptyMapDoc)

	return err == nil && len(r) == 0
}

var emptyMapDoc = &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{{Kind: yaml.MappingNode, Tag: "!!map"}}}

func leaves(n *yaml.Node) int {
	if n.Kind == yaml.ScalarNode {
		return 1
	}

	k := 0

	for i, c := range n.Content {
		if n.Kind == yaml.MappingNode && i%2 == 0 {
			continue
		}

		k += leaves(c)
	}

	if (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && len(n.Content) == 0 {
		return 1
	}

	return k
}

func textKeys(n *N) {
	for i, c := range n.C {
		if n.K == Map && i%2 == 0 {
			c.Tag = "!!str"
		}

		textKeys(c)
	}
}

func (p pathText) judge(d *yaml.Node) string {
	n, err := fromYAML(d, 0)
	if err != nil {
		return err.Error()
	}

	got := canon(n)

	if got == "{}" {
		if p.must == 1 {
			return "is a path, but nothing was injected"
		}

		return ""
	}

	if p.must == -1 {
		return "is not a path, but " + got + " was created"
	}

	// keys are looked up by their text
	textKeys(n)

	if p.want != "" && canon(n) != p.want {
		return fmt.Sprintf("created %s, expected %s", got, p.want)
	}

	if err := noDups(n); err != nil {
		return err.Error() + " in " + got
	}

	q, _ := yamlpath.NewPath(p.t)

	rs, err := q.Find(d)
	if err != nil || len(rs) == 0 {
		return fmt.Sprintf("created %s, where the same text finds nothing", got)
	}

	seen := map[*yaml.Node]bool{}

	for _, r := range rs {
		if r.Kind != yaml.ScalarNode || r.Value != injected {
			return fmt.Sprintf("created %s, where the same text finds %q", got, r.Value)
		}

		seen[r] = true
	}

	if len(seen) != leaves(d.Content[0]) {
		return fmt.Sprintf("created %s, more than the text finds", got)
	}

	return ""
}

// pathBatch runs all texts, each on a document of its own.
func pathBatch(key, class string, ts []pathText, via string) *Item {
	if len(ts) == 0 {
		return nil
	}

	var ins, src strings.Builder

	ins.WriteString("yamlFiles:\n- path: a.yaml\n  documents:\n")

	for i, t := range ts {
		src.WriteString("---\n{}\n")

		if via == "injectPath" {
			fmt.Fprintf(&ins, "  - path: %d\n    overlays:\n    - query: ..nope\n      value: %s\n      onMissing: {action: inject, injectPath: %s}\n", i, injected, dq(t.t))
		} else {
			fmt.Fprintf(&ins, "  - path: %d\n    overlays:\n    - query: %s\n      value: %s\n      onMissing: {action: inject}\n", i, dq(t.t), injected)
		}
	}

	c := &Case{Files: map[string]string{"w/i.yaml": ins.String(), "w/a.yaml": src.String()}, Args: []string{"-i", "i.yaml", "-s"}}

	return &Item{Key: key, Class: class, Case: c, Trace: len(ts), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 800))
		}

		dec := yaml.NewDecoder(strings.NewReader(r.Stdout))

		var bad []string

		for _, t := range ts {
			var d yaml.Node
			if err := dec.Decode(&d); err != nil {
				return fmt.Sprintf("%q: output is not valid YAML: %v", t.t, err)
			}

			if m := t.judge(&d); m != "" {
				bad = append(bad, fmt.Sprintf("%q %s", t.t, m))
			}
		}

		if len(bad) > 0 {
			return fmt.Sprintf("%d texts: %s", len(bad), strings.Join(bad, "; "))
		}

		return filesExactly(c, r, nil)
	}}
}

type pathTok struct {
	t     string
	kind  int      // 1 step of a path, -1 certainly not one, 0 unclear
	names []string // for kind 1
	undot bool     // only as first
}

func tokTree(toks []pathTok) string {
	if len(toks) == 0 {
		return canon(mustParse(injected))
	}

	n := &N{K: Map, Tag: "!!map"}
	sub := tokTree(toks[1:])
	_ = n

	var p []string

	seen := map[string]bool{}

	for _, nm := range toks[0].names {
		if !seen[nm] {
			seen[nm] = true
			p = append(p, fmt.Sprintf("%q:%s,", nm, sub))
		}
	}

	return "{" + strings.Join(p, "") + "}"
}

func exploreC09(x *X) {
	// 1. every text up to a length over the characters that matter to the notation
	alpha := []string{"a", "b", ".", "[", "]", "'", "\"", "\\", "$", "*", ",", " ", "0", "~", "@"}
	maxLen := 5

	if x.Thorough {
		alpha = append(alpha, "-", "é")
		maxLen = 6
	}

	n := len(alpha)

	words := func(k int, f func(string)) {
		var rec func(string, int)

		rec = func(s string, k int) {
			if k == 0 {
				f(s)

				return
			}

			for _, c := range alpha {
				rec(s+c, k-1)
			}
		}

		rec("", k)
	}

	for l := 1; l <= maxLen; l++ {
		pre, suf := 0, l
		if l > 3 {
			pre, suf = l-3, 3
		}

		words(pre, func(p string) {
			x.Do(func() *Item {
				var ts []pathText

				words(suf, func(s string) {
					if t := p + s; usable(t) {
						ts = append(ts, pathText{t: t})
					}
				})

				return pathBatch(fmt.Sprintf("text|%d|%q", l, p), fmt.Sprintf("length %d", l), ts, "query")
			})
		})
	}

	x.Count("alphabet", n)
	x.Count("text_length", maxLen)

	// every quoted child name of up to 4 (5) characters
	in := []string{"a", "\\", "'", "\"", ",", " ", "]", "[", ".", "0"}
	inLen := 4

	if x.Thorough {
		in = append(in, "$", "*", "~", "?", "(")
		inLen = 5
	}

	for _, frame := range []string{"['%s']", "[\"%s\"]", "a['%s'].b", "['b',\"%s\"]", "$[\"%s\" , 'b']"} {
		for _, c1 := range in {
			for _, c2 := range in {
				x.Do(func() *Item {
					var ts []pathText

					for _, s := range shortStrings(in, inLen-2) {
						if t := strings.Replace(frame, "%s", c1+c2+s, 1); usable(t) {
							ts = append(ts, pathText{t: t})
						}
					}

					if c2 == in[0] {
						if t := strings.Replace(frame, "%s", c1, 1); usable(t) {
							ts = append(ts, pathText{t: t})
						}
					}

					return pathBatch(fmt.Sprintf("name|%s|%q", frame, c1+c2), "quoted names", ts, "query")
				})
			}
		}
	}

	x.Count("quoted_name_length", inLen)

	// every character of ASCII, and kinds of others, at every place of a text, alone and in pairs at blank places
	var chars []string

	for c := 1; c < 128; c++ {
		chars = append(chars, string(rune(c)))
	}

	chars = append(chars, "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u2029", "\u202f", "\u3000", "\u200b", "\ufeff", "é", "ß", "漢", "😀", "\u0301", "\u00ad", "\ufffd")

	for _, frame := range []string{"%s", "a%s", "%sa", ".%s", "a.%s", "a.%sb", "a.b%s", "a%s.b", "$%s", "$%sa", "$.%s", "$.a%sb", "['%s']", "[\"%s\"]", "['a%sb']", "[%s'a']", "['a'%s]", "a%s['b']", "a['b']%s", "a['b']%s.c", "['a'%s,'b']", "['a',%s'b']", "['a','b'%s]", "[\"a\",%s'b'].c", "['a\\%sb']", "[\"\\%s\"]", "a\\%s", "a.\\%s", "a.b\\%sc"} {
		x.Do(func() *Item {
			var ts []pathText

			for _, c := range chars {
				if t := strings.Replace(frame, "%s", c, 1); usable(t) {
					ts = append(ts, pathText{t: t})
				}
			}

			return pathBatch("char|"+frame, "every character", ts, "query")
		})
	}

	gap := []string{"", " ", "\t", "\n", "\r\n", " \t", "\n ", "\u00a0", "\u2003", "\v", "\f", "\u0085", "  ", "\u200b"}
	gaps := []string{"a['p']", "[", "'p'", ",", "\"q\"", "]", ".b"}

	for i := 0; i < 6; i++ {
		for j := i + 1; j < 6; j++ {
			for _, via := range []string{"query", "injectPath"} {
				x.Do(func() *Item {
					var ts []pathText

					for _, g := range gap {
						for _, h := range gap {
							t := ""

							for k, p := range gaps {
								t += p

								if k == i {
									t += g
								}

								if k == j {
									t += h
								}
							}

							if usable(t) {
								ts = append(ts, pathText{t: t})
							}
						}
					}

					return pathBatch(fmt.Sprintf("gap|%d|%d|%s", i, j, via), "blanks", ts, via)
				})
			}
		}
	}

	// texts the query language refuses are refused
	for l := 1; l <= 3; l++ {
		words(l, func(t string) {
			if l == 3 && !x.Thorough && !strings.ContainsAny(t[:1], ".[$") {
				return
			}

			x.Do(func() *Item {
				if _, err := yamlpath.NewPath(t); err == nil {
					return nil
				}

				c := &Case{Files: map[string]string{"w/i.yaml": "yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: " + dq(t) + "\n    value: 1\n    onMissing: {action: inject}\n", "w/a.yaml": "{}\n"}, Args: []string{"-i", "i.yaml", "-s"}}
				e := Exp{Fail: true}

				return &Item{Key: fmt.Sprintf("refused|%q", t), Class: "refused texts", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
			})
		})
	}

	// 2. every sequence of notation elements
	toks := []pathTok{
		{t: "a", kind: 1, names: []string{"a"}, undot: true}, {t: "k-1_Z", kind: 1, names: []string{"k-1_Z"}, undot: true}, {t: ".a", kind: 1, names: []string{"a"}}, {t: ".b", kind: 1, names: []string{"b"}}, {t: ".k-1_Z", kind: 1, names: []string{"k-1_Z"}}, {t: ".7", kind: 1, names: []string{"7"}},
		{t: "['a']", kind: 1, names: []string{"a"}}, {t: `["b"]`, kind: 1, names: []string{"b"}}, {t: "['a','b']", kind: 1, names: []string{"a", "b"}}, {t: `["c" , 'a']`, kind: 1, names: []string{"c", "a"}}, {t: "[ 'a' ]", kind: 1, names: []string{"a"}},
		{t: "['x.y/z']", kind: 1, names: []string{"x.y/z"}}, {t: `["a b"]`, kind: 1, names: []string{"a b"}}, {t: `['it\'s']`, kind: 1, names: []string{"it's"}}, {t: `["q\"r"]`, kind: 1, names: []string{`q"r`}}, {t: `['a]']`, kind: 1, names: []string{"a]"}}, {t: "['[']", kind: 1, names: []string{"["}},
		{t: "['a,b']", kind: 1, names: []string{"a,b"}}, {t: `['c,d',"e,f"]`, kind: 1, names: []string{"c,d", "e,f"}}, {t: "['*']", kind: 1, names: []string{"*"}}, {t: "['..']", kind: 1, names: []string{".."}}, {t: `['b\\s']`, kind: 1, names: []string{`b\s`}}, {t: "['$']", kind: 1, names: []string{"$"}}, {t: `["it's"]`, kind: 1, names: []string{"it's"}}, {t: "['é']", kind: 1, names: []string{"é"}}, {t: "['1']", kind: 1, names: []string{"1"}},
		{t: `['"']`, kind: 1, names: []string{`"`}}, {t: "['~']", kind: 1, names: []string{"~"}}, {t: "['?(@.a)']", kind: 1, names: []string{"?(@.a)"}}, {t: "['0']", kind: 1, names: []string{"0"}},
		{t: "['']", kind: 1, names: []string{""}}, {t: "['a: b']", kind: 1, names: []string{"a: b"}}, {t: "['#c', '- d']", kind: 1, names: []string{"#c", "- d"}}, {t: "['{z','&x',' l ']", kind: 1, names: []string{"{z", "&x", " l "}}, {t: "['n\nl']", kind: 1, names: []string{"n\nl"}}, {t: "['!t','|','%d','>-']", kind: 1, names: []string{"!t", "|", "%d", ">-"}},
		{t: "..a", kind: -1}, {t: "..", kind: -1}, {t: ".*", kind: -1}, {t: "[*]", kind: -1}, {t: "[0]", kind: -1}, {t: "[-1]", kind: -1}, {t: "[0:2]", kind: -1}, {t: "[0,1]", kind: -1}, {t: "[?(@.a=='b')]", kind: -1}, {t: "[?(@.a)]", kind: -1}, {t: "~", kind: -1},
	}

	build := func(root string, seq []pathTok) (pathText, bool) {
		t := root

		p := pathText{must: 1}

		for i, k := range seq {
			t += k.t

			if k.undot && (i > 0 || root != "") {
				p.must = 0
			}

			if k.kind == -1 {
				p.must = min(p.must, -1)
			}
		}

		for i, k := range seq {
			if k.undot && (i > 0 || root != "") {
				return p, false // glues to its neighbour, another text
			}
		}

		p.t = t
		if p.must == 1 {
			p.want = tokTree(seq)
		}

		if !usable(t) {
			return p, false
		}

		return p, true
	}

	depth := 3
	if x.Thorough {
		depth = 4
	}

	for _, via := range []string{"query", "injectPath"} {
		for _, root := range []string{"", "$"} {
			for i, t1 := range toks {
				var sets [][]pathTok

				if depth == 3 {
					sets = [][]pathTok{{t1}}
				} else {
					for _, t2 := range toks {
						sets = append(sets, []pathTok{t1, t2})
					}
				}

				for j, s := range sets {
					x.Do(func() *Item {
						var ts []pathText

						add := func(seq []pathTok) {
							if p, ok := build(root, seq); ok && (via == "query" || p.must == 1) {
								ts = append(ts, p)
							}
						}

						add([]pathTok{t1})

						for _, t2 := range toks {
							q := append(append([]pathTok{}, s...), t2)
							add(q)

							for _, t3 := range toks {
								add(append(append([]pathTok{}, q...), t3))
							}
						}

						if len(s) == 2 {
							add(s)
						}

						return pathBatch(fmt.Sprintf("tok|%s|%s|%d|%d", via, root, i, j), "notation elements via "+via, ts, via)
					})
				}
			}
		}
	}

	// 3. lists of paths that do not overlap
	var pos []pathTok

	for _, t := range toks {
		if t.kind == 1 && !t.undot {
			pos = append(pos, t)
		}
	}

	for _, a := range pos {
		for _, b := range pos {
			x.Do(func() *Item {
				qs := []string{"l.p" + a.t, "$.l.q" + b.t + a.t, "m" + b.t}
				d := mustParse("{}")

				for _, q := range qs {
					if !usable(q) {
						return nil
					}
				}

				for i, s := range [][]pathTok{{{names: []string{"l"}}, {names: []string{"p"}}, a}, {{names: []string{"l"}}, {names: []string{"q"}}, b, a}, {{names: []string{"m"}}, b}} {
					var p [][]string
					for _, k := range s {
						p = append(p, k.names)
					}

					if err := inject(d, p, mustParse(injected)); err != nil {
						panic(fmt.Sprint(i, err))
					}
				}

				c := &Case{Files: map[string]string{"w/a.yaml": "{}\n---\n{}\n", "w/i.yaml": fmt.Sprintf("yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: %s\n    documentIndex: [0]\n    value: %s\n    onMissing: {action: inject}\n  - query: ..none\n    documentIndex: [1]\n    value: %s\n    onMissing:\n      action: inject\n      injectPath: %s\n", yqList(qs, true), injected, injected, yqList(qs, true))}, Args: []string{"-i", "i.yaml", "-s"}}
				want := canonAll([]*N{d, d})

				return &Item{Key: "list|" + a.t + "|" + b.t, Class: "path lists", Case: c, Trace: 6, Verify: func(r *Result) string {
					got, err := parseStream(r.Stdout)
					if r.Exit != 0 || err != nil {
						return fmt.Sprintf("exit status %d: %s, %v", r.Exit, clip(r.Stderr, 600), err)
					}

					for _, g := range got {
						textKeys(g)
					}

					if g := canonAll(got); g != want {
						return "created\n" + g + "expected\n" + want
					}

					return filesExactly(c, r, nil)
				}}
			})
		}
	}
}

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Explore: exploreC09,
		Rule:   "every text of up to 5 (thorough 6) characters over 15 (17) characters that matter to the notation, every quoted child name of up to 4 (5) characters over 10 (15) in five settings, every character of ASCII and 17 others at 29 places of a text, 14 kinds of blanks at every pair of places between the elements of a bracketed child, and every sequence of up to 3 (4) of 41 notation elements, with and without $, as query and as injectPath, each on an empty map: what is created is exactly what yaml-jsonpath finds for the text; all refused texts up to 3 characters; pairs of elements in path lists",
		Assume: []string{"yaml-jsonpath defines the query language"}})
}
