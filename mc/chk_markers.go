//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/rwtodd/Go.Sed/sed"
	"gopkg.in/yaml.v3"
)

// origText is what the format markers stand for at one node.
type origText struct{ v, k, l, h, f string }

func commentText(c string) string { return strings.TrimPrefix(c, "#") }

func textOf(n *N, key string) origText {
	return origText{v: n.V, k: key, l: commentText(n.LC), h: commentText(n.HC), f: commentText(n.FC)}
}

// runSed applies a sed command to a text; a command which is not valid leaves
// it alone.
func runSed(cmd, s string) string {
	if cmd == "" || s == "" {
		return s
	}

	e, err := sed.New(strings.NewReader(cmd))
	if err != nil {
		return s
	}

	in := s
	if !strings.HasSuffix(s, "\n") {
		in += "\n"
	}

	out, err := e.RunString(in)
	if err != nil {
		return s
	}

	if in != s {
		out = strings.TrimSuffix(out, "\n")
	}

	return out
}

// expandMarkers replaces the markers of t, a scan from left to right.
func expandMarkers(t string, o origText) string {
	var b strings.Builder

	for i := 0; i < len(t); {
		if t[i] != '%' || i+1 == len(t) || !strings.Contains("vklhf", t[i+1:i+2]) {
			b.WriteByte(t[i])
			i++

			continue
		}

		s := map[byte]string{'v': o.v, 'k': o.k, 'l': o.l, 'h': o.h, 'f': o.f}[t[i+1]]
		i += 2

		if i < len(t) && t[i] == '{' {
			line := t[i:]
			if j := strings.IndexByte(line, '\n'); j >= 0 {
				line = line[:j]
			}

			if j := strings.IndexByte(line, '}'); j >= 0 {
				s = runSed(line[1:j], s)
				i += j + 1
			}
		}

		b.WriteString(s)
	}

	return b.String()
}

func hasMarker(t string) bool {
	for _, m := range []string{"%v", "%k", "%l", "%h", "%f"} {
		if strings.Contains(t, m) {
			return true
		}
	}

	return false
}

// comments sets the comments v carries on o.
func (o *N) comments(v *N, t origText) {
	for _, p := range [][2]*string{{&o.HC, &v.HC}, {&o.LC, &v.LC}, {&o.FC, &v.FC}} {
		if *p[1] != "" {
			*p[0] = expandMarkers(*p[1], t)
		}
	}
}

// noMarkers is a value as it is added where nothing was.
func noMarkers(v *N) *N {
	m := v.clone()

	var f func(*N)

	f = func(n *N) {
		for _, s := range []*string{&n.V, &n.HC, &n.LC, &n.FC} {
			*s = expandMarkers(*s, origText{})
		}

		for _, c := range n.C {
			f(c)
		}
	}
	f(m)

	return m
}

// mergeText is merge with the comments and the markers.
func mergeText(o, v *N, key string) {
	t := textOf(o, key)

	switch v.K {
	case Sca:
		if o.K != Sca {
			t.v = ""
		}

		o.comments(v, t)
		o.K, o.Tag, o.C, o.V = Sca, v.Tag, nil, expandMarkers(v.V, t)
	case Seq:
		if o.K != Seq {
			o.K, o.Tag, o.C, o.V = Seq, "!!seq", nil, ""
		}

		o.comments(v, t)

		for _, c := range v.C {
			o.C = append(o.C, noMarkers(c))
		}
	case Map:
		if o.K != Map {
			o.K, o.Tag, o.C, o.V = Map, "!!map", nil, ""
		}

		o.comments(v, t)

		for i := 0; i < len(v.C); i += 2 {
			vk, vv := v.C[i], v.C[i+1]
			found := false

			for j := 0; j < len(o.C); j += 2 {
				ok, oc := o.C[j], o.C[j+1]
				if !hasMarker(vk.V) && !sameKey(vk, ok) || hasMarker(vk.V) && ok.K != Sca {
					continue
				}

				found = true
				kt := textOf(ok, ok.V)
				kt.v = oc.V

				mergeText(oc, vv, ok.V)
				ok.comments(vk, kt)

				if !hasMarker(vk.V) {
					break
				}

				if n := expandMarkers(vk.V, kt); n != ok.V {
					ok.V, ok.Tag = n, vk.Tag
				}
			}

			if !found {
				o.C = append(o.C, noMarkers(vk), noMarkers(vv))
			}
		}
	}
}

// toYAML is the tree with its comments, for yaml.v3 to encode.
func toYAML(n *N) *yaml.Node {
	y := &yaml.Node{Kind: map[Kind]yaml.Kind{Map: yaml.MappingNode, Seq: yaml.SequenceNode, Sca: yaml.ScalarNode}[n.K], Tag: n.Tag, Value: n.V, HeadComment: n.HC, LineComment: n.LC, FootComment: n.FC}
	if n.K == Sca && strings.Contains(n.V, "\n") {
		y.Style = yaml.DoubleQuotedStyle
	}

	for _, c := range n.C {
		y.Content = append(y.Content, toYAML(c))
	}

	return y
}

func canonComments(n *N) string {
	var b strings.Builder

	var f func(n *N)

	f = func(n *N) {
		if n.HC+n.LC+n.FC != "" {
			fmt.Fprintf(&b, "<%q %q %q>", n.HC, n.LC, n.FC)
		}

		switch n.K {
		case Sca:
			b.WriteString(canonScalar(n.Tag, n.V))
		default:
			b.WriteString(string("{["[n.K-Map]))

			for _, c := range n.C {
				f(c)
				b.WriteString(", ")
			}

			b.WriteString(string("}]"[n.K-Map]))
		}
	}
	f(n)

	return b.String()
}

// reparsed is a tree as it is after being written by yaml.v3.
func reparsed(n *N) (*N, error) {
	var b strings.Builder

	e := yaml.NewEncoder(&b)
	e.SetIndent(2)

	if err := e.Encode(toYAML(n)); err != nil {
		return nil, err
	}

	ds, err := parseStream(b.String())
	if err != nil || len(ds) != 1 {
		return nil, fmt.Errorf("%d documents, %v: %q", len(ds), err, b.String())
	}

	return ds[0], nil
}

func sameWithComments(where, text string, want []*N) string {
	got, err := parseStream(text)
	if err != nil {
		return fmt.Sprintf("%s is not valid YAML (%v): %q", where, err, clip(text, 800))
	}

	if len(got) != len(want) {
		return fmt.Sprintf("%s has %d documents, expected %d", where, len(got), len(want))
	}

	for i := range got {
		w, err := reparsed(want[i])
		if err != nil {
			panic(err)
		}

		// yaml.v3 does not write every comment of a collection where it belongs
		if collComment(want[i]) {
			w, got[i] = noComments(w), noComments(got[i])
		}

		if a, b := canonComments(got[i]), canonComments(w); a != b {
			return fmt.Sprintf("%s, document %d: has\n%s expected\n%s", where, i, clip(a, 1500), clip(b, 1500))
		}
	}

	return ""
}

func collComment(n *N) bool {
	if n.K != Sca && n.LC != "" {
		return true
	}

	for _, c := range n.C {
		if collComment(c) {
			return true
		}
	}

	return false
}

func noComments(n *N) *N {
	m := n.clone()
	preorderAll(m, func(n *N) { n.HC, n.LC, n.FC = "", "", "" })

	return m
}

// markerOv is an overlay whose value is an instructions text.
type markerOv struct {
	q, act, val string
}

func markerIns(os []markerOv) string {
	var b strings.Builder

	b.WriteString("yamlFiles:\n- path: a.yaml\n  overlays:\n")

	for _, o := range os {
		fmt.Fprintf(&b, "  - query: %s\n    action: %s\n    value: %s\n", yq(o.q), o.act, strings.TrimPrefix(strings.ReplaceAll("\n"+o.val, "\n", "\n      "), "\n      "))
	}

	return b.String()
}

// markerItem runs the overlays over every one of the documents for which the
// outcome is documented.
func markerItem(key, class string, docs []string, os []markerOv) *Item {
	if len(os) == 0 {
		return nil
	}

	ins := markerIns(os)

	it, err := parseStream(ins)
	if err != nil {
		return nil // duplicate keys, or a comment that is none
	}

	ol := it[0].get("yamlFiles").C[0].get("overlays")

	var keep []string

	var want []*N

docs:
	for _, t := range docs {
		d := mustParse(t)

		for _, o := range ol.C {
			v := o.get("value")

			for _, r := range find(d, o.get("query").V) {
				switch o.get("action").V {
				case "merge":
					mergeText(r.n, v, "")
				case "replace":
					n := r.n
					w := v.clone()
					w.HC, w.LC, w.FC = n.HC, n.LC, n.FC
					w.comments(v, textOf(n, ""))
					*n = *w
				case "combine":
					n := r.n
					n.comments(v, textOf(n, ""))

					if combineInto(n, v) != nil {
						continue docs
					}
				}
			}
		}

		if noDups(d) != nil {
			continue
		}

		if _, err := reparsed(d); err != nil {
			continue
		}

		keep, want = append(keep, t), append(want, d)
	}

	if len(keep) == 0 {
		return nil
	}

	c := &Case{Files: map[string]string{"w/a.yaml": strings.Join(keep, "---\n"), "w/i.yaml": ins}, Args: []string{"-i", "i.yaml", "-s"}}

	return &Item{Key: key, Class: class, Case: c, Trace: len(keep) * len(os), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		return sameWithComments("stdout", r.Stdout, want)
	}}
}

var markerTokens = []string{"", "%v", "%k", "%l", "%h", "%f", "a", "-", "%", "{", "}", " ", "%x", "é", "#", "%v{s/a/b/}", "%v{s/[ae]/%k/g}", "%k{s/$/!/}", "%l{s/lc/LC/g}", "%v{}", "%v{s/a}", "%v{d}", "%v{y/ab/ba/}", "%h{s/^ *//}", "{s/b/c/}", "\\"}

var markerValues = []string{`""`, "a", "aXa", `"a%v"`, `"%h"`, `"%l%%vv"`, `"{b}"`, "50%fat", `"a\nb"`, `"b\na\n"`, `"\\1"`, `"&"`, "$1", "é", "7", "true", "null", "1.50", "' a '", "'%v{s/a/b/}'"}

var markerComments = []string{"", " # lc", " # %v a", " #lc", " # a %v{s/a/b/} %k"}

func markerDoc(v, lc string) string {
	multi := strings.Contains(v, `\n`)
	if multi {
		lc = ""
	}

	return "c: first\nm:\n  k: " + v + lc + "\n  z: 1\nl:\n- x\n# head h%v\n- " + v + lc + "\n# foot f\n\n- y\nq: " + v + lc + "\nr:\n  i: 1\n  # rk head\n  a: " + v + lc + "\n  80: w # l80\n  b-c: \"%k\"\ne:\n  o: 1\nkk:\n  old: 1\nqc: " + v + lc + "\ni: 4 # was\n"
}

func markerOvs(t string) []markerOv {
	s := dq(t)
	c := ""

	if !strings.Contains(t, "\n") {
		c = " # " + t
	}

	// without a key to refer to
	bare := !strings.Contains(t, "%k")

	os := []markerOv{{"m", "merge", "\nk: " + s + c + "\nnew: " + s + c}, {"e", "merge", "\n- " + s + c}, {"l", "merge", "[" + s + "]"}}

	if bare {
		os = append(os, markerOv{"l[1]", "merge", s + c}, markerOv{"kk.old~", "merge", s})
	}

	if bare && c != "" {
		os = append(os, markerOv{"q", "replace", "R" + c}, markerOv{"qc", "combine", "S" + c}, markerOv{"i", "combine", "3" + c}, markerOv{"l[1]", "replace", "[1, 2]" + c})
	}

	if hasMarker(t) && (strings.Contains(t, "%k") || strings.Contains(t, "%v")) {
		os = append(os, markerOv{"r", "merge", "\n" + s + ": " + s + c})
	}

	return os
}

func exploreC11(x *X) {
	var docs []string

	for _, v := range markerValues {
		for _, c := range markerComments {
			docs = append(docs, markerDoc(v, c))
		}
	}

	x.Count("documents", len(docs))

	max := 2
	if x.Thorough {
		max = 3
	}

	for n := 1; n <= max; n++ {
		seqs(len(markerTokens), n, func(ix []int) {
			if len(ix) != n {
				return
			}

			t := ""
			for _, i := range ix {
				t += markerTokens[i]
			}

			x.Do(func() *Item {
				return markerItem("t|"+t+"|"+fmt.Sprint(ix), "template", docs, markerOvs(t))
			})
		})
	}

	// markers deeper in the value, several marked keys, and keys of all kinds
	trees := []string{
		"s: {a: x # la\n}\n", "s:\n  a: x # la\n  b: y # lb\n", "s:\n  # ha\n  a:\n    x: 1 # l1\n    y: 2\n  # hb\n  b:\n    x: 3\n",
		"s:\n  1: x\n  true: y # t\n  null: z\n  2001-01-01: w\n", "s:\n  'a b': '%k' # %l\n  \"c\\\"d\": \"%v\"\n", "s:\n  a: [1, 2]\n  b: [3]\n", "s:\n  %k: no\n", "s: {a: {b: {c: d}}, e: {b: {c: f}}}\n", "s:\n  a: &x v # lv\n  b: w\n",
		"s:\n  a%v: x\n  a%vx: y\n", "s:\n  # ha\n  a: 1 # la\n  # fa\n\n  # hb\n  b: 2 # lb\n  # fb\n", "s:\n  # only\n  a: {k: v}\n  # after\n\nt: 1\n", "s: {a: 1}\n", "s:\n  image: repo/img:1.0 # {\"k\": 1}\n  other: repo/o@sha256:1\n",
	}
	for i, t := range trees {
		trees[i] = strings.Replace("c: first\n"+t, ": %k", ": '%k'", 1)
		if _, err := parseStream(trees[i]); err != nil {
			trees[i] = "c: first\ns: {a: 1}\n"
		}
	}

	keys := []string{"%k", "p-%k", "%k-s", "p/%k/%k", "%k%v", "%k{s/a/A/}", "%k{s/.*/x&/}", "%l-%k", "%v", "%k{}", "80%k", "%f", "%h", "%l", "%h{s/h/&&/}", "z%f-", "%f%h"}
	leaf := []string{"'%v'", "'%k=%v'", "'[%v] # %l' # was %v (%k)", "!!int '%v'", "{x: '%v'}", "{x: '%k%v', n: 'n%v%k'}", "{b: {c: '%k.%v%l'}}", "['%v', '%k']", "7", "{'%k-i': '%v!'}", "{'%k': {'%k': '%k %v'}}", "'%v{s|/[^:@]*|/new|}'", "'%v{s/:.*//}' # %v{s/.*://} was the tag"}

	for _, k := range keys {
		for _, l := range leaf {
			vals := []string{"\n'" + k + "': " + l}
			for _, k2 := range keys {
				if x.Thorough || l == "'%k=%v'" {
					vals = append(vals, "\n'"+k+"': "+l+"\n'"+k2+"': '%v%v'", "\na: 'A%v'\n# hc %k %h\n'"+k2+"': "+l+"\n# fc %k")
				}
			}

			for vi, v := range vals {
				x.Do(func() *Item {
					return markerItem(fmt.Sprintf("k|%s|%s|%d", k, l, vi), "marked keys", trees, []markerOv{{"s", "merge", v}})
				})
			}
		}
	}

	// originals which are aliases, keys which are aliases or collections
	for _, t := range []string{
		"c: &c first\ns: {a: *c, b: x}\n", "c: &c first\ns:\n  *c : 1\n  b: *c # lb\n", "c: &c [1]\ns:\n  *c : x\n  b: *c # lb\n", "c: &c {k: v}\ne: &d 5 # ld\ns:\n  ? *c\n  : x\n  a: *d\n  b: *d # lb\n", "c: 1\ns:\n  ? [a, b]\n  : x\n  ? {k: v}\n  : &y y\n  '': *y\n  z: 1\n", "c: &c first\n&k w: x\ns:\n  b: *k\n  *k : *c\n",
	} {
		for _, k := range append([]string{"a", "b", "first", "c", "k", "y", "''"}, keys...) {
			for _, l := range append([]string{"'<%v>' # is %v (%k)"}, leaf...) {
				for _, act := range []string{"merge", "replace", "combine"} {
					x.Do(func() *Item {
						if act == "merge" {
							return markerItem(fmt.Sprintf("al|%s|%s|%s", t, k, l), "aliases", []string{t}, []markerOv{{"s", "merge", "\n" + dq(strings.Trim(k, "'")) + ": " + l}})
						}

						if k != "a" && k != "b" || !strings.Contains(l, "#") {
							return nil
						}

						return markerItem(fmt.Sprintf("al%s|%s|%s|%s", act, t, k, l), "aliases", []string{t}, []markerOv{{"s." + k, act, "W #" + strings.ReplaceAll(l[strings.Index(l, "#")+1:], "%k", "")}})
					})
				}
			}
		}
	}

	// a value applied at several places, and again and again
	for _, t := range []string{"'%v.'", "'%k%v' # %l.", "'<%v>' # <%v %l>"} {
		for _, q := range []string{"$.s.*", "$.s[*]", "$..x", "s.a", "$.*"} {
			for n := 1; n <= 3; n++ {
				var os []markerOv
				for i := 0; i < n; i++ {
					os = append(os, markerOv{q, "merge", t})
				}

				if strings.Contains(t, "%k") {
					for i := range os {
						os[i] = markerOv{"s", "merge", "\n'%k': " + t}
					}
				}

				x.Do(func() *Item {
					return markerItem(fmt.Sprintf("n|%s|%s|%d", t, q, n), "repeated", trees[:2], os)
				})
			}
		}
	}

	// one command after several markers, several commands after one
	cmds := []string{"", "{}", "{s/[a-z]/X/}", "{s/a/&&/g}", "{s/^/>/}", "{s/[a]//}", "{p}", "{s/$/}/}", "{y/alh/lha/;s/l/L/}", "{s/\\(.\\)a/\\1\\1/}", "{s,/,|,g}", "{s/}/{/}"}

	var some []string

	for i, d := range docs {
		if i%3 == 1 || x.Thorough {
			some = append(some, d)
		}
	}

	for _, m1 := range []string{"%v", "%k", "%l", "%h", "%f"} {
		for _, m2 := range []string{"%v", "%k", "%l", "%h", "%f"} {
			for i, c1 := range cmds {
				for j, c2 := range cmds {
					if i != j && m1 > m2 && !x.Thorough {
						continue
					}

					x.Do(func() *Item {
						t := m1 + c1 + "|" + m2 + c2

						return markerItem("sed|"+t, "sed commands", some, markerOvs(t))
					})
				}
			}

			x.Do(func() *Item {
				t := m1 + cmds[2] + m2 + cmds[2] + m1 + cmds[3] + m2 + m1 + cmds[2]

				return markerItem("sed|"+t, "sed commands", docs, markerOvs(t))
			})
		}
	}

	// long templates and long originals
	for _, n := range []int{9, 33, 130, 1030} {
		for _, m := range []string{"%v", "%k", "%l ", "%v{s/a/b/g}", "%k%v", "a%"} {
			x.Do(func() *Item {
				return markerItem(fmt.Sprintf("long|%d|%s", n, m), "long", docs[:12], markerOvs(strings.Repeat(m, n)))
			})
			x.Do(func() *Item {
				var ds []string
				for _, c := range markerComments[:2] {
					ds = append(ds, markerDoc("'"+strings.Repeat("ab%v ", n*8)+"'", c), markerDoc(strings.Repeat("a", n*64), c+strings.Repeat("c", len(c)*n)))
				}

				return markerItem(fmt.Sprintf("longval|%d|%s", n, m), "long", ds, markerOvs(m+"-"+m))
			})
		}
	}

	// comments of unusual shapes
	var odd []string

	for _, c := range []string{"#", "##", "###x", "## two", "# # sp", "#!x", "#\ttab", "#  two  blanks", "# 'q' \"d\"", "#%", "#%l", "#a#b", "#: c", "#é", "#{}", "#\\"} {
		odd = append(odd, "c: first\nm:\n  k: a "+c+"\n  z: 1\nl:\n- x\n"+c+"h\n- b "+c+"\n"+c+"f\n\n- y\nq: d "+c+"\nr:\n  i: 1\n  "+c+"r\n  a: e "+c+"\n  "+c+"s\n\n  b-c: f\ne:\n  o: 1\nkk:\n  old: 1\nqc: g "+c+"\ni: 4 "+c+"\n")
	}

	var odd3 []string

	for set := 0; set < 8; set++ {
		at := func(i int, t string) string {
			if set>>i&1 == 0 {
				return ""
			}

			return t
		}

		odd3 = append(odd3, "c: first\nm:\n"+at(0, "  # hm\n")+"  k: a"+at(1, " # lm")+"\n"+at(2, "  # fm\n")+"\n  z: 1\nl:\n- x\n"+at(0, "# hl\n")+"- b"+at(1, " # ll")+"\n"+at(2, "# fl\n")+"\n- y\n"+at(0, "# hq\n")+"q: d"+at(1, " # lq")+"\n"+at(2, "# fq\n")+"\nr:\n  a: e\nqc: g"+at(1, " # lc")+"\n")
	}

	for _, m := range []string{"%v", "%k", "%l", "%h", "%f"} {
		for _, c := range append(cmds[:len(cmds):len(cmds)], "{s/^#*//}", "{s/ //g}") {
			for _, t := range []string{m + c, "a" + m + c + "b", "# " + m + c, m + c + "%l"} {
				x.Do(func() *Item {
					return markerItem("odd|"+t, "unusual comments", odd, markerOvs(t))
				})
			}
		}
	}

	// comments at several positions of one value
	parts := []string{"", "new", "%h.", "x%l%v", "%f", "%k%h{s/h/H/}"}

	seqs(len(parts), 3, func(ix []int) {
		if len(ix) != 3 {
			return
		}

		hc, lc, fc := parts[ix[0]], parts[ix[1]], parts[ix[2]]
		around := func(v string) string {
			t := v
			if lc != "" {
				t += " # " + lc
			}

			if hc != "" {
				t = "# " + hc + "\n" + t
			}

			if fc != "" {
				t += "\n# " + fc + "\n"
			}

			return t + "\n"
		}

		for k := 0; k < 6; k++ {
			x.Do(func() *Item {
				bare := strings.ReplaceAll(around("c"), "%k", "k")

				os := [][]markerOv{
					{{"m", "merge", "\n" + around("k: a") + "\nnew: 1"}},
					{{"m", "merge", "\n" + around("'%k': '%v!'")}, {"m", "merge", "\n" + around("k: '%v'")}},
					{{"l", "replace", "\n" + around("- c") + "\n- d"}},
					{{"l[1]", "merge", "\n" + bare}, {"q", "merge", "\n" + bare}},
					{{"l[1]", "replace", "\n" + bare}, {"r.a", "replace", "\n" + bare}, {"m", "replace", "\n" + bare}},
					{{"l[1]", "combine", "\n" + bare}, {"qc", "combine", "\n" + bare}, {"r", "combine", "\n" + around("new: x")}},
				}[k]

				return markerItem(fmt.Sprintf("parts|%v|%d", ix, k), "comments at several positions", odd3, os)
			})
		}
	})

	// a percent sign before any character, in keys and values
	for c := ' '; c < 127; c++ {
		k := "w%" + string(c)

		x.Do(func() *Item {
			var ds []string
			for _, e := range []string{"", k + "x", "w", "_" + string(c), "%", k + "%v"} {
				ds = append(ds, "c: first\ns:\n  "+dq(k)+": a # la\n  b: {"+dq(k)+": 2}\n"+map[bool]string{true: "  " + dq(e) + ": [z]\n"}[e != ""])
			}

			ds = append(ds, "c: first\ns: {b: 1}\n")

			return markerItem("percent|"+k, "percent signs", ds, []markerOv{{"s", "merge", "\n" + dq(k) + ": " + dq(k+"-%v") + " # " + k + "%l\nb:\n  " + dq(k) + ": 3\nnew: " + dq(k)}, {"s.b", "merge", "\n" + dq("%k"+k) + ": " + dq(k+"%v")}})
		})
	}

	// sequences of markers alone
	ms := []string{"%v", "%k", "%l", "%h", "%f", "a"}

	seqs(len(ms), 4, func(ix []int) {
		if len(ix) < 3 {
			return
		}

		t := ""
		for _, i := range ix {
			t += ms[i]
		}

		x.Do(func() *Item {
			return markerItem("m|"+t, "markers", docs, markerOvs(t))
		})
	})
}

func init() {
	register(&Check{ID: "C11", Level: "model_checking", Explore: exploreC11,
		Rule:   "all templates of up to 2 (3) of 26 tokens (the five markers, markers with sed commands, half-markers, literals) and all marker sequences of up to 4, each used at once as value, key, line comment and new entry of merge and as comment of replace and combine, on 100 documents: 20 original values (some of which look like markers, sed replacements or commands) x 5 comments; 17 marked keys x 13 leaf values, alone and in pairs, on 14 maps; marked overlays repeated 1-3 times; pairs of markers with 12 sed commands each; 16 unusual comments; a percent sign before every ASCII character in keys, values and comments; templates and originals of up to 65 000 characters. Data and comments of the output are compared with a reference expansion",
		Assume: []string{"Go-Sed defines what a sed command does to a text", "yaml.v3 defines which node a comment belongs to"}})
}
