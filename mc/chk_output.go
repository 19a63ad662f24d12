//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"gopkg.in/yaml.v3"
)

// outCtx are places a scalar can stand at in a document.
var outCtx = []struct{ name, f string }{
	{"value", "k: @\nz: 1\n"},
	{"last value", "z: 1\nk: @\n"},
	{"root", "@\n"},
	{"item", "- @\n- 1\n- @\n"},
	{"nested", "k:\n  - z: @\n    y: [@, {x: @}]\n  - - @\n    - 1\nl: 1\n"},
	{"key", "@ : 1\nzz: {@ : [1]}\n"},
	{"key of collections", "zz:\n  - @ : {@ : @}\n  - @ : [@]\n"},
}

func inCtx(f, t string) string { return strings.ReplaceAll(f, "@", t) }

// sameDocs compares the documents of a stream with the source documents.
func sameDocs(where, text string, src []string) string {
	d := yaml.NewDecoder(strings.NewReader(text))

	if len(src) > 0 && !strings.HasPrefix(text, "---\n") {
		return where + " does not start with a document separator: " + clip(text, 100)
	}

	for i, s := range src {
		want := mustParse(s)

		var y yaml.Node

		err := d.Decode(&y)
		if err == nil {
			var got *N

			if got, err = fromYAML(&y, 0); err == nil {
				err = noDups(got)
			}

			if err == nil && canon(got) != canon(want) {
				err = fmt.Errorf("data is %s, expected %s", clip(canon(got), 400), clip(canon(want), 400))
			}
		}

		if err != nil {
			part := strings.Split(text, "\n---\n")
			if len(part) == len(src) {
				return fmt.Sprintf("%s: document %d of %q: %v; written as %q", where, i, clip(s, 300), err, clip(part[i], 400))
			}

			return fmt.Sprintf("%s: document %d of %q: %v", where, i, clip(s, 300), err)
		}
	}

	var y yaml.Node
	if err := d.Decode(&y); !errors.Is(err, io.EOF) {
		return fmt.Sprintf("%s: more than %d documents (%v)", where, len(src), err)
	}

	return ""
}

// styleUsed checks that the requested style shows in the output: every string
// that the style can hold without loss is written in it.
func styleUsed(style string, text string) string {
	d := yaml.NewDecoder(strings.NewReader(text))

	for {
		var y yaml.Node
		if d.Decode(&y) != nil {
			return ""
		}

		msg := ""

		var walk func(n *yaml.Node, key bool)

		walk = func(n *yaml.Node, key bool) {
			for i, c := range n.Content {
				walk(c, n.Kind == yaml.MappingNode && i%2 == 0)
			}

			simple := n.Kind == yaml.ScalarNode && n.ShortTag() == "!!str" && len(n.Value) > 0 && strings.Trim(n.Value, "abcdefghijklmnopqrstuvwxyz") == ""
			coll := (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && len(n.Content) > 0

			text := n.Kind == yaml.ScalarNode && n.ShortTag() == "!!str"
			bad := false

			switch style {
			case "doubleQuoted":
				bad = text && n.Style&yaml.DoubleQuotedStyle == 0
			case "singleQuoted":
				bad = text && strings.Trim(n.Value, plainText) == "" && n.Style&yaml.SingleQuotedStyle == 0
			case "literal":
				bad = simple && !key && n.Style&yaml.LiteralStyle == 0
			case "folded":
				bad = simple && !key && n.Style&yaml.FoldedStyle == 0
			case "tagged":
				bad = n.Kind != yaml.AliasNode && n.Kind != yaml.DocumentNode && n.Style&yaml.TaggedStyle == 0
			case "flow":
				bad = coll && n.Style&yaml.FlowStyle == 0
			case "normal":
				bad = coll && n.Style&yaml.FlowStyle != 0 || simple && n.Style != 0 && (&yaml.Node{Kind: yaml.ScalarNode, Value: n.Value}).ShortTag() == "!!str"
			}

			if bad && msg == "" {
				msg = fmt.Sprintf("%q (line %d) is not in style %s: style %d", n.Value, n.Line, style, n.Style)
			}
		}

		walk(&y, false)

		if msg != "" {
			return msg
		}
	}
}

// plainText has the characters that every quoting style can hold.
const plainText = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;-_+*/%&()[]{}<>?!|@#'=~"

var styleNames = []string{"normal", "tagged", "doubleQuoted", "singleQuoted", "literal", "folded", "flow"}

// styleItem runs documents through the tool with output options.
func styleItem(key, class string, docs []string, opts []string, check ...string) *Item {
	c := &Case{Files: map[string]string{"w/a.yaml": strings.Join(append([]string{""}, docs...), "---\n"), "w/i.yaml": "yamlFiles:\n- path: a.yaml\n"}, Args: append([]string{"-i", "i.yaml", "-s"}, opts...)}

	return &Item{Key: key, Class: class, Case: c, Trace: len(docs), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		if m := sameDocs("stdout", r.Stdout, docs); m != "" {
			return m
		}

		for _, s := range check {
			if m := styleUsed(s, r.Stdout); m != "" {
				return m
			}
		}

		return ""
	}}
}

// styleCombos are single styles, pairs of them, and some larger sets.
func styleCombos() [][]string {
	var combos [][]string
	for i, s := range styleNames {
		combos = append(combos, []string{s})

		for _, t := range styleNames[i+1:] {
			combos = append(combos, []string{s, t})
		}
	}

	combos = append(combos, []string{"tagged", "doubleQuoted", "flow"}, []string{"flow", "literal", "tagged"}, []string{"folded", "flow", "singleQuoted"}, styleNames)

	return combos
}

func exploreC14(x *X) {
	alpha := []string{"a", " ", "\n", "\t", "#", ":", "-", "'", "\"", "\\", "é", "%", "\r", "~", "0", ",", "]", "\u0085", "\u2028", "\ufeff", "😀", "\x07", "?", "|", ">", "&", "!", "@", "{", "."}
	strs := shortStrings(alpha, 2)
	extra := []string{"a\n b\nc", "a\n\n b", "a \nb", "a\n  \nb", "\n\n\na", " a\nb", "a\nb ", " \n a", "long " + strings.Repeat("word ", 40), "x\n" + strings.Repeat("word ", 40), strings.Repeat("w", 200), "a\n" + strings.Repeat("w ", 100) + "\n  b", "a\nb", "a\nb\n", "a\nb\n\n", "a\n\nb", "a\n\n\nb\n", "a\n\tb", "a\n# b", "a\n- b\n", "a: b\nc: d\n", "---\na", "a\n---\nb", "a\n...\nb", "...\n", "\ta\nb", "a\n\n", "<<", "=", "null", "true", "1e3", "0x1f", "2001-01-01", "1_000", "yes"}

	if x.Thorough {
		strs = shortStrings(alpha, 3)
	}

	strs = append(strs, extra...)

	combos := styleCombos()

	inds := []int{2, 4, 9}
	if x.Thorough {
		inds = []int{2, 3, 4, 9}
	}

	// 1. every short string at every place in every style
	size := 400

	treeStyles(x)

	for lo := 0; lo < len(strs); lo += size {
		hi := lo + size
		if hi > len(strs) {
			hi = len(strs)
		}

		for _, ctx := range outCtx {
			for ci, st := range combos {
				for _, ind := range inds {
					if lo >= 1200 && hi != len(strs) && (ci >= len(styleNames)*4 || ind == 3 || (len(st) > 1 && ind != 2)) {
						continue // the longest strings with all single styles and, at one indent, the pairs
					}

					x.Do(func() *Item {
						var docs []string

						for _, s := range strs[lo:hi] {
							if len(s) > 128 && strings.HasPrefix(ctx.name, "key") {
								continue
							}

							docs = append(docs, inCtx(ctx.f, dq(s)))
						}

						return styleItem(fmt.Sprintf("str|%d|%s|%v|%d", lo, ctx.name, st, ind), "short strings", docs, []string{"-S", strings.Join(st, ","), "-I", fmt.Sprint(ind)})
					})
				}
			}
		}
	}

	// 2. data that is easily damaged
	for ti, t := range tricky {
		for _, ctx := range outCtx {
			doc := inCtx(ctx.f, t)
			if ds, err := parseStream(doc); err != nil || len(ds) != 1 {
				continue // e.g. a block scalar as key
			}

			x.Do(func() *Item {
				c := &Case{Files: map[string]string{"w/a.yaml": doc, "w/i.yaml": "yamlFiles:\n- path: a.yaml\n"}}

				var all []func(r *Result) string

				for _, st := range combos {
					for _, ind := range []int{2, 5} {
						s := &Case{Args: []string{"-i", "i.yaml", "-s", "-I", fmt.Sprint(ind)}}
						for _, n := range st {
							s.Args = append(s.Args, "-S", n)
						}

						c.Steps = append(c.Steps, s)

						all = append(all, func(r *Result) string {
							if r.Exit != 0 {
								return fmt.Sprintf("%v: exit status %d: %s", s.Args, r.Exit, clip(r.Stderr, 300))
							}

							if m := sameDocs("stdout", r.Stdout, []string{doc}); m != "" {
								return fmt.Sprintf("%v: %s", s.Args, m)
							}

							return ""
						})
					}
				}

				c.Args = []string{"-i", "i.yaml", "-s"}

				return &Item{Key: fmt.Sprintf("tricky|%d|%s", ti, ctx.name), Class: "tricky data", Case: c, Trace: len(all), Verify: func(r *Result) string {
					if m := sameDocs("stdout", r.Stdout, []string{doc}); m != "" {
						return m
					}

					for i, q := range r.Next {
						if m := all[i](q); m != "" {
							return m
						}
					}

					return ""
				}}
			})
		}
	}

	// 3. the style asked for is the style used, by every documented name
	names := map[string][]string{
		"normal": {"normal", "n", "NORMAL", "Normal"}, "tagged": {"tagged", "tag", "t", "TAGGED"}, "doubleQuoted": {"doubleQuoted", "doubleQuote", "double", "dq", "DOUBLEQUOTED"}, "singleQuoted": {"singleQuoted", "singleQuote", "single", "sq", "SINGLEQUOTED"},
		"literal": {"literal", "l", "LITERAL"}, "folded": {"folded", "fold", "fo", "FOLDED"}, "flow": {"flow", "fl", "FLOW"},
	}
	shapes := []string{"a: b\nc: {d: e, f: [g, {h: i}]}\nj: [k, [l]]\nm: {}\n", "- 'a'\n- \"b\"\n- |\n  c\n- {d: [e]}\n", "text\n", "a: 5\nb: [true, null, 1.5, 2001-01-01]\nc: {d: !x e, f: !!binary aGVsbG8=}\n",
		"{}\n", "[]\n", "a: {}\nb: []\nc: [[], {}, [{}]]\nd: ''\ne: {f: {}}\n", "a:\nb: ~\nc: [null, ~, '']\n", "- 5\n- '5'\n- \"it's: {x}\"\n- 'true'\n- ' lead'\n- 'trail '\n- '# no'\n- 'null'\n- Two Words\n- a_b-c.d/e\n- '@x'\n- '%y'\n", "a: &x [b, c]\nd: *x\ne: &y {f: g}\nh: {<<: *y, i: 1}\n", "'5': a\n5: b\ntrue: c\n'a b': d\n'': e\n"}

	for _, st := range styleNames {
		for _, nm := range names[st] {
			for i := range shapes {
				x.Do(func() *Item {
					return styleItem(fmt.Sprintf("style|%s|%s|%d", st, nm, i), "requested style", shapes[i:i+1], []string{"-S", nm}, st)
				})
			}

			for _, nm2 := range names[st] {
				x.Do(func() *Item {
					return styleItem(fmt.Sprintf("style2|%s|%s,%s", st, nm, nm2), "requested style", shapes, []string{"-S", nm + "," + nm2}, st)
				})
			}

			for _, nm2 := range []string{nm, "flow", "tag"} {
				if st == "normal" && nm2 != nm || st == "tagged" && nm2 == "tag" {
					continue
				}

				x.Do(func() *Item {
					want := []string{st}
					if nm2 == "flow" {
						want = []string{"flow"}
						if st == "doubleQuoted" || st == "singleQuoted" || st == "tagged" {
							want = append(want, st)
						}
					}

					if nm2 == "tag" {
						want = append(want, "tagged")
					}

					return styleItem(fmt.Sprintf("styles|%s|%s|%s", st, nm, nm2), "requested style", shapes, []string{"-S", nm, "-S", nm2}, want...)
				})
			}
		}
	}

	// every list of styles that do not exclude each other, in every order and way
	lists := []string{"tagged", "doubleQuoted", "flow", "t", "dq", "fl"}

	for _, quote := range []string{"doubleQuoted", "singleQuoted"} {
		seqs(3, 5, func(ix []int) {
			var l []string

			set := map[string]bool{}

			for n, i := range ix {
				nm := lists[i]
				if i == 1 {
					nm = quote
				}

				set[nm] = true

				if n%2 == 1 {
					nm = names[nm][len(names[nm])-2]
				}

				l = append(l, nm)
			}

			if len(l) < 2 {
				return
			}

			for way := 0; way < 3; way++ {
				x.Do(func() *Item {
					o := []string{"-S", strings.Join(l, ",")}

					switch way {
					case 1:
						o = nil
						for _, s := range l {
							o = append(o, "--output-style", s)
						}
					case 2:
						o = []string{"-S", l[0], "-S", strings.Join(l[1:], ",")}
					}

					return styleItem(fmt.Sprintf("list|%v|%d", l, way), "lists of styles", shapes, o, sortedKeys(set)...)
				})
			}
		})
	}

	// every set of styles
	for set := 1; set < 1<<len(styleNames); set++ {
		var st []string

		for i, n := range styleNames {
			if set>>i&1 == 1 {
				st = append(st, n)
			}
		}

		for _, ind := range inds {
			for ti, t := range tricky {
				if !x.Thorough && (ti+set)%8 != 0 {
					continue
				}

				x.Do(func() *Item {
					var docs []string

					for _, ctx := range outCtx {
						doc := inCtx(ctx.f, t)
						if ds, err := parseStream(doc); err == nil && len(ds) == 1 {
							docs = append(docs, doc)
						}
					}

					return styleItem(fmt.Sprintf("set|%v|%d|%d", st, ind, ti), "sets of styles", docs, []string{"-S", strings.Join(st, ","), "-I", fmt.Sprint(ind)})
				})
			}
		}
	}

	// 4. the indent asked for is the indent used
	for ind := 2; ind <= 9; ind++ {
		for _, st := range []string{"", "normal", "tagged", "doubleQuoted", "singleQuoted"} {
			x.Do(func() *Item {
				doc := "a: {b: {c: {d: x}}}\nl:\n- m:\n  - n: {o: p}\n"
				o := []string{"-I", fmt.Sprint(ind)}

				if st != "" {
					o = append(o, "-S", st)
				}

				it := styleItem(fmt.Sprintf("indent|%d|%s", ind, st), "requested indent", []string{doc, doc}, o)
				v := it.Verify
				it.Verify = func(r *Result) string {
					if m := v(r); m != "" {
						return m
					}

					got := map[string]int{}

					for _, l := range strings.Split(r.Stdout, "\n") {
						t := strings.TrimLeft(l, " ")
						for _, k := range []string{"b", "c", "d"} {
							if f := strings.Fields(strings.NewReplacer("!!str", "", "!!map", "", "\"", "", "'", "").Replace(t)); len(f) > 0 && f[0] == k+":" {
								got[k] = len(l) - len(t)
							}
						}
					}

					if got["b"] != ind || got["c"] != 2*ind || got["d"] != 3*ind {
						return fmt.Sprintf("indented by %v, requested %d: %q", got, ind, clip(r.Stdout, 300))
					}

					return ""
				}

				return it
			})
		}
	}

	// 5. stdout is what would be written to the files, in listed order
	files := []string{"a: 1\n", "---\nb: [x, {y: z}]\n---\nc: |\n  text\n---\nd\n", "# head\ne: 2 # line\n# foot\n", "f: \"tab\\t\"\n...\n---\ng: 1\n", "", "# only\n", "---\n---\n", "h: {i: &a [1], j: *a}\n", "- k\n"}
	optSets := [][]string{nil, {"-S", "flow"}, {"-S", "dq", "-I", "4"}, {"-S", "literal"}, {"-S", "tag"}, {"--remove-comments"}, {"-I", "9", "-S", "fold"}}
	orders := [][]int{}

	for i := range files {
		orders = append(orders, []int{i})

		for j := range files {
			if i != j {
				orders = append(orders, []int{i, j})
			}

			for k := range files {
				if i != j && j != k && i != k && (x.Thorough || (i+2*j+3*k)%5 == 0) {
					orders = append(orders, []int{i, j, k})
				}
			}
		}
	}

	ovSets := [][]Ov{nil, {mergeOv("$", "{new: 1}")}, {deleteOv("b"), deleteOv("a")}, {{Q: []string{"$"}, Act: "delete", HasIx: true, Idx: []int{0}}}, {{Q: []string{"$"}, Act: "delete", HasIx: true, Idx: []int{1, 2}}}}

	for oi, or := range orders {
		for si, set := range optSets {
			for vi, os := range ovSets {
				if !x.Thorough && len(or) == 3 && (oi+si+vi)%7 != 0 {
					continue
				}

				x.Do(func() *Item {
					sp := &Spec{Files: map[string]string{}, Ins: &Ins{Common: os}, Std: true}
					for p, i := range or {
						n := fmt.Sprintf("%c%d.yaml", 'z'-byte(p), i)
						sp.Files["w/"+n] = files[i]
						sp.Ins.Ents = append(sp.Ins.Ents, Ent{Path: n})
					}

					ex, err := sp.predict()
					if err != nil {
						return nil
					}

					c := sp.toCase()
					c.Args = append(c.Args, set...)
					c.Steps = []*Case{{Args: append(append([]string{}, "-i", "i.yaml", "-o", "out"), set...)}}

					return &Item{Key: fmt.Sprintf("dest|%v|%v|%v", or, set, ovKey(os)), Class: "stdout and files", Case: c, Trace: 2, Verify: func(r *Result) string {
						if m := ex.verify(c, r); m != "" {
							return m
						}

						f := r.Next[0]
						if f.Exit != 0 {
							return fmt.Sprintf("writing files: exit status %d: %s", f.Exit, clip(f.Stderr, 300))
						}

						cat := ""

						for _, l := range strings.Split(strings.TrimSuffix(f.Stdout, "\n"), "\n") {
							cat += f.Files["w/"+strings.TrimPrefix(l, "./")]
						}

						if cat != r.Stdout {
							return fmt.Sprintf("stdout is %q, the files contain %q", clip(r.Stdout, 500), clip(cat, 500))
						}

						return ""
					}}
				})
			}
		}
	}

	// 6. comments in every style
	var cdocs []string

	for _, d := range commentDocs() {
		if ds, err := parseStream(d); err == nil && len(ds) == 1 {
			cdocs = append(cdocs, d)
		}
	}

	x.Count("commented_documents", len(cdocs))

	for di, d := range cdocs {
		for _, st := range combos {
			for _, ind := range []int{2, 4} {
				x.Do(func() *Item {
					return styleItem(fmt.Sprintf("comments|%d|%v|%d", di, st, ind), "comments", []string{d, "z: 1\n", d}, []string{"-S", strings.Join(st, ","), "-I", fmt.Sprint(ind)})
				})
			}
		}
	}
}

// commentDocs are documents with every subset of comments at the positions of
// a few shapes.
func commentDocs() []string {
	var out []string

	for _, s := range []string{
		"@a: 1$\n@b:$\n  @c: x$\n  @d: [1]$\n@e: y$\n@",
		"@l:$\n  @- 1$\n  @- k: 2$\n    @m: 3$\n@n: {}$\n@",
		"@- a$\n@- b: 1$\n  @c: 2$\n@- - d$\n",
		"@a: |$\n  x\n@b: 'q'$\n",
		"@a: &x$\n  @b: 1$\n@c: !t$\n  @- *x$\n@d: !!map$\n  @e: !u {f: 1}$\n",
		"@- &x$\n  - 1$\n@- !t$\n  @g: &y$\n    @h: 1$\n@- *y$\n",
		"@- &x$\n  - s$\n@- &y$\n  - |$\n    t\n    u\n@- &z$\n  - \"v\\nw\"$\n",
		"@k: &x$\n  s: \"v\\nw\"$\n@l: !t$\n  s: []$\n@m: &z$\n  s: *x$\n@n:$\n  s: {}$\n@o:$\n  p: 1\n",
		"@? [a, b]$\n@: c$\n@? d$\n@: - e$\n",
		"@a: [b,$\n  c$,$\n  @{d: e$\n  }]$\n",
	} {
		// a comment at one or two of the positions
		var pos []int

		for i := range s {
			if s[i] == '@' || s[i] == '$' {
				pos = append(pos, i)
			}
		}

		render := func(at map[int]bool) string {
			var b strings.Builder

			ls := 0

			for i := range s {
				switch s[i] {
				case '@':
					if at[i] {
						ind := strings.Repeat(" ", i-ls)
						b.WriteString("# at " + fmt.Sprint(i) + "\n" + ind)
					}
				case '$':
					if at[i] {
						b.WriteString(" # line " + fmt.Sprint(i))
					}
				default:
					b.WriteByte(s[i])

					if s[i] == '\n' {
						ls = i + 1
					}
				}
			}

			t := b.String()
			if !strings.HasSuffix(t, "\n") {
				t += "\n"
			}

			return t
		}

		for i, p := range pos {
			out = append(out, render(map[int]bool{p: true}))
			for _, q := range pos[i+1:] {
				out = append(out, render(map[int]bool{p: true, q: true}))
			}
		}

		all := map[int]bool{}
		for _, p := range pos {
			all[p] = true
		}

		out = append(out, render(all))
	}

	return out
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking", Explore: exploreC14,
		Rule:   "every string of up to 2 (thorough 3) characters over 30 that matter to YAML, and ~40 longer ones, at 7 kinds of places in every style and pair of styles at indents 2, 4, 9; ~150 nodes that are easily damaged likewise; every documented style name and pair, every indent 2-9; sequences of up to 3 of 9 files x 7 option sets x 5 overlay lists written to stdout and to files; documents with comments at every one or two of the positions of 4 shapes in every style; lists of up to 5 styles in every order; all 127 sets; all small trees in every style",
		Assume: []string{"yaml.v3 reads YAML correctly"}})
}
