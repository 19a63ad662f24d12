//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// cdoc is a document with the comments around it.
type cdoc struct {
	root   *N
	hc, fc string
}

// parseComments parses a stream keeping all comments.
func parseComments(s string) (ds []cdoc, ys []*yaml.Node, err error) {
	// some comments make yaml.v3 panic
	defer func() {
		if r := recover(); r != nil {
			ds, ys, err = nil, nil, fmt.Errorf("panic: %v", r)
		}
	}()

	d := yaml.NewDecoder(strings.NewReader(s))

	for {
		y := &yaml.Node{}

		err := d.Decode(y)
		if errors.Is(err, io.EOF) {
			return ds, ys, nil
		}

		if err != nil {
			return nil, nil, err
		}

		if _, err := fromYAML(y, 0); err != nil {
			return nil, nil, err
		}

		n := withAliases(y.Content[0])
		if err := noDups(n); err != nil {
			return nil, nil, err
		}

		ds, ys = append(ds, cdoc{n, y.HeadComment, y.FootComment}), append(ys, y)
	}
}

// withAliases is the tree as written, aliases being leaves.
func withAliases(y *yaml.Node) *N {
	n := &N{K: Sca, Tag: "!!alias", V: y.Value, HC: y.HeadComment, LC: y.LineComment, FC: y.FootComment}

	switch y.Kind {
	case yaml.MappingNode:
		n.K, n.Tag = Map, y.ShortTag()
	case yaml.SequenceNode:
		n.K, n.Tag = Seq, y.ShortTag()
	case yaml.ScalarNode:
		n.Tag = y.ShortTag()
	}

	for _, c := range y.Content {
		n.C = append(n.C, withAliases(c))
	}

	return n
}

// parseSplit parses an output of the tool document by document, for comments
// not to be seen as those of the document before.
func parseSplit(s string) ([]cdoc, error) {
	var out []cdoc

	if _, err := parseStream(s); err != nil {
		return nil, err
	}

	parts := strings.Split("\n"+s, "\n---\n")

	for i, t := range parts {
		if i+1 < len(parts) {
			t += "\n"
		}

		if i == 0 {
			if t != "\n" {
				return nil, fmt.Errorf("%q before the first document", t)
			}

			continue
		}

		ds, _, err := parseComments("---\n" + t)
		if err != nil || len(ds) != 1 {
			return nil, fmt.Errorf("%d documents in %q: %v", len(ds), t, err)
		}

		out = append(out, ds[0])
	}

	return out, nil
}

func joinComments(a, b string) string {
	var l []string

	for _, s := range strings.Split(a+"\n"+b, "\n") {
		if s = strings.TrimSpace(s); s != "" {
			l = append(l, s)
		}
	}

	return strings.Join(l, "\n")
}

// layout lists keys, scalars and empty collections in the order of the text,
// with the comments between them and the comments at the end of their lines.
type layout struct {
	b   strings.Builder
	gap string
}

func (l *layout) leaf(n *N, lc string) {
	if l.gap != "" {
		fmt.Fprintf(&l.b, "<%q>", l.gap)
	}

	l.gap = ""
	l.b.WriteString(canon(n) + " ")

	if lc != "" {
		fmt.Fprintf(&l.b, "<%q> ", lc)
	}
}

func (l *layout) above(s ...string) {
	for _, c := range s {
		l.gap = joinComments(l.gap, c)
	}
}

func (l *layout) node(n *N) {
	if len(n.C) == 0 {
		l.above(n.HC)
		l.leaf(n, n.LC)
		l.above(n.FC)

		return
	}

	l.above(n.HC, n.LC)
	l.b.WriteString(string("{["[n.K-Map]))

	for i, v := range n.C {
		switch {
		case n.K == Seq:
			l.node(v)
		case i%2 == 0 && len(v.C) > 0:
			l.node(v)
		case i%2 == 1 && len(n.C[i-1].C) > 0:
			l.node(v)
		case i%2 == 1 && len(v.C) > 0:
			k := n.C[i-1]
			w := *v
			w.LC = ""

			lc := joinComments(k.LC, v.LC)
			if k.LC != "" && v.LC != "" {
				lc = v.LC

				l.above(k.HC, k.LC)
			} else {
				l.above(k.HC)
			}

			l.leaf(&N{K: k.K, Tag: k.Tag, V: k.V}, lc)
			l.node(&w)
			l.above(k.FC)
		case i%2 == 1:
			k := n.C[i-1]

			l.above(k.HC, v.HC)

			lc := joinComments(k.LC, v.LC)
			if k.LC != "" && v.LC != "" {
				// there is room for one only
				l.above(k.LC)

				lc = v.LC
			}

			l.leaf(&N{K: Map, C: []*N{k, v}}, lc)
			l.above(v.FC, k.FC)
		}
	}

	l.b.WriteString(string("}]"[n.K-Map]) + " ")
	l.above(n.FC)
}

func (d cdoc) canon() string {
	var l layout

	l.above(d.hc)
	l.node(d.root)
	l.above(d.fc)
	l.leaf(str("end"), "")

	return l.b.String()
}

// commentLines lists the lines of all comments.
func (d cdoc) lines() []string {
	all := d.hc + "\n" + d.fc
	preorderAll(d.root, func(n *N) { all += "\n" + n.HC + "\n" + n.LC + "\n" + n.FC })

	var out []string

	for _, l := range strings.Split(all, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}

	return out
}

// keepsComments says whether text has the documents with their comments;
// where yaml.v3 itself cannot keep a comment where it is, it still has to be
// somewhere in the document.
func keepsComments(where, text string, src string) (string, int) {
	want, ys, err := parseComments(src)
	if err != nil {
		panic(err)
	}

	got, err := parseSplit(text)
	if err != nil {
		return fmt.Sprintf("%s is not valid YAML (%v): %q", where, err, clip(text, 800)), 0
	}

	if len(got) != len(want) {
		return fmt.Sprintf("%s has %d documents, expected %d: %q", where, len(got), len(want), clip(text, 800)), 0
	}

	weak := 0

	for i := range want {
		if got[i].canon() == want[i].canon() {
			continue
		}

		// a blank line or another style can make yaml.v3 see the same lines differently
		if ref, _, err := parseComments(written(blockStyle(ys[i]))); err == nil && len(ref) == 1 &&
			ref[0].canon() == got[i].canon() && sameLines(ref[0], want[i]) {
			continue
		}

		ref, _, err := parseComments(written(ys[i]))
		if err != nil || len(ref) != 1 || ref[0].canon() != want[i].canon() {
			weak++

			have := strings.Join(got[i].lines(), "\n") + "\n"
			lib := ""

			if len(ref) == 1 {
				lib = strings.Join(ref[0].lines(), "\n") + "\n"
			}

			for _, l := range want[i].lines() {
				if !strings.Contains(have, l+"\n") && strings.Contains(lib, l+"\n") {
					return fmt.Sprintf("%s, document %d: the comment %q is lost: %q", where, i, l, clip(text, 800)), weak
				}
			}

			continue
		}

		return fmt.Sprintf("%s, document %d: has\n%s expected\n%s", where, i, clip(got[i].canon(), 1500), clip(want[i].canon(), 1500)), weak
	}

	return "", weak
}

func written(y *yaml.Node) string {
	var b strings.Builder

	e := yaml.NewEncoder(&b)
	e.SetIndent(2)
	b.WriteString("---\n")
	e.Encode(y) //nolint

	return b.String()
}

func sameLines(a, b cdoc) bool {
	x, y := a.lines(), b.lines()
	sort.Strings(x)
	sort.Strings(y)

	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

// allThere says whether the text has all the comments wanted and the
// document read from it no others.
func allThere(got, want cdoc, text string) bool {
	w := want.lines()

	for _, l := range w {
		if !strings.Contains(text, l) {
			return false
		}
	}

	all := "\n" + strings.Join(w, "\n") + "\n"

	for _, l := range got.lines() {
		if !strings.Contains(all, "\n"+l+"\n") {
			return false
		}
	}

	return true
}

// blockStyle is the document without flow collections, the comments of such
// collections being where they can be written.
func blockStyle(y *yaml.Node) *yaml.Node {
	n := *y
	n.Content = nil

	if n.Kind != yaml.ScalarNode {
		n.Style = 0
	}

	for i, c := range y.Content {
		c = blockStyle(c)
		n.Content = append(n.Content, c)

		if c.Kind != yaml.MappingNode && c.Kind != yaml.SequenceNode || len(c.Content) == 0 {
			continue
		}

		at := c.Content[0]
		if n.Kind == yaml.MappingNode && i%2 == 1 {
			n.Content[i-1].LineComment = joinComments(n.Content[i-1].LineComment, c.LineComment)
		} else {
			at.HeadComment = joinComments(c.LineComment, at.HeadComment)
		}

		at = c.Content[len(c.Content)-1]
		if c.Kind == yaml.MappingNode {
			at = c.Content[len(c.Content)-2]
		}

		at.FootComment = joinComments(at.FootComment, c.FootComment)
		c.LineComment, c.FootComment = "", ""
	}

	return &n
}

// commentFrames are documents with places for comments: "@" on a line of its
// own is one for comments between lines, "~" one for a comment at the end of a
// line.
var commentFrames = []string{
	"@\na: 1~\n@\nb:~\n  @\n  c: x~\n  @\n  d: y~\n  @\n@\ne: z~\n@\n",
	"@\n- 1~\n@\n- x: 1~\n  @\n  y: 2~\n  @\n@\n- - p~\n  @\n  - q~\n@\n- z~\n@\n",
	"@\na:~\n  @\n  - i~\n  @\n  - j: 1~\n    @\n    k: 2~\n  @\n@\nl: [1, 2]~\n@\nm: {x: 1}~\n@\nn: []~\n@\no: {}~\n@\n",
	"@\na: 'q'~\n@\nb: \"d\"~\n@\nc: |~\n  lit\n  text\n@\nd: >-~\n  fold\n@\ne: !!str 5~\n@\nf: &x v~\n@\ng: *x~\n@\nh:~\n@\ni: ~~\n@\n",
	"@\na: &m~\n  @\n  x: 1~\n@\nb:~\n  @\n  <<: *m~\n  @\n  y: 2~\n@\nc: !t~\n  @\n  z: 3~\n@\n",
	"@\n- [1]~\n@\n- {a: 1}~\n@\n- []~\n@\n- 'q'~\n@\n- |~\n  lit\n@\n-~\n@\n- &x v~\n@\n- *x~\n@\n",
	"@\nscalar~\n@\n", "@\n{a: 1, b: [2]}~\n@\n", "@\n[1, {c: 2}]~\n@\n", "@\n\"q\"~\n@\n", "@\n|~\n  lit\n@\n",
	"@\na: {b: 1,~\n  c: 2,~\n  @\n  d: [3,~\n    4~\n  ]~\n  }~\n@\ne: 5~\n@\n",
	"@\nk1:~\n@\n- 1~\n@\n- a: 1~\n  @\n  b:~\n  @\n  - 2~\n@\nk2: v~\n@\n",
	"@\na: ''~\n@\nb: \"\"~\n@\nc: null~\n@\nd: true~\n@\ne: 1.5~\n@\nf: 2001-01-01~\n@\ng: !x y~\n@\nh: !!null~\n@\ni: &n~\n@\nj: *n~\n@\n",
	"@\n- ''~\n@\n- \"\"~\n@\n- null~\n@\n- false~\n@\n- !!str~\n@\n- 0~\n@\n- !x {}~\n@\n- &e []~\n@\n- *e~\n@\n",
	"@\n''~\n@\n", "@\nnull~\n@\n", "@\n{}~\n@\n", "@\n[]~\n@\n", "@\n'': 1~\n@\nnull: 2~\n@\n'a b': {'': 3}~\n@\n5: 4~\n@\n",
	"@\na:~\n  @\n  b:~\n    @\n    c:~\n      @\n      d:~\n        @\n        - - - {}~\n          @\n          - ''~\n@\n",
	"@\n? a~\n: v~\n@\n? b~\n: [2]~\n@\n? c\n:~\n  @\n  c: 1~\n@\n",
}

// fillings of a place between lines.
var between = []string{"# h", "# f\n\n", "\n# g", "# f\n\n# g", "# h1\n# h2", "#", "#!x", "# f\n\n\n# g\n"}

// fillFrame puts comments at the places of a frame (by index); every comment
// gets a text of its own.
func fillFrame(f string, at map[int]int) string {
	var b strings.Builder

	p := 0

	for _, l := range strings.SplitAfter(f, "\n") {
		body := strings.TrimSuffix(l, "\n")
		if strings.TrimSpace(body) == "@" {
			if k, ok := at[p]; ok {
				for _, c := range strings.Split(between[k], "\n") {
					if c != "" {
						c = strings.Repeat(" ", strings.Index(body, "@")) + c + fmt.Sprintf("-%d", p)
					}

					b.WriteString(c + "\n")
				}
			}

			p++

			continue
		}

		if strings.HasSuffix(body, "~") {
			body = strings.TrimSuffix(body, "~")

			if k, ok := at[p]; ok {
				body += []string{" # l", " #l", "   ## l # ", "\t# l"}[k%4] + fmt.Sprintf("-%d", p)
			}

			p++
		}

		b.WriteString(body + "\n")
	}

	return b.String()
}

// spots lists the places of a frame, true for those between lines.
func spots(f string) []bool {
	var out []bool

	for _, l := range strings.Split(f, "\n") {
		if strings.TrimSpace(l) == "@" {
			out = append(out, true)
		} else if strings.HasSuffix(l, "~") {
			out = append(out, false)
		}
	}

	return out
}

func commentItem(key, class string, docs []string, opts ...string) *Item {
	var keep []string

	for _, d := range docs {
		// alone, and next to others
		if _, _, err := parseComments("a: 1\n---\n" + d); err != nil {
			continue
		}

		if ds, _, err := parseComments(d); err == nil && len(ds) == 1 {
			keep = append(keep, d)
		}
	}

	if len(keep) == 0 {
		return nil
	}

	src := strings.Join(keep, "---\n")
	c := &Case{Files: map[string]string{"w/a.yaml": src, "w/i.yaml": "yamlFiles:\n- path: a.yaml\n"}, Args: append([]string{"-i", "i.yaml", "-s"}, opts...)}

	return &Item{Key: key, Class: class, Case: c, Trace: len(keep), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		m, _ := keepsComments("stdout", r.Stdout, src)

		return m
	}}
}

func exploreC12(x *X) {
	exploreOverlays(x, false)

	for fi, f := range commentFrames {
		pl := spots(f)

		kinds := func(i int) int {
			if pl[i] {
				return len(between)
			}

			return 4
		}

		for i := range pl {
			for k := 0; k < kinds(i); k++ {
				d := fillFrame(f, map[int]int{i: k})
				x.Do(func() *Item {
					return commentItem(fmt.Sprintf("f1|%d|%d|%d", fi, i, k), "one place", []string{d})
				})

				// with a second comment, and in the thorough check a third
				for j := i + 1; j < len(pl); j++ {
					x.Do(func() *Item {
						var docs []string

						for m := 0; m < kinds(j); m++ {
							docs = append(docs, fillFrame(f, map[int]int{i: k, j: m}))
						}

						return commentItem(fmt.Sprintf("f2|%d|%d|%d|%d", fi, i, k, j), "two places", docs)
					})

					if !x.Thorough {
						continue
					}

					for j2 := j + 1; j2 < len(pl); j2++ {
						x.Do(func() *Item {
							var docs []string

							for m := 0; m < kinds(j); m++ {
								for m2 := 0; m2 < kinds(j2); m2++ {
									docs = append(docs, fillFrame(f, map[int]int{i: k, j: m, j2: m2}))
								}
							}

							return commentItem(fmt.Sprintf("f3|%d|%d|%d|%d|%d", fi, i, k, j, j2), "three places", docs)
						})
					}
				}
			}
		}

		// everywhere
		for k := range between {
			for m := 0; m < 4; m++ {
				for skip := 1; skip <= 3; skip++ {
					at := map[int]int{}

					for i := 0; i < len(pl); i += skip {
						if pl[i] {
							at[i] = k
						} else {
							at[i] = m
						}
					}

					x.Do(func() *Item {
						return commentItem(fmt.Sprintf("all|%d|%d|%d|%d", fi, k, m, skip), "everywhere", []string{fillFrame(f, at)})
					})
				}
			}
		}
	}
}

// commentOv is an overlay whose value carries comments.
type commentOv struct {
	q, act, val string // val: lines of an instructions file, at the indentation of "value"
	inject      bool
}

func commentIns(cos []commentOv) string {
	var b strings.Builder

	b.WriteString("yamlFiles:\n- path: a.yaml\n  overlays:\n")

	for _, o := range cos {
		fmt.Fprintf(&b, "  - query: %s\n    action: %s\n", yq(o.q), o.act)

		if o.inject {
			b.WriteString("    onMissing: {action: inject}\n")
		}

		if o.val != "" {
			b.WriteString("    value:" + strings.TrimRight(strings.ReplaceAll("\n"+o.val, "\n", "\n      "), " ") + "\n")
		}
	}

	return strings.Replace(b.String(), "value:\n      = ", "value: ", -1)
}

// applyComments applies the overlays of an instructions text to a document,
// comments included.
func applyComments(d *cdoc, ins *N, cos []commentOv) error {
	for i, o := range ins.get("yamlFiles").C[0].get("overlays").C {
		v := o.get("value")
		rs := find(d.root, cos[i].q)

		if len(rs) == 0 {
			if !cos[i].inject {
				continue
			}

			if err := inject(d.root, pathOf(cos[i].q), v); err != nil {
				return err
			}

			continue
		}

		for _, r := range rs {
			n := r.n

			switch cos[i].act {
			case "merge":
				if v.K != Sca && len(v.C) == 0 && (n.K != v.K || v.HC+v.LC+v.FC != "") {
					return errUnspecified
				}

				mergeText(n, v, "")
			case "replace":
				w := v.clone()
				w.HC, w.LC, w.FC = n.HC, n.LC, n.FC
				w.comments(v, textOf(n, ""))
				*n = *w
			case "combine":
				n.comments(v, textOf(n, ""))

				if err := combineInto(n, v); err != nil {
					return err
				}
			case "delete":
				removeNode(d.root, n)
			}
		}
	}

	return noDups(d.root)
}

// strip removes all comments.
func (d *cdoc) strip() {
	d.hc, d.fc, d.root = "", "", noComments(d.root)
}

// overlayItem applies overlays to documents with comments.
func overlayItem(key, class string, docs []string, cos []commentOv, remove bool, opts ...string) *Item {
	ins := commentIns(cos)

	is, _, err := parseComments(ins)
	if err != nil {
		return nil
	}

	var keep []string

	for _, d := range docs {
		if _, _, err := parseComments("a: 1\n---\n" + d); err != nil {
			continue
		}

		ds, _, err := parseComments(d)
		if err != nil || len(ds) != 1 {
			continue
		}

		if applyComments(&ds[0], is[0].root, cos) == nil && len(ds[0].root.C) > 0 {
			keep = append(keep, d)
		}
	}

	if len(keep) == 0 {
		return nil
	}

	src := strings.Join(keep, "---\n")

	want, _, err := parseComments(src)
	if err != nil || len(want) != len(keep) {
		return nil
	}

	for i := range want {
		if remove {
			want[i].strip()
		}

		if applyComments(&want[i], is[0].root, cos) != nil {
			return nil
		}
	}

	args := append([]string{"-i", "i.yaml", "-s"}, opts...)
	if remove {
		args = append(args, "--remove-comments")
	}

	c := &Case{Files: map[string]string{"w/a.yaml": src, "w/i.yaml": ins}, Args: args}

	return &Item{Key: key, Class: class, Case: c, Trace: len(keep), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		got, err := parseSplit(r.Stdout)
		if err != nil {
			return fmt.Sprintf("stdout is not valid YAML (%v): %q", err, clip(r.Stdout, 800))
		}

		if len(got) != len(want) {
			return fmt.Sprintf("stdout has %d documents, expected %d: %q", len(got), len(want), clip(r.Stdout, 800))
		}

		for i := range want {
			if got[i].canon() == want[i].canon() {
				continue
			}

			y := &yaml.Node{Kind: yaml.DocumentNode, HeadComment: want[i].hc, FootComment: want[i].fc, Content: []*yaml.Node{toYAML(want[i].root)}}

			ref, _, err := parseComments(written(blockStyle(y)))
			if err == nil && len(ref) == 1 && ref[0].canon() == got[i].canon() {
				continue
			}

			// where yaml.v3 itself reads its own text differently, no comment may be lost or made up
			if (err != nil || len(ref) != 1 || ref[0].canon() != want[i].canon()) && allThere(got[i], want[i], strings.Split("\n"+r.Stdout, "\n---\n")[i+1]) && canon(got[i].root) == canon(want[i].root) {
				continue
			}

			return fmt.Sprintf("stdout, document %d: has\n%s expected\n%s", i, clip(got[i].canon(), 1500), clip(want[i].canon(), 1500))
		}

		return ""
	}}
}

// positions are the ways to have comments above, at the end of the line of and
// below an entry.
func positions(mark string, f func(name, above, line, below string)) {
	for m := 0; m < 8; m++ {
		var a, l, b string

		if m&1 != 0 {
			a = "# " + mark + "h\n"
		}

		if m&2 != 0 {
			l = " # " + mark + "l"
		}

		if m&4 != 0 {
			b = "# " + mark + "f\n\n"
		}

		f(fmt.Sprint(m), a, l, b)
	}
}

// entries of a map or list: "^" the line above, "~" the end of the line, "_"
// the line below.
func withPositions(t, above, line, below string) string {
	var b strings.Builder

	for _, l := range strings.SplitAfter(t, "\n") {
		pad := l[:len(l)-len(strings.TrimLeft(l, " "))]

		switch strings.TrimSpace(l) {
		case "^":
			if above != "" {
				b.WriteString(pad + above)
			}
		case "_":
			if below != "" {
				b.WriteString(pad + below)
			}
		default:
			b.WriteString(strings.Replace(l, "~", line, 1))
		}
	}

	return b.String()
}

var commentTargets = []string{
	"c: 1 # c\n^\nt: v~\n_\nz: 2 # z\n", "c: 1\n^\nt: 7~\n_\nz: 2\n", "c: 1\n^\nt: 'q'~\n_\n# zh\nz: 2\n", "c: 1\n^\nt:~\n  a: 1 # ta\n  b: 2\n_\nz: 2\n", "c: 1\n^\nt: {a: 1}~\n_\nz: 2\n", "c: 1\n^\nt:~\n- 1 # t1\n- 2\n_\nz: 2\n", "c: 1\n^\nt: [1, 2]~\n_\nz: 2\n", "c: 1\n^\nt: []~\n_\nz: 2\n", "c: 1\n^\nt:~\n_\nz: 2\n", "c: 1\n^\nt: |~\n  a\n  b\n_\nz: 2\n",
	"^\nt: v~\n_\n", "p:\n  c: 1\n  ^\n  t: v~\n  _\n  z: 2\nq: 3\n",
}

var commentValues = []string{"n~", "8~", "\"n m\"~", "^\na: n~\n_\n", "a: n\n^\nx: {y: 1}~\n_\n", "^\n- n~\n_\n- m\n", "= {a: n}~", "= [n]~", "= 'n'~", "= {}~"}

func exploreOverlays(x *X, remove bool) {
	var docs []string

	for _, t := range commentTargets {
		positions("", func(_, a, l, b string) { docs = append(docs, withPositions(t, a, l, b)) })
	}

	// a value with comments for the node itself, or for its entry in the map above
	for vi, v := range commentValues {
		positions("n", func(name, a, l, b string) {
			val := withPositions(v, a, l, b)
			if !strings.Contains(v, "^") && (a != "" || b != "") {
				return
			}

			for _, act := range []string{"merge", "replace", "combine"} {
				for _, q := range []string{"t", "p.t"} {
					x.Do(func() *Item {
						return overlayItem(fmt.Sprintf("v|%s|%s|%s|%d", act, q, name, vi), "value at a node", docs, []commentOv{{q: q, act: act, val: val}}, remove)
					})
				}
			}
		})

		if strings.HasPrefix(v, "= ") {
			continue
		}

		positions("n", func(name, a, l, b string) {
			for _, key := range []string{"t", "new", "z"} {
				sep := ":~ "
				if strings.Contains(v, "\n") {
					sep = ":~\n"
				}

				val := withPositions("^\n"+key+strings.Replace(sep, "~", "", 1)+indentValue(strings.Replace(v, "~", "~", 1), sep)+"\n_\n", a, l, b)
				if sep != ": " && strings.Contains(v, "\n") {
					val = withPositions("^\n"+key+":~\n"+indentText(strings.NewReplacer("^\n", "", "_\n", "", "~", "").Replace(v), 2)+"\n_\n", a, l, b)
				}

				for _, act := range []string{"merge", "replace"} {
					for _, q := range []string{"$", "p"} {
						x.Do(func() *Item {
							return overlayItem(fmt.Sprintf("k|%s|%s|%s|%s|%d", act, q, key, name, vi), "value at a key", docs, []commentOv{{q: q, act: act, val: val}}, remove)
						})
					}
				}

				x.Do(func() *Item {
					return overlayItem(fmt.Sprintf("inj|%s|%s|%d", key, name, vi), "injected", docs, []commentOv{{q: "new.p", act: "merge", val: val, inject: true}}, remove)
				})
			}
		})
	}

	// overlays elsewhere, and deletion, leave the comments of what survives
	for fi, f := range commentFrames {
		if strings.Contains(f, "*") || strings.Contains(f, "&") {
			continue
		}

		var full []string

		pl := spots(f)

		for k := range between {
			for m := 0; m < 4; m += 3 {
				at := map[int]int{}

				for i := range pl {
					if pl[i] {
						at[i] = k
					} else {
						at[i] = m
					}
				}

				full = append(full, fillFrame(f, at))
			}
		}

		for i := range pl {
			full = append(full, fillFrame(f, map[int]int{i: 0}), fillFrame(f, map[int]int{i: 1}))
		}

		for _, q := range []string{"a", "b", "b.c", "b.d", "e", "c", "d", "k1", "k2", "[0]", "[1]", "[1].x", "[1].y", "[2]", "[2][0]", "[2][1]", "[3]", "a[0]", "a[1]", "a[1].j", "l[0]", "l", "m", "m.x", "n", "o", "a.d", "a.d[0]", "k1[1].b", "k1[0]", "zz"} {
			for _, o := range []commentOv{{q: q, act: "delete"}, {q: q, act: "merge", val: "= new"}, {q: q, act: "replace", val: "= {p: {q: 1}}"}, {q: q, act: "merge", val: "= {p: 1}"}, {q: q, act: "merge", val: "= [1] # nl"}, {q: q, act: "replace", val: "= 5 # nl"}} {
				x.Do(func() *Item {
					return overlayItem(fmt.Sprintf("s|%d|%s|%s|%s", fi, o.act, q, o.val), "survivors", full, []commentOv{o}, remove)
				})
			}
		}
	}
}

func indentValue(v, sep string) string {
	if strings.Contains(sep, "\n") {
		return indentText(v, 2)
	}

	return v
}

// removedItem runs documents with -r: no comment remains, and the data does.
func removedItem(key, class string, docs []string, opts ...string) *Item {
	var keep []string

	for _, d := range docs {
		if _, _, err := parseComments("a: 1\n---\n" + d); err != nil {
			continue
		}

		if ds, _, err := parseComments(d); err == nil && len(ds) == 1 {
			keep = append(keep, d)
		}
	}

	if len(keep) == 0 {
		return nil
	}

	src := strings.Join(keep, "---\n")
	c := &Case{Files: map[string]string{"w/a.yaml": src, "w/b.yaml": "# hb\nb: 1 # lb\n# fb\n", "w/i.yaml": "# hi\ncommonOverlays: # ci\n- query: none # ni\n  value: v # vi\nyamlFiles:\n- path: b.yaml # pi\n- path: a.yaml\n"}, Args: append([]string{"-i", "i.yaml", "-s", "--remove-comments"}, opts...)}

	return &Item{Key: key, Class: class, Case: c, Trace: len(keep), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		if m := sameDocs("stdout", r.Stdout, append([]string{"b: 1\n"}, keep...)); m != "" {
			return m
		}

		if strings.Contains(r.Stdout, "#") {
			return fmt.Sprintf("comments remain: %q", clip(r.Stdout, 800))
		}

		return ""
	}}
}

func exploreC13(x *X) {
	exploreOverlays(x, true)
	exploreRemoveWays(x)

	for fi, f := range commentFrames {
		pl := spots(f)

		kinds := func(i int) int {
			if pl[i] {
				return len(between)
			}

			return 4
		}

		for i := range pl {
			for j := i; j < len(pl); j++ {
				for k := 0; k < kinds(i); k++ {
					x.Do(func() *Item {
						var docs []string

						for m := 0; m < kinds(j); m++ {
							docs = append(docs, fillFrame(f, map[int]int{i: k, j: m}))
						}

						return removedItem(fmt.Sprintf("r2|%d|%d|%d|%d", fi, i, j, k), "two places", docs)
					})
				}
			}
		}

		var full []string

		for k := range between {
			for m := 0; m < 4; m++ {
				for skip := 1; skip <= 3; skip++ {
					at := map[int]int{}

					for i := 0; i < len(pl); i += skip {
						if pl[i] {
							at[i] = k
						} else {
							at[i] = m
						}
					}

					full = append(full, fillFrame(f, at))
				}
			}
		}

		for _, st := range styleNames {
			for n := 0; n < 10; n++ {
				x.Do(func() *Item {
					return removedItem(fmt.Sprintf("all|%d|%s|%d", fi, st, n), "everywhere, any style", full, "-S", st, "-I", fmt.Sprint(n))
				})
			}
		}
	}

	// markers which refer to comments that are gone
	docs := []string{"c: first\n# hk\nk: v # lk\n# fk\n\nl:\n# h0\n- x # l0\n# f0\n\n- y # l1\n"}

	seqs(6, 3, func(ix []int) {
		t := ""
		for _, i := range ix {
			t += []string{"%v", "%l", "%h", "%f", "a", "%l{s/l/L/}"}[i]
		}

		for qi, q := range []string{"k", "l[0]", "l[1]", "$"} {
			v := "= " + dq(t)
			if q == "$" {
				v = "k: " + dq(t) + "\n'%k" + strings.Trim(t, "a") + "': '%v'"
				if strings.Contains(t, "%v") {
					v = "k: " + dq(t)
				}
			}

			x.Do(func() *Item {
				return overlayItem(fmt.Sprintf("m|%s|%d", t, qi), "markers", docs, []commentOv{{q: q, act: "merge", val: v}}, true)
			})
			x.Do(func() *Item {
				return overlayItem(fmt.Sprintf("mc|%s|%d", t, qi), "markers in comments", docs, []commentOv{{q: q, act: "merge", val: v + " # " + t}}, true)
			})
		}
	})
}

func init() {
	register(&Check{ID: "C12", Level: "model_checking", Explore: exploreC12,
		Rule:   "14 document frames with up to 21 places for comments (above, between, below and at the end of the line of entries and items of every kind, nested, flow, block scalars, anchors): all sets of 2 (3) places x all fillings (8 between lines, 4 at line ends), and all places filled; 12 documents x 8 comment positions x 10 values x 8 positions of their comments x merge/replace/combine at the node, at its key and injected; 30 queries x 6 overlays on 10 frames with comments everywhere: what survives keeps its comments. Judged by the order of comment lines among keys and scalars",
		Assume: []string{"yaml.v3 defines which node a comment belongs to; where yaml.v3 cannot write a comment where it read it, it must be in the output at all"}})
	register(&Check{ID: "C13", Level: "model_checking", Explore: exploreC13,
		Rule:   "with --remove-comments: the frames of C12 with all pairs of places and all fillings, and with all places filled x 7 output styles x 10 indents: no comment in the output and the same data; the overlays of C12 with comments of their own: exactly those remain; all templates of up to 3 comment markers: they expand to nothing",
		Assume: []string{"yaml.v3 parses the outputs"}})
}

// ways of naming the files, asking for the removal of comments, and of output
var (
	sourceWays = []struct {
		args  []string
		ins   string
		stdin bool
	}{
		{args: []string{"-p", "m/a.yaml", "-q", "none", "-x", "1"}}, {args: []string{"-p", "m", "-q", "none", "-x", "1"}}, {args: []string{"-p", "-", "-q", "none", "-x", "1"}, stdin: true}, {args: []string{"-p", "m", "-q", "none", "-a", "delete"}},
		{ins: "yamlFiles:\n- path: m\n"}, {ins: "yamlFiles:\n- path: m/a.yaml\n- path: m/s/b.yml\n"}, {ins: "yamlFiles:\n- path: m/a.yaml\n", args: []string{"-p", "m/s/b.yml"}}, {ins: "yamlFiles:\n- path: m/a.yaml\n  overlays:\n  - {query: none, value: 1}\n  documents:\n  - {path: 0, overlays: [{query: none, action: delete}]}\n", args: []string{"-p", "m"}},
		{ins: "commonOverlays:\n- {query: none, value: 1}\nyamlFiles:\n- path: m/a.yaml\n", args: []string{"-p", "{{ROOT}}/w/m/s", "-q", "none", "-a", "replace", "-x", "{a: 1}"}}, {ins: "commonOverlays:\n- {query: none, value: 1}\n", args: []string{"-p", "m"}}, {ins: "commonOverlays:\n- {query: none, value: 1}\n", args: []string{"-p", "-"}, stdin: true},
		{ins: "{{ range .f }}{{ . }}{{ end }}\nyamlFiles:\n- path: m/s\n- path: m/a.yaml\n  outputPath: new/c.yaml\n", args: []string{"-f", "v.yaml"}},
	}
	removeWays = []struct {
		args []string
		env  map[string]string
		cfg  string
	}{
		{args: []string{"--remove-comments"}}, {args: []string{"--remove-comments=true"}}, {env: map[string]string{"YOT_REMOVE_COMMENTS": "true"}}, {cfg: "removeComments: true\n"}, {args: []string{"--remove-comments"}, env: map[string]string{"YOT_REMOVE_COMMENTS": "false"}, cfg: "removeComments: false\n"}, {env: map[string]string{"YOT_REMOVE_COMMENTS": "true"}, cfg: "removeComments: false\n"},
	}
)

// wayItem removes comments in one way of running the tool.
func wayItem(key string, docs []string, src, rem, out int) *Item {
	s, r := sourceWays[src], removeWays[rem]
	a, b := strings.Join(docs, "---\n"), strings.Join(docs[len(docs)/2:], "---\n")
	c := &Case{Files: map[string]string{"w/m/a.yaml": a, "w/m/s/b.yml": b, "w/v.yaml": "# c\nf: ['']\n"}, Env: r.env}
	want := map[string]string{"a.yaml": a, "b.yml": b}

	if s.ins != "" {
		c.Files["w/i.yaml"] = s.ins
		c.Args = append(c.Args, "-i", "i.yaml")

		if strings.Contains(s.ins, "new/c.yaml") {
			want = map[string]string{"c.yaml": a, "b.yml": b}
		}
	}

	if src == 0 {
		delete(want, "b.yml")
	}

	if s.stdin {
		c.Stdin = &a
		want = map[string]string{"stdin.yaml": a}
	}

	if r.cfg != "" {
		c.Files["w/cfg.yaml"] = r.cfg
		c.Args = append(c.Args, "--config", "cfg.yaml")
	}

	c.Args = append(append(c.Args, s.args...), r.args...)

	switch out {
	case 0:
		c.Args = append(c.Args, "-s")
	case 1:
		c.Args = append(c.Args, "-o", "out")
	case 2:
		c.Args = append(c.Args, "-o", "out", "-S", "double", "-I", "5")
	}

	return &Item{Key: key, Class: "ways of running", Case: c, Trace: len(docs), Verify: func(res *Result) string {
		if res.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", res.Exit, clip(res.Stderr, 300))
		}

		if out == 0 {
			if strings.Contains(res.Stdout, "#") {
				return fmt.Sprintf("comments remain: %q", clip(res.Stdout, 800))
			}

			n := 0

			for _, w := range want {
				n += len(mustParseAll(w))
			}

			if got, err := parseStream(res.Stdout); err != nil || len(got) != n {
				return fmt.Sprintf("%d documents, expected %d: %v", len(got), n, err)
			}

			return ""
		}

		found := 0

		for f, text := range res.Files {
			if !strings.HasPrefix(f, "w/out/") {
				continue
			}

			w, ok := want[f[strings.LastIndex(f, "/")+1:]]
			if !ok {
				return "unexpected output " + f
			}

			found++

			if strings.Contains(text, "#") {
				return fmt.Sprintf("comments remain in %s: %q", f, clip(text, 800))
			}

			if m := sameDocs(f, text, strings.Split(w, "---\n")); m != "" {
				return m
			}
		}

		if found != len(want) {
			return fmt.Sprintf("%d output files, expected %d", found, len(want))
		}

		return ""
	}}
}

func exploreRemoveWays(x *X) {
	for fi, f := range commentFrames {
		pl := spots(f)

		for skip := 1; skip <= 2; skip++ {
			for k := range between {
				var docs []string

				for m := 0; m < 4; m++ {
					at := map[int]int{}

					for i := m % skip; i < len(pl); i += skip {
						if pl[i] {
							at[i] = k
						} else {
							at[i] = m
						}
					}

					d := fillFrame(f, at)
					if ds, _, err := parseComments(d); err == nil && len(ds) == 1 {
						if _, _, err := parseComments("a: 1\n---\n" + d); err == nil {
							docs = append(docs, d)
						}
					}
				}

				if len(docs) == 0 {
					continue
				}

				for src := range sourceWays {
					for rem := range removeWays {
						for out := 0; out < 3; out++ {
							if !x.Thorough && (fi+src+rem+out+k)%6 != 0 {
								continue
							}

							x.Do(func() *Item {
								return wayItem(fmt.Sprintf("way|%d|%d|%d|%d|%d|%d", fi, skip, k, src, rem, out), docs, src, rem, out)
							})
						}
					}
				}
			}
		}
	}
}
