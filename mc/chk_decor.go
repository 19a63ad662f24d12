//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// deco writes a tree with anchors, tags, quotes and comments at all nodes,
// which say nothing about the data: what an overlay does must not depend on
// them.
type deco struct {
	anchors, keys, tags, literal, question, comments, flow bool
	quote                                                  byte
	n                                                      int
}

var decos = []deco{
	{anchors: true, flow: true}, {anchors: true}, {anchors: true, keys: true}, {tags: true}, {tags: true, flow: true, keys: true}, {anchors: true, keys: true, tags: true, question: true},
	{quote: '"', keys: true, flow: true}, {quote: '\'', question: true, comments: true}, {literal: true, comments: true}, {literal: true, anchors: true, tags: true, comments: true, question: true},
}

func (d *deco) props(n *N, key bool) string {
	s := ""

	if key && !d.keys {
		return s
	}

	if d.anchors {
		d.n++
		s += fmt.Sprintf("&n%d ", d.n)
	}

	if d.tags {
		s += n.Tag + " "
	}

	return s
}

func (d *deco) scalar(n *N, key bool) string {
	if n.Tag == "!!str" && (!key || d.keys) {
		switch {
		case d.quote == '"':
			return dq(n.V)
		case d.quote == '\'' && !strings.ContainsAny(n.V, "\n\t\r"):
			return "'" + strings.ReplaceAll(n.V, "'", "''") + "'"
		}
	}

	return flowScalar(n)
}

func (d *deco) inline(n *N, key bool) string {
	s := d.props(n, key)

	switch n.K {
	case Map:
		var p []string

		for i := 0; i+1 < len(n.C); i += 2 {
			k := d.inline(n.C[i], true)
			if d.question {
				k = "? " + k
			}

			p = append(p, k+" : "+d.inline(n.C[i+1], false))
		}

		return s + "{" + strings.Join(p, ", ") + "}"
	case Seq:
		var p []string
		for _, c := range n.C {
			p = append(p, d.inline(c, false))
		}

		return s + "[" + strings.Join(p, ", ") + "]"
	}

	return s + d.scalar(n, key)
}

// rest is what follows a key, a dash or the start of the document.
func (d *deco) rest(n *N, pad string) string {
	if n.K == Sca || len(n.C) == 0 {
		if d.literal && n.Tag == "!!str" && n.V != "" && !strings.ContainsAny(n.V, "\n\t \r") {
			return d.props(n, false) + "|-" + d.line() + pad + "  " + n.V + "\n"
		}

		return d.inline(n, false) + d.line()
	}

	return strings.TrimSpace(d.props(n, false)) + d.line() + d.block(n, pad)
}

func (d *deco) line() string {
	if d.comments {
		return " # line\n"
	}

	return "\n"
}

func (d *deco) block(n *N, pad string) string {
	var b strings.Builder

	for i := 0; i < len(n.C); i++ {
		if d.comments {
			b.WriteString(pad + "# head\n")
		}

		c := n.C[i]

		if n.K == Map {
			i++

			k := d.inline(c, true)
			if d.question {
				b.WriteString(pad + "? " + k + "\n" + pad + ": ")
			} else {
				b.WriteString(pad + k + ": ")
			}
		} else {
			b.WriteString(pad + "- ")
		}

		b.WriteString(d.rest(n.C[i], pad+"  "))
	}

	return b.String()
}

func (d deco) text(n *N) string {
	if d.flow {
		return d.inline(n, false) + "\n"
	}

	if n.K == Sca || len(n.C) == 0 {
		return d.rest(n, "")
	}

	s := strings.TrimSpace(d.props(n, false))
	if s != "" {
		s += "\n"
	}

	return s + d.block(n, "")
}

// decorated runs all pairs of overlays on documents with all decorations.
func decorated(x *X, own []Ov) {
	docs := append(append([]string{}, mixedDocs...), "a: {n: {n: 1, v: [{n: 1}, [x]]}, k: ''}\ns: {n: 5}\nl: [{n: x, v: {n: [1]}}, {n: 1, v: x}]\n")

	for di, d := range decos {
		var ts []string

		for _, t := range docs {
			n := mustParse(t)
			s := d.text(n)

			if m, err := parseStream(s); err != nil || len(m) != 1 || canon(m[0]) != canon(n) {
				panic(fmt.Sprintf("decoration %d is not neutral: %v\n%s", di, err, s))
			}

			ts = append(ts, s)
		}

		for i, o1 := range own {
			for j := -1; j < len(own); j++ {
				x.Do(func() *Item {
					os := []Ov{o1}
					if j >= 0 {
						os = append(os, own[j])
					}

					for k := range os {
						v := decos[[]int{0, 4, 6}[(i+j+k+di+3)%3]]
						if os[k].HasV && (i+j+1)%2 == 0 {
							os[k].Val = v.inline(os[k].val(), false)
						}
					}

					it := frameItem(fmt.Sprintf("decor|%d|%s", di, ovKey(os)), "decorated documents", ts, os, true, (i+j)%2 == 0)

					return it
				})
			}
		}
	}
}
