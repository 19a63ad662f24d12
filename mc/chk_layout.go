//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// A writing is a way of writing data down: the same data in all of them.
type writing struct {
	off, ind, seq, dash, gap, blank int
	comment                         bool
}

func (l writing) key() string {
	return fmt.Sprintf("%d.%d.%d.%d.%d.%d.%v", l.off, l.ind, l.seq, l.dash, l.gap, l.blank, l.comment)
}

// writings enumerates all combinations.
func writings(thorough bool) []writing {
	var ls []writing

	offs, inds, seqInds := []int{0, 1, 4}, []int{1, 2, 3, 7}, []int{0, 1, 4}
	if thorough {
		offs, inds, seqInds = []int{0, 1, 2, 3, 4, 9}, []int{1, 2, 3, 4, 5, 7, 11}, []int{0, 1, 2, 3, 4, 8}
	}

	for _, off := range offs {
		for _, ind := range inds {
			for _, seq := range seqInds {
				for _, dash := range []int{1, 3} {
					for _, gap := range []int{1, 4} {
						for blank := 0; blank < 4; blank++ {
							for _, comment := range []bool{false, true} {
								ls = append(ls, writing{off, ind, seq, dash, gap, blank, comment})
							}
						}
					}
				}
			}
		}
	}

	return ls
}

func (l writing) between(b *strings.Builder, pad int) {
	switch l.blank {
	case 1:
		b.WriteString("\n")
	case 2:
		b.WriteString(strings.Repeat(" ", pad+2) + "\n\n")
	}

	if l.comment {
		b.WriteString(strings.Repeat(" ", pad) + "# c\n")
	}
}

// put writes a node; the first line is already padded.
func (l writing) put(b *strings.Builder, n *N, pad int) {
	sp := func(k int) string { return strings.Repeat(" ", k) }

	if n.K == Sca || len(n.C) == 0 {
		b.WriteString(flow(n))

		if l.blank == 3 {
			b.WriteString("  ")
		}

		b.WriteString("\n")

		return
	}

	if n.K == Seq {
		for i, c := range n.C {
			if i > 0 {
				l.between(b, pad)
				b.WriteString(sp(pad))
			}

			b.WriteString("-" + sp(l.dash))
			l.put(b, c, pad+1+l.dash)
		}

		return
	}

	for i := 0; i+1 < len(n.C); i += 2 {
		if i > 0 {
			l.between(b, pad)
			b.WriteString(sp(pad))
		}

		b.WriteString(flow(n.C[i]) + ":")

		v := n.C[i+1]

		switch {
		case v.K == Sca || len(v.C) == 0:
			b.WriteString(sp(l.gap))
			l.put(b, v, 0)
		default:
			in := pad + l.ind
			if v.K == Seq {
				in = pad + l.seq
			}

			b.WriteString("\n")
			l.between(b, in)
			b.WriteString(sp(in))
			l.put(b, v, in)
		}
	}
}

func (l writing) text(t string) string {
	var b strings.Builder

	l.between(&b, l.off)
	b.WriteString(strings.Repeat(" ", l.off))
	l.put(&b, mustParse(t), l.off)

	return b.String()
}

var writtenData = []string{
	"{a: {b: {c: 1, d: [x, {e: 2, f: [3, [4, 5], {g: {h: 6}}]}]}, s: 'a b'}, l: [1, {n: x, m: [y]}, [2, 3], {}, []], t: ~}",
	"[{n: 1, m: {k: [v]}}, [[1, 2], {a: b}], x]",
	"{l: [[{a: {b: 1}}]], 'k k': {'1': 'true', x: {y: {z: {w: 1}}}}}",
	"{only: {one: {key: 1}}}",
}

// writingItems gives every writing of the data to f.
func writingItems(x *X, f func(l writing, texts []string) *Item) {
	for _, l := range writings(x.Thorough) {
		x.Do(func() *Item {
			var ts []string

			for _, d := range writtenData {
				t := l.text(d)
				if canon(mustParse(t)) != canon(mustParse(d)) {
					panic("harness: writing " + l.key() + " changes " + d + ":\n" + t)
				}

				ts = append(ts, t)
			}

			return f(l, ts)
		})
	}
}

var writtenOvs = []Ov{mergeOv("..zz", "1"), mergeOv("a", "{b: {new: {x: {y: 1}}}}"), replaceOv("l", "[{p: [q]}]"), deleteOv("a.b.d"), mergeOv("$", "{top: {l: {k: v}}}"), injOv("merge", "new.path.to", "{x: {y: 1}}"), replaceOv("..n", "{r: [1]}"), mergeOv("$[0]", "{z: 1}")}

func layoutsKeepData(x *X) {
	writingItems(x, func(l writing, ts []string) *Item {
		var os []Ov

		for i, o := range writtenOvs {
			if (i+l.off+l.ind+l.seq)%3 == 0 {
				os = append(os, o)
			}
		}

		return frameItem("layout|"+l.key(), "layouts", ts, os, true, l.dash == 1)
	})
}

func layoutsReproduce(x *X) {
	for di := range writtenData {
		for oi, o := range writtenOvs {
			writingItems(x, func(l writing, ts []string) *Item {
				// quick: every layout with a quarter of the pairs of data and overlay
				if l.comment || !x.Thorough && (l.off+l.ind+l.seq+l.dash/2+l.gap/4+l.blank+di+oi)%4 != 0 {
					return nil
				}

				return againItem(fmt.Sprintf("layout|%d|%d|%s", di, oi, l.key()), ts[di], []Ov{o}, true, "-I", fmt.Sprint(2+l.off%3))
			})
		}
	}
}
