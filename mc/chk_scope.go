//go:build go1.22

package main

import (
	"fmt"
	"path"
	"strings"
)

// seqs calls f with every sequence over 0..n-1 of length 1..max.
func seqs(n, max int, f func([]int)) {
	var rec func([]int)

	rec = func(s []int) {
		if len(s) > 0 {
			f(append([]int{}, s...))
		}

		if len(s) < max {
			for i := 0; i < n; i++ {
				rec(append(s, i))
			}
		}
	}

	rec(nil)
}

// tracer hands out overlays that append a unique mark to the "log" string of
// a document, so that the document shows which overlays ran, in which order.
type tracer struct{ n int }

func (t *tracer) ov() Ov {
	t.n++

	return combineOv("log", fmt.Sprintf("%q", fmt.Sprintf(" %d", t.n)))
}

func (t *tracer) ovs(n int) []Ov {
	var o []Ov
	for i := 0; i < n; i++ {
		o = append(o, t.ov())
	}

	return o
}

func logDocs(n int) string {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, fmt.Sprintf("log: d%d\n", i))
	}

	return strings.Join(p, "---\n")
}

func exploreC02(x *X) {
	kinds := []string{"m/a.yaml", "m/b.yaml", "m", "m/s/c.yml", "./m/../m/a.yaml", "{{ROOT}}/w/m/s"}
	files := map[string]string{"w/m/a.yaml": logDocs(3), "w/m/b.yaml": logDocs(1), "w/m/s/c.yml": logDocs(2)}
	docShapes := [][][2]int{nil, {{0, 1}}, {{1, 2}, {0, 1}}, {{0, 1}, {0, 2}}, {{2, 1}, {7, 1}, {1, 1}}}
	max := 3

	if x.Thorough {
		max = 4
	}

	seqs(len(kinds), max, func(es []int) {
		for common := 0; common <= 5; common++ {
			if common == 4 && !x.Thorough {
				continue
			}

			for cli := 0; cli < 4; cli++ { // CLI overlay, -p
				for shape := 0; shape < 6; shape++ {
					if len(es) == max && (common+cli+shape+es[0])%3 != 0 && !x.Thorough {
						continue
					}

					x.Do(func() *Item {
						var t tracer

						in := Ins{Common: t.ovs(common)}

						for k, e := range es {
							en := Ent{Path: kinds[e], Ovs: t.ovs((shape + k) % 4)}
							for _, d := range docShapes[(shape+2*k+e)%len(docShapes)] {
								en.Docs = append(en.Docs, DocEnt{Path: d[0], Ovs: t.ovs(d[1])})
							}

							in.Ents = append(in.Ents, en)
						}

						sp := &Spec{Files: files, Ins: &in, Std: shape%2 == 0}
						if cli&1 != 0 {
							o := t.ov()
							sp.CLI = &o
						}

						if cli&2 != 0 {
							sp.Path = []string{"m/a.yaml", "m", "m/s/c.yml"}[shape%3]
						}

						it := sp.item(fmt.Sprintf("order|%v|%d|%d|%d", es, common, cli, shape), fmt.Sprintf("entries=%d", len(es)))
						it.Trace = t.n

						return it
					})
				}
			}
		}
	})

	// every number of overlays of every entry
	seqs(len(kinds), 3, func(es []int) {
		n := 1
		for range es {
			n *= 4
		}

		for m := 0; m < n; m++ {
			for common := 0; common < 2; common++ {
				if len(es) == 3 && (m+es[1])%2 != common && !x.Thorough {
					continue
				}

				x.Do(func() *Item {
					var t tracer

					in := Ins{Common: t.ovs(common)}

					for k, e := range es {
						in.Ents = append(in.Ents, Ent{Path: kinds[e], Ovs: t.ovs(m >> (2 * k) & 3)})
					}

					it := (&Spec{Files: files, Ins: &in, Std: m%2 == 0}).item(fmt.Sprintf("counts|%v|%d|%d", es, m, common), "counts")
					it.Trace = t.n

					return it
				})
			}
		}
	})

	// large numbers of documents, overlays, entries and indices
	for _, nd := range []int{9, 10, 11, 12, 64, 101, 257, 1025} {
		for k := 0; k < 6; k++ {
			x.Do(func() *Item {
				var t tracer

				in := Ins{Ents: []Ent{{Path: "m/a.yaml"}, {Path: "m/b.yaml"}}}
				last := nd - 1

				switch k {
				case 0:
					o := t.ov()
					o.Idx, o.HasIx = []int{last}, true
					in.Common = []Ov{o}
				case 1:
					in.Ents[0].Docs = []DocEnt{{Path: last, Ovs: t.ovs(2)}, {Path: nd / 2, Ovs: t.ovs(1)}, {Path: nd, Ovs: t.ovs(1)}}
				case 2:
					o := t.ov()
					o.HasIx = true

					for i := last; i >= 0; i -= 3 {
						o.Idx = append(o.Idx, i)
					}

					in.Ents[0].Ovs = []Ov{o, t.ov()}
				case 3:
					for i := 0; i < nd && i < 64; i++ {
						in.Ents[0].Docs = append(in.Ents[0].Docs, DocEnt{Path: i * 7 % nd, Ovs: t.ovs(1)})
					}
				case 4:
					in.Common = t.ovs(1)
					o := t.ov()
					o.Idx, o.HasIx = []int{10, 1, 100, 2, 11}, true
					in.Ents[1].Ovs = []Ov{o}
					in.Ents[0].Docs = []DocEnt{{Path: 10, Ovs: t.ovs(1)}, {Path: 1, Ovs: t.ovs(1)}}
				default:
					in.Common = t.ovs(nd / 8)
					in.Ents[0].Ovs = t.ovs(nd / 16)

					for i := 0; i < nd/16; i++ {
						in.Ents = append(in.Ents, Ent{Path: kinds[i%len(kinds)], Ovs: t.ovs(i % 3)})
					}
				}

				big := map[string]string{"w/m/a.yaml": logDocs(nd), "w/m/b.yaml": logDocs(12), "w/m/s/c.yml": logDocs(2)}

				return (&Spec{Files: big, Ins: &in, Std: k%2 == 0}).item(fmt.Sprintf("large|%d|%d", nd, k), "large")
			})
		}
	}

	// documentIndex at every level, all subsets of indices
	idx := [][]int{{}, {0}, {1}, {2}, {3}, {0, 1}, {1, 0}, {0, 2}, {2, 1, 0}, {1, 1}, {-1}, {99}}

	for level := 0; level < 2; level++ {
		for i := range idx {
			for j := range idx {
				for first := 0; first < 2; first++ {
					x.Do(func() *Item {
						var t tracer

						a, b, c := t.ov(), t.ov(), t.ov()
						a.Idx, a.HasIx = idx[i], true
						b.Idx, b.HasIx = idx[j], true

						var in Ins

						switch level {
						case 0:
							in = Ins{Common: []Ov{a, c, b}, Ents: []Ent{{Path: "m"}}}
						case 1:
							in = Ins{Common: []Ov{c}, Ents: []Ent{{Path: "m", Ovs: []Ov{a, t.ov(), b}}}}
						}

						fs := files

						if first == 1 {
							// deleting a document does not renumber the others
							d := deleteOv("$")
							d.Idx, d.HasIx = []int{0}, true
							in.Common = append([]Ov{d}, in.Common...)
						}

						return (&Spec{Files: fs, Ins: &in, Std: true}).item(fmt.Sprintf("index|%d|%v|%v|%d", level, idx[i], idx[j], first), "documentIndex")
					})
				}
			}
		}
	}

	// documents of every kind count, wherever they are in the file
	contents := []string{"log: d\n", "", "null\n", "# c\n", "{}\n", "[]\n", "text\n", "\"\"\n"}
	longest := 3

	if x.Thorough {
		longest = 4
	}

	seqs(len(contents), longest, func(ds []int) {
		f := ""
		for _, k := range ds {
			f += "---\n" + contents[k]
		}

		for at := 0; at <= len(ds)+1; at++ {
			for level := 0; level < 4; level++ {
				for act := 0; act < 2; act++ {
					x.Do(func() *Item {
						o := replaceOv("$", "{hit: 1}")
						if act == 1 {
							o = deleteOv("$")
						}

						in := Ins{Ents: []Ent{{Path: "m/a.yaml"}, {Path: "m/b.yaml"}}}

						switch level {
						case 0:
							o.Idx, o.HasIx = []int{at}, true
							in.Common = []Ov{o}
						case 1:
							o.Idx, o.HasIx = []int{at}, true
							in.Ents[0].Ovs = []Ov{o}
						case 2:
							in.Ents[0].Docs = []DocEnt{{Path: at, Ovs: []Ov{o}}}
						default:
							in.Ents = append(in.Ents, Ent{Path: "m", Docs: []DocEnt{{Path: at, Ovs: []Ov{o}}}})
						}

						it := (&Spec{Files: map[string]string{"w/m/a.yaml": f, "w/m/b.yaml": "b: 1\n"}, Ins: &in, Std: true}).item(fmt.Sprintf("position|%v|%d|%d|%d", ds, at, level, act), "positions")
						it.Trace = 1

						return it
					})
				}
			}
		}
	})

	// standard input among the files
	stdins := []string{"-", "m/b.yaml", "-", "m", "-"}

	seqs(len(stdins), 3, func(es []int) {
		for common := 0; common < 3; common++ {
			for cli, p := range []string{"", "-", "m/b.yaml"} {
				for shape := 0; shape < 4; shape++ {
					x.Do(func() *Item {
						var t tracer

						in := Ins{Common: t.ovs(common)}

						for k, e := range es {
							en := Ent{Path: stdins[e], Ovs: t.ovs((shape + e) % 3)}
							if e > 1 {
								en.Docs = []DocEnt{{Path: k, Ovs: t.ovs(1)}, {Path: 0, Ovs: t.ovs(1)}}
							}

							in.Ents = append(in.Ents, en)
						}

						text := logDocs(shape)
						sp := &Spec{Files: map[string]string{"w/m/a.yaml": logDocs(2), "w/m/b.yaml": logDocs(1)}, Ins: &in, Std: true, Stdin: &text, Path: p}

						if cli == 2 {
							sp.Path = "{{ROOT}}/w/m/b.yaml"
						}

						it := sp.item(fmt.Sprintf("stdin|%v|%d|%d|%d", es, common, cli, shape), "standard input")
						it.Trace = t.n

						return it
					})
				}
			}
		}
	})

	// documents entries without a path mean index 0, by number in any notation
	for _, p := range []string{"", "path: 0", "path: 1", "path: 2", "path: 0x1", "path: 5"} {
		x.Do(func() *Item {
			ins := "yamlFiles:\n- path: m/a.yaml\n  documents:\n  - name: n\n    " + p + "\n    overlays:\n    - query: log\n      action: combine\n      value: X\n"
			want := []*N{mustParse("log: d0"), mustParse("log: d1"), mustParse("log: d2")}
			k := map[string]int{"": 0, "path: 0": 0, "path: 1": 1, "path: 2": 2, "path: 0x1": 1, "path: 5": -1}[p]

			if k >= 0 {
				want[k] = mustParse("log: d" + fmt.Sprint(k) + "X")
			}

			c := &Case{Files: map[string]string{"w/i.yaml": ins, "w/m/a.yaml": files["w/m/a.yaml"]}, Args: []string{"-i", "i.yaml", "-s"}}
			e := Exp{Stdout: true, Docs: want}

			return &Item{Key: "docpath|" + p, Class: "documents path", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
		})
	}
}

func exploreC16(x *X) {
	type tree struct {
		name  string
		files map[string]string
		paths []string // entries to choose from (dirs and files, several spellings)
	}

	d := logDocs(1)
	trees := []tree{
		{"flat", map[string]string{"w/m/a.yaml": d, "w/m/b.yml": d, "w/m/c.txt": "not: [yaml", "w/m/d.yaml.bak": d, "w/m/e.json": "{}", "w/m/F.YAML": d, "w/m/yaml": d},
			[]string{"m", "m/", "./m", "m/a.yaml", "m/../m/b.yml", "{{ROOT}}/w/m"}},
		{"deep", map[string]string{"w/m/a.yaml": d, "w/m/s/a.yaml": d, "w/m/s/t/u/z.yml": d, "w/m/s-2/b.yaml": d, "w/m/.h/c.yaml": d, "w/m/x.yaml/in.yaml": d},
			[]string{"m", "m/s", "m/s/t", "m/s/a.yaml", "m/x.yaml", "m/s/../../m/s"}},
		{"names", map[string]string{"w/m/a.b.yaml": d, "w/m/sp ace.yaml": d, "w/m/ünï.yml": d, "w/m/.yaml": d, "w/m2/a.yaml": d, "w/mm/m/a.yaml": d},
			[]string{"m", "m2", "mm", "m/sp ace.yaml", "./m2/a.yaml", "../w/m"}},
		{"empty", map[string]string{"w/m/readme.md": "x", "w/n/a.yaml": d, "w/n/o/p/q.yaml": d}, []string{"m", "n", "n/o", "n/o/p/q.yaml", "n/a.yaml", "n/."}},
	}
	max := 3

	for _, t := range trees {
		seqs(len(t.paths), max, func(es []int) {
			for v := 0; v < 6; v++ {
				x.Do(func() *Item {
					var tr tracer

					in := Ins{Common: tr.ovs(v % 2)}

					for k, e := range es {
						en := Ent{Path: t.paths[e], Ovs: tr.ovs(1 + (v+k)%2)}
						if (v+k)%3 == 1 {
							en.Docs = []DocEnt{{Path: 0, Ovs: tr.ovs(1)}}
						}

						in.Ents = append(in.Ents, en)
					}

					sp := &Spec{Files: t.files, Ins: &in, Std: v >= 4}

					if v == 3 {
						sp.Path = t.paths[es[0]]
					}

					it := sp.item(fmt.Sprintf("tree|%s|%v|%d", t.name, es, v), "tree/"+t.name)
					it.Trace = tr.n

					return it
				})
			}

			// every entry with or without overlays of its own and of its documents
			for c := 0; c < 1<<(2*len(es)+1); c++ {
				if len(es) == 3 && !x.Thorough && (c+es[1])%8 != 0 {
					continue
				}

				x.Do(func() *Item {
					var tr tracer

					in := Ins{Common: tr.ovs(c & 1)}

					for k, e := range es {
						en := Ent{Path: t.paths[e]}

						if c>>(2*k+1)&1 == 1 {
							en.Ovs = tr.ovs(1)
						}

						if c>>(2*k+2)&1 == 1 {
							en.Docs = []DocEnt{{Path: 0, Ovs: tr.ovs(1)}}
						}

						in.Ents = append(in.Ents, en)
					}

					it := (&Spec{Files: t.files, Ins: &in, Std: true}).item(fmt.Sprintf("shape|%s|%v|%d", t.name, es, c), "entries with and without overlays")
					it.Trace = tr.n

					return it
				})
			}

			// last listed outputPath wins
			if len(es) >= 1 {
				outs := []string{"", "o", "o/p/", "{{ROOT}}/z", "new.yaml", "q"}
				n := 1

				for range es {
					n *= len(outs)
				}

				for c := 0; c < n; c++ {
					if len(es) == 3 && !x.Thorough && c%3 != es[0]%3 {
						continue
					}

					x.Do(func() *Item {
						var tr tracer

						in := Ins{}

						k := c
						for _, e := range es {
							in.Ents = append(in.Ents, Ent{Path: t.paths[e], Ovs: tr.ovs(1), Out: outs[k%len(outs)]})
							k /= len(outs)
						}

						it := (&Spec{Files: t.files, Ins: &in}).item(fmt.Sprintf("out|%s|%v|%d", t.name, es, c), "outputPath/"+t.name)
						it.Trace = tr.n

						return it
					})
				}
			}
		})
	}

	// errors: missing paths anywhere, a file name as outputPath of a directory
	for _, t := range trees {
		for pos := 0; pos < 3; pos++ {
			for _, bad := range []Ent{{Path: "nope.yaml"}, {Path: "nope"}, {Path: "m/nope/"}, {Path: "{{ROOT}}/nope/x.yaml"}, {Path: t.paths[0], Out: "f.yaml"}, {Path: t.paths[0], Out: "d/f.yml"}, {Path: t.paths[0], Out: "{{ROOT}}/d/f.txt"}} {
				for _, std := range []bool{true, false} {
					x.Do(func() *Item {
						ents := []Ent{{Path: t.paths[3]}, {Path: t.paths[1]}}
						p := min(pos, 2)
						ents = append(append(append([]Ent{}, ents[:p]...), bad), ents[p:]...)

						return (&Spec{Files: t.files, Ins: &Ins{Ents: ents}, Std: std}).item(fmt.Sprintf("err|%s|%d|%s|%s|%v", t.name, pos, bad.Path, bad.Out, std), "errors")
					})
				}
			}
		}

		for _, p := range []string{"nope", "nope.yaml", "./m/nope.yaml"} {
			x.Do(func() *Item {
				return (&Spec{Files: t.files, Path: p, Std: true}).item("err-p|"+t.name+"|"+p, "errors")
			})
		}
	}

	// names of every kind, and pairs of names that are alike
	odd := []string{"a", "A", "aa", "a ", " a", ".a", "a.", "a.a", "..a", "-a", "--", "~", "a~", "a*", "a?", "[a]", "{a}", "a\\", "a%20", "%s", "a a", "$a", "$HOME", "\u00e9", "e\u0301", "E\u0301", "s", "\u017f", "k", "\u212a", "#a", "a#", "a:b", "a: b", "'", "\"", "@", "a,b", "!a", "&a", "*", "|", "=", "null", "true", "1", "01", "1.0", "a.yaml", "a.yml", "a.YAML", "a\tb", "\u2028", strings.Repeat("n", 200)}

	for i, n1 := range odd {
		for j, n2 := range odd {
			for k := 0; k < 4; k++ {
				if i == j || !x.Thorough && (i+j+k)%2 == 0 && i > 1 && j > 1 && !strings.EqualFold(n1, n2) {
					continue
				}

				x.Do(func() *Item {
					var tr tracer

					f1, f2 := "m/"+n1+".yaml", "m/"+n2+".yaml"
					if k >= 2 {
						f1, f2 = "m/"+n1+"/x.yml", "m/"+n2+"/x.yml"
					}

					in := Ins{Common: tr.ovs(1)}
					if k%2 == 0 {
						in.Ents = []Ent{{Path: "m", Ovs: tr.ovs(1)}, {Path: f2, Ovs: tr.ovs(1)}}
					} else {
						in.Ents = []Ent{{Path: f1, Ovs: tr.ovs(1)}, {Path: "./" + f2, Ovs: tr.ovs(1)}, {Path: f1, Ovs: tr.ovs(1)}}
					}

					it := (&Spec{Files: map[string]string{"w/" + f1: d, "w/" + f2: logDocs(2)}, Ins: &in, Std: (i+j)%3 == 0}).item(fmt.Sprintf("names|%d|%d|%d", i, j, k), "names")
					it.Trace = tr.n

					return it
				})
			}
		}
	}

	// what is in a file does not decide whether it is processed
	tiny := []string{"", "\n", "a", "1", "~", "a:", "a:\n", "#c", "#c\n", "---", "---\n", "---\n---\n", "...\n", "{}", "[]", "''", "- ", "- 1", " ", "[", "a: b: c", "%YAML 1.1\n---\n1\n", "\ufeff", "\ufeffa: 1", "a: 1\n", "---\na: 1\n---\n"}

	seqs(len(tiny), 2, func(ts []int) {
		for k := 0; k < 6; k++ {
			x.Do(func() *Item {
				fs := map[string]string{"w/m/s/z.yml": d}
				for i, t := range ts {
					fs[fmt.Sprintf("w/m/%c.yaml", 'a'+i)] = tiny[t]
				}

				in := Ins{Ents: []Ent{{Path: "m"}}}

				switch k % 3 {
				case 1:
					in.Common = []Ov{replaceOv("$", "{x: 1}")}
				case 2:
					in.Ents = append([]Ent{{Path: "m/a.yaml", Docs: []DocEnt{{Path: 0, Ovs: []Ov{mergeOv("$", "{y: 1}")}}}}}, in.Ents...)
				}

				it := (&Spec{Files: fs, Ins: &in, Std: k < 3}).item(fmt.Sprintf("tiny|%v|%d", ts, k), "contents")
				it.Trace = 1

				return it
			})
		}
	})

	// files reached through symbolic links are files
	lt := tree{"links", map[string]string{"w/m/a.yaml": d, "w/m/s/b.yml": d, "w/m/s/c.txt": "not: [yaml", "w/m/s/t/d.yaml": d, "w/e.yaml": d}, []string{"m", "m/s", "m/a.yaml", "m/s/b.yml", "e.yaml", "{{ROOT}}/w/m/s/t"}}
	linked := sortedKeys(lt.files)

	for set := 1; set < 1<<len(linked); set++ {
		seqs(len(lt.paths), 2, func(es []int) {
			if len(es) == 0 || len(es) == 2 && !x.Thorough && (es[0]+es[1]+set)%3 != 0 {
				return
			}

			for _, std := range []bool{true, false} {
				for rel := 0; rel < 2; rel++ {
					x.Do(func() *Item {
						var tr tracer

						in := Ins{}
						for _, e := range es {
							in.Ents = append(in.Ents, Ent{Path: lt.paths[e], Ovs: tr.ovs(1)})
						}

						it := (&Spec{Files: lt.files, Ins: &in, Std: std}).item(fmt.Sprintf("links|%d|%v|%v|%d", set, es, std, rel), "links to files")
						it.Trace = tr.n

						fs := map[string]string{}
						it.Case.Symlinks = map[string]string{}

						for n, t := range it.Case.Files {
							at := -1

							for i, l := range linked {
								if l == n {
									at = i
								}
							}

							if at < 0 || set>>at&1 == 0 {
								fs[n] = t

								continue
							}

							store := fmt.Sprintf("store/%d.data", at)
							fs[store] = t
							it.Case.Symlinks[n] = "{{ROOT}}/" + store

							if rel == 1 {
								it.Case.Symlinks[n] = strings.Repeat("../", strings.Count(n, "/")) + store
							}
						}

						it.Case.Files = fs

						return it
					})
				}
			}
		})
	}

	for _, l := range []string{"m", "m/gone.yaml"} {
		x.Do(func() *Item {
			c := &Case{Files: map[string]string{"w/m/a.yaml": "a: 1\n", "w/i.yaml": "yamlFiles:\n- path: " + l + "\n"}, Symlinks: map[string]string{"w/m/gone.yaml": "nowhere"}, Args: []string{"-i", "i.yaml"}}
			e := Exp{Fail: true}

			return &Item{Key: "gone|" + l, Class: "links to files", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
		})
	}

	// a directory reached through a symbolic link is processed like the directory
	for _, l := range []string{"lnk", "./lnk", "lnk/", "{{ROOT}}/w/lnk"} {
		x.Do(func() *Item {
			c := &Case{Files: map[string]string{"w/m/a.yaml": "a: 1\n", "w/m/s/b.yaml": "b: 2\n", "w/i.yaml": "yamlFiles:\n- path: " + l + "\n"}, Symlinks: map[string]string{"w/lnk": "m"}, Args: []string{"-i", "i.yaml", "-s"}}
			e := Exp{Stdout: true, Docs: mustParseAll("a: 1\n---\nb: 2\n")}

			return &Item{Key: "symlink|" + l, Class: "symlink", Case: c, Verify: func(r *Result) string { return e.verify(c, r) }}
		})
	}
}

func exploreC15(x *X) {
	d := "v: 1\n"
	sets := []struct {
		name  string
		files []string
		ents  []string
	}{
		{"one", []string{"w/a.yaml"}, []string{"a.yaml"}},
		{"sub", []string{"w/m/a.yaml", "w/m/b.yaml"}, []string{"m/a.yaml", "m/b.yaml"}},
		{"same", []string{"w/m/a.yaml", "w/n/a.yaml"}, []string{"m/a.yaml", "n/a.yaml"}},
		{"prefix", []string{"w/m1/a.yaml", "w/m10/a.yaml", "w/m/1/a.yaml"}, []string{"m1/a.yaml", "m10/a.yaml", "m/1/a.yaml"}},
		{"prefix2", []string{"w/ma.yaml", "w/m/a.yaml", "w/mab.yaml"}, []string{"ma.yaml", "m/a.yaml", "mab.yaml"}},
		{"prefix3", []string{"w/m/a.yaml", "w/m/a.yml", "w/m/ab.yaml"}, []string{"m/a.yaml", "m/a.yml", "m/ab.yaml"}},
		{"deep", []string{"w/m/a.yaml", "w/m/s/a.yaml", "w/m/s/t/b.yml"}, []string{"m/a.yaml", "m/s/a.yaml", "m/s/t/b.yml"}},
		{"deep2", []string{"w/m/s/a.yaml", "w/m/s/t/a.yaml"}, []string{"m/s/t/a.yaml", "m/s/a.yaml"}},
		{"up", []string{"up/a.yaml", "w/a.yaml", "up2/q/a.yaml"}, []string{"../up/a.yaml", "a.yaml", "../up2/q/a.yaml"}},
		{"dir", []string{"w/m/a.yaml", "w/m/s/a.yaml", "w/n/a.yaml"}, []string{"m", "n"}},
		{"dir2", []string{"w/m/s/a.yaml", "w/m/s/t/a.yaml", "w/k/a.yaml"}, []string{"m", "k/a.yaml"}},
		{"noext", []string{"w/m/config", "w/m/x.conf", "w/a.yaml"}, []string{"m/config", "m/x.conf", "a.yaml"}},
		{"dots", []string{"w/m.d/a.yaml", "w/m.d/..b.yaml", "w/...c/a.yaml"}, []string{"m.d/a.yaml", "m.d/..b.yaml", "...c/a.yaml"}},
		{"dotdir", []string{"w/.a.yaml", "w/s/.a.yaml", "w/s/b.yaml"}, []string{"s", ".a.yaml"}},
		{"nested-same", []string{"w/m/m/m.yaml", "w/m/m.yaml"}, []string{"m/m/m.yaml", "m/m.yaml"}},
	}
	spells := []func(string) string{
		func(p string) string { return p },
		func(p string) string { return "./" + p },
		func(p string) string { return "{{ROOT}}/w/" + p },
		func(p string) string { return "{{ROOT}}//w/./" + p },
		func(p string) string { return "{{ROOT}}/w/zz/../" + p },
		func(p string) string { return "../w/" + p },
		func(p string) string { return strings.ReplaceAll(p, "/", "//") },
		func(p string) string { return "{{ROOT}}/home/../w/" + p },
	}
	outs := []string{"", "new.yaml", "e/new.yaml", "e", "e/f/", "{{ROOT}}/abs/x.yaml", "{{ROOT}}/absd", "../up9/x.yaml", "./e/./x.yaml", "e/../g/x.yml", "n.txt"}
	outDs := []string{"", "out", "out/deep/er", "{{ROOT}}/o2", ".", "../o3", "out/"}

	mk := func(si int, sp []int, out []int, od int, std bool, where int, rev bool) *Item {
		s := sets[si]
		fs := map[string]string{}

		for i, f := range s.files {
			fs[f] = fmt.Sprintf("v: %d\n", i) + d[:0]
		}

		var in Ins

		for i, e := range s.ents {
			p := e
			if where == 0 {
				p = spells[sp[i%len(sp)]](e)
			} else {
				p = "{{ROOT}}/w/" + e
			}

			in.Ents = append(in.Ents, Ent{Path: p, Out: outs[out[i%len(out)]], Ovs: []Ov{{Q: []string{"t"}, Act: "merge", Val: fmt.Sprint(i), HasV: true, OM: "inject"}}})
		}

		if rev {
			for i, j := 0, len(in.Ents)-1; i < j; i, j = i+1, j-1 {
				in.Ents[i], in.Ents[j] = in.Ents[j], in.Ents[i]
			}
		}

		spec := &Spec{Files: fs, Ins: &in, OutD: outDs[od], Std: std, InsAt: []string{"w/i.yaml", "w/conf/d/i.yaml", "far/i.yaml"}[where]}

		// directories named on the way must exist for relative spellings
		it := spec.item(fmt.Sprintf("place|%s|%v|%v|%d|%v|%d|%v", s.name, sp, out, od, std, where, rev), "set/"+s.name)
		it.Case.Dirs = append(it.Case.Dirs, "w/zz")

		return it
	}

	for si, s := range sets {
		n := len(s.ents)

		// all spellings for each entry
		tot := 1
		for i := 0; i < n; i++ {
			tot *= len(spells)
		}

		for c := 0; c < tot; c++ {
			if n == 3 && !x.Thorough && c%2 == 1 && c%7 != 0 {
				continue
			}

			x.Do(func() *Item {
				sp := make([]int, n)
				for i, k := 0, c; i < n; i++ {
					sp[i] = k % len(spells)
					k /= len(spells)
				}

				return mk(si, sp, []int{0}, 0, false, 0, c%2 == 0)
			})
		}

		// all outputPaths for each entry
		tot = 1
		for i := 0; i < n; i++ {
			tot *= len(outs)
		}

		for c := 0; c < tot; c++ {
			x.Do(func() *Item {
				out := make([]int, n)
				for i, k := 0, c; i < n; i++ {
					out[i] = k % len(outs)
					k /= len(outs)
				}

				return mk(si, []int{c % len(spells)}, out, (c/3)%len(outDs), false, 0, c%3 == 0)
			})
		}

		// output directories, instructions locations, stdout
		for od := range outDs {
			for where := 0; where < 3; where++ {
				for o := range outs {
					for _, std := range []bool{false, true} {
						x.Do(func() *Item { return mk(si, []int{0}, []int{o, 0}, od, std, where, false) })
						x.Do(func() *Item { return mk(si, []int{0}, []int{0, o}, od, std, where, true) })
					}
				}
			}
		}
	}

	// every outputPath of up to three names
	elems := []string{"e", "e.d", ".", "..", ".h", "e.", "n.yaml", "v1.2", "..x", "a b", "é.ü"}
	n := 2

	if x.Thorough {
		n = 3
	}

	seqs(len(elems), n, func(es []int) {
		for _, pre := range []string{"", "./", "{{ROOT}}/abs/d/e/f/", "../"} {
			for _, post := range []string{"", "/", "//", "/./"} {
				for si, s := range sets {
					if len(es) == 0 && pre == "" || len(es) > 1 && (si+es[0]+es[1])%4 != 0 || len(es) > 2 && (es[2]+len(post)+si)%5 != 0 {
						continue
					}

					var p []string
					for _, e := range es {
						p = append(p, elems[e])
					}

					out := pre + strings.Join(p, "/") + post

					x.Do(func() *Item {
						fs := map[string]string{}
						for i, f := range s.files {
							fs[f] = fmt.Sprintf("v: %d\n", i)
						}

						in := Ins{}
						for i, e := range s.ents {
							en := Ent{Path: e}
							if (i+len(pre)+len(post))%len(s.ents) == 0 {
								en.Out = out
							}

							in.Ents = append(in.Ents, en)
						}

						it := (&Spec{Files: fs, Ins: &in, OutD: "out/p/q/r/s"}).item(fmt.Sprintf("elems|%s|%s", s.name, out), "names in outputPath")

						return it
					})

					x.Do(func() *Item {
						fs := map[string]string{}
						for i, f := range s.files {
							fs[f] = fmt.Sprintf("v: %d\n", i)
						}

						in := Ins{}
						for _, e := range s.ents {
							in.Ents = append(in.Ents, Ent{Path: e})
						}

						return (&Spec{Files: fs, Ins: &in, OutD: map[bool]string{true: "", false: "b/c/d/e/f/"}[strings.HasPrefix(out, "{{")] + out}).item(fmt.Sprintf("elemd|%s|%s", s.name, out), "names in the output directory")
					})
				}
			}
		}
	})

	// source files in directories of every name, below a common one
	dirs := []string{"a", ".h", "..h", "a.b", "x.yaml", "a b", "é", "...", "ab", ".", "output", "A", "É"}
	rest := append([]string{""}, dirs...)

	seqs(len(dirs), 2, func(top []int) {
		for i, r1 := range rest {
			for j, r2 := range rest {
				if len(top) == 2 && !x.Thorough && (top[0]+top[1]+i+2*j)%3 != 0 && r1 != "" {
					continue
				}

				x.Do(func() *Item {
					base := ""
					for _, t := range top {
						base += dirs[t] + "/"
					}

					fs := map[string]string{}
					in := Ins{}

					for k, r := range []string{r1, r2} {
						f := base + r + fmt.Sprintf("/f%d.yaml", k)
						fs[path.Clean("w/"+f)] = fmt.Sprintf("v: %d\n", k)
						in.Ents = append(in.Ents, Ent{Path: f})
					}

					if i == j && path.Clean(base+r1) != "." {
						in.Ents = []Ent{{Path: base + r1}}
					}

					return (&Spec{Files: fs, Ins: &in}).item(fmt.Sprintf("dirs|%v|%d|%d", top, i, j), "names of source directories")
				})
			}
		}
	})

	// files that end up empty produce no output at all
	for mask := 0; mask < 8; mask++ {
		for od := range outDs {
			x.Do(func() *Item {
				fs := map[string]string{}

				var in Ins

				for i, f := range []string{"a", "b", "c"} {
					fs["w/m/"+f+".yaml"] = "v: 1\n"
					e := Ent{Path: "m/" + f + ".yaml"}

					if mask>>i&1 == 1 {
						e.Ovs = []Ov{deleteOv("$")}
					}

					in.Ents = append(in.Ents, e)
				}

				return (&Spec{Files: fs, Ins: &in, OutD: outDs[od]}).item(fmt.Sprintf("gone|%d|%d", mask, od), "empty")
			})
		}
	}

	// existing longer outputs are replaced, not patched
	for _, old := range []string{"v: 1\n", strings.Repeat("long: line\n", 400), "---\n", "a: 1\n---\nb: 2\n"} {
		for _, o := range []string{"", "e/f.yaml", "e"} {
			x.Do(func() *Item {
				sp := &Spec{Files: map[string]string{"w/m/a.yaml": "v: 1\n"}, Ins: &Ins{Ents: []Ent{{Path: "m/a.yaml", Out: o}}}}
				it := sp.item(fmt.Sprintf("over|%d|%s", len(old), o), "overwrite")
				e, _ := sp.predict()

				for f := range e.Files {
					it.Case.Files[f] = old
				}

				return it
			})
		}
	}
}

func init() {
	register(&Check{ID: "C02", Level: "model_checking", Explore: exploreC02,
		Rule:   "every sequence of up to 3 (thorough 4) instruction entries over files, directories and respellings x common overlays x command-line overlay/path x documents shapes; every overlay appends a unique mark, so each document shows its exact overlay sequence; all documentIndex pairs; 0-3 overlays at every level; up to 1025 documents, entries and indices; files of up to 3 (4) documents of every kind, selected by every position; entries for standard input among files",
		Assume: []string{"combine appends (C07)"}})
	register(&Check{ID: "C16", Level: "model_checking", Explore: exploreC16,
		Rule:   "every sequence of up to 3 entries over directories, files and respellings of 4 directory trees x outputPath assignments x overlays/documents; all error positions; every subset of files being links; 48 names in pairs; every entry with and without overlays; files of every short content in pairs",
		Assume: []string{"files below a directory are processed in file-name order"}})
	register(&Check{ID: "C15", Level: "model_checking", Explore: exploreC15,
		Rule: "15 file layouts x all path spellings per entry x all outputPath forms per entry x output directories x instruction locations; the complete sandbox is compared afterwards; outputPaths and output directories of up to 2 (3) names; sources in directories of every name; no file or directory but the outputs appears"})
}
