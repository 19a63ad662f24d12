//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// crashItem is a run of which only termination, and a message with a failure, are required.
func crashItem(key, class string, c *Case) *Item {
	return &Item{Key: key, Class: class, Case: c, Verify: func(r *Result) string {
		if r.Exit != 0 && strings.TrimSpace(r.Stderr) == "" {
			return fmt.Sprintf("exit status %d without a message", r.Exit)
		}

		return ""
	}}
}

// yamlLines are lines from which YAML texts are put together.
var yamlLines = []string{
	"a:", "a: b", "- ", "- x", "-", "  - x", "  b: c", "  - ", "", "# c", "  # c", "    # c", "- # c", "a: # c", "a: b # c", "- - x", "- a: b", "? a", ": b", "? ", "[", "]", "{a: [", "}", "a: |", " x", ">-", "---", "--- # c", "...", "%YAML 1.1",
	"\tx", "*a", "- *a", "&a", "a: &a", "b: &a {c: *a}", "<<: *a", "<<: [*a, 1]", "<<: 1", "!!str", "- !t", "!!binary", "!!int x", "\"", "'", "a: \"", "\xff", "\ufeff", "a: 1\x00", "a: null", "null", "~: ~", "? [a]", "a: {", ",", "# c\n\n# d", "a: b\n\n\n# c\n", "@", "`", "%", "a: b: c", "'a': 'b'",
	"- @", "- \"", "a: @", "? @", "- [", "- *zz", "- - @", "  - @", "- a: @",
}

// oddDocs are documents unlike what overlays expect.
var oddDocs = []string{
	"", "\n", "# only\n", "~\n", "null\n", "--- \n---\n", "---\n...\n---\n", "x\n", "1\n", "''\n", "[]\n", "{}\n", "- a\n- [b]\n- {c: d}\n", "a: 1\n", "a:\n", "a: ~\nl: ~\nm: ~\ns: ~\n", "a: [1]\nl: {x: y}\nm: s\ns: {t: u}\n",
	"a: &x {b: 1}\nl: [*x, *x]\nm: *x\ns: s\n", "a: &x [*x]\n", "a: &x {b: *x}\nl: *x\n", "&r {a: *r}\n", "&r [*r, *r]\n", "a: &x 1\n*x : 2\n", "base: &b {p: 1}\na:\n  <<: *b\n  q: 2\nl:\n- <<: [*b, *b]\n", "<<: {a: 1}\n", "? {a: 1}\n: {b: 2}\n? [x]\n: y\n",
	"a: !!binary aGk=\ns: !!set {x}\nm: !!omap [a: 1]\nl: !c [x]\n", "a: 1\na: 2\n", "# h\na: # l\n  # hb\n  b: 1 # lb\n  # fb\n\n# f\nl:\n# x\n- 1\n# y\n- 2\n# z\n", "a: b\n---\n- c\n---\nd\n---\n---\n# e\n",
	"a: {b: {c: {d: {e: f}}}}\nl: [[[[1]]]]\nm: {k: v}\ns: txt\n",
}

const odds = "a: {b: {c: 1}}\nl: [1, {n: x}, [2]]\nm: {k: v, n: 1}\ns: txt\nn: 1\nt: true\nz: ~\n"

func exploreC21(x *X) {
	failingPlaces(x, 7, 5)

	ovLines := "- query: [a, \"a.b\", \"l[*]\", \"..x\"]\n  action: %s\n  value: %s\n"
	overlays := []string{
		fmt.Sprintf(ovLines, "merge", "{q: [1], b: {z: 2}} # c") + "- query: zz.y\n  value: v # c\n  onMissing: {action: inject}\n- query: \"$..q\"\n  action: replace\n  value: {r: 1}\n",
		fmt.Sprintf(ovLines, "merge", "[1, {a: b}]") + "- query: $\n  value: {new: 1}\n- query: \"$[*]\"\n  action: delete\n",
		fmt.Sprintf(ovLines, "replace", "'%v'") + "- query: \"a~\"\n  action: merge\n  value: \"%v{x}\"\n- query: $\n  action: delete\n- query: $\n  value: {again: 1}\n",
		"- query: ..*\n  action: combine\n  value: s\n",
		"",
	}

	// 1. texts of every few lines: as an input (with different overlays), as values, as the value of an overlay
	n := 2
	if x.Thorough {
		n = 3
	}

	texts := func(n int, f func(key, text string)) {
		seqs(len(yamlLines), n, func(s []int) {
			var b strings.Builder

			for _, k := range s {
				b.WriteString(yamlLines[k] + "\n")
			}

			f(fmt.Sprint(s), b.String())
		})
	}

	ins := func(common string) string {
		s := ""
		if common != "" {
			s = "commonOverlays:\n" + common
		}

		return s + "yamlFiles:\n- path: a.yaml\n"
	}

	modes := [][]string{{"-s"}, {"-s", "-S", "flow"}, {"-s", "-S", "t,dq"}, {"-s", "-S", "literal"}, {"-s", "--remove-comments"}}

	texts(n, func(key, text string) {
		for o := range overlays {
			x.Do(func() *Item {
				return crashItem(fmt.Sprintf("input|%s|%d", key, o), "input text", &Case{Files: map[string]string{"w/i.yaml": ins(overlays[o]), "w/a.yaml": text}, Args: append([]string{"-i", "i.yaml"}, modes[o]...)})
			})
		}

		x.Do(func() *Item {
			return crashItem("values|"+key, "values text", &Case{Files: map[string]string{"w/i.yaml": "yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: a\n    value: \"{{ . }}\"\n", "w/a.yaml": odds, "w/v.yaml": text, "w/u.yaml": "a: {b: 1}\n"}, Args: []string{"-i", "i.yaml", "-f", "v.yaml", "-f", "u.yaml", "-f", "v.yaml", "-s"}})
		})

		x.Do(func() *Item {
			return crashItem("flag|"+key, "overlay value text", &Case{Files: map[string]string{"w/a.yaml": odds}, Args: []string{"-p", "a.yaml", "-q", "a", "-q", "l", "-q", "s", "-a", "merge", "-s", "-x", strings.ReplaceAll(text, "\x00", "")}})
		})

		x.Do(func() *Item {
			return crashItem("instructions|"+key, "instructions text", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": text}, Args: []string{"-i", "i.yaml", "-s"}})
		})

		x.Do(func() *Item {
			return crashItem("overlayvalue|"+key, "overlay value text", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": "yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: [a, l, s, zz]\n    onMissing: {action: inject}\n    value:\n" + indentText(text, 6) + "\n"}, Args: []string{"-i", "i.yaml", "-s"}})
		})

		x.Do(func() *Item {
			return crashItem("config|"+key, "config text", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": ins(""), "w/c.yaml": text}, Args: []string{"-i", "i.yaml", "-s", "--config", "c.yaml"}})
		})
	})

	// comments around empty entries, one level deeper
	cl := []string{"- ", "-", "- # c", "# c", "  # c", "  - ", "  - # d", "a:", "a: # c", "  b:", "", "  - x # d", "    # e", "- @", "  - \""}
	depth := 4

	if x.Thorough {
		depth = 5
	}

	seqs(len(cl), depth, func(s []int) {
		x.Do(func() *Item {
			var b strings.Builder

			for _, k := range s {
				b.WriteString(cl[k] + "\n")
			}

			return crashItem("comments|"+fmt.Sprint(s), "comment text", &Case{Files: map[string]string{"w/a.yaml": b.String()}, Args: []string{"-p", "a.yaml", "-q", "[0]", "-q", "a", "-x", "{n: 1} # v", "-s"}})
		})
	})

	// 2. query paths of every few tokens: as query, injectPath, documentQuery
	qt := []string{"a", "b", "l", ".", "..", "[", "]", "*", "0", "-1", ":", ",", "'", "\"", "?", "(", ")", "@", "==", "$", "~", "&&", "!", "=~", "/a/", " ", "%", "\\", "é", "1.5", ">", "~~"}
	n = 3

	seqs(len(qt), n, func(s []int) {
		if !x.Thorough && len(s) == 3 && (s[0]*31+s[1]*17+s[2])%3 == 0 && s[0] != 5 && s[1] != 14 {
			return
		}

		q := ""
		for _, k := range s {
			q += qt[k]
		}

		x.Do(func() *Item {
			return crashItem("query|"+q, "query path", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": fmt.Sprintf("yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: %s\n    value: {v: 1}\n    onMissing: {action: inject}\n  - query: [%[1]s, a]\n    action: delete\n", dq(q))}, Args: []string{"-i", "i.yaml", "-s"}})
		})
		x.Do(func() *Item {
			return crashItem("inject|"+q, "inject path", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": fmt.Sprintf("yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: zz[?(@.x)]\n    value: {v: 1}\n    onMissing: {action: inject, injectPath: %s}\n", dq(q))}, Args: []string{"-i", "i.yaml", "-s"}})
		})
	})

	// brackets and filters, deeper, within a fixed frame
	for fi, frame := range []string{"l[?(%s)]", "l[%s]", "a.b%s", "$..%s", "a['%s']", "l[?(@.n %s)]"} {
		seqs(len(qt), 2, func(s []int) {
			q := fmt.Sprintf(frame, qt[s[0]]+func() string {
				if len(s) > 1 {
					return qt[s[1]]
				}

				return ""
			}())

			x.Do(func() *Item {
				return crashItem(fmt.Sprintf("frame|%d|%s", fi, q), "framed query", &Case{Files: map[string]string{"w/a.yaml": odds}, Args: []string{"-p", "a.yaml", "-q", q, "-x", "{v: 1}", "-s", "--default-on-missing-action", "inject"}})
			})
			x.Do(func() *Item {
				return crashItem(fmt.Sprintf("dq|%d|%s", fi, q), "document query", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": fmt.Sprintf("yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: a\n    value: {v: 1}\n    documentQuery:\n    - conditions:\n      - {query: %s, value: 1}\n", dq(q))}, Args: []string{"-i", "i.yaml", "-s"}})
			})
		})
	}

	// 3. markers and sed expressions of every few tokens
	mt := []string{"%v", "%k", "%l", "%h", "%f", "%", "{", "}", "s", "/", "a", "(", "\\", "[", ",", ";", "1", "$", "g", "p", "d", "%v{s/a/b/}", "%v{"}
	seqs(len(mt), 3, func(s []int) {
		if !x.Thorough && len(s) == 3 && s[0] != 0 && s[0] < 20 {
			return
		}

		m := ""
		for _, k := range s {
			m += mt[k]
		}

		x.Do(func() *Item {
			return crashItem("marker|"+m, "marker", &Case{Files: map[string]string{"w/a.yaml": "s: txt # c\n" + odds[strings.Index(odds, "n: 1\nt"):], "w/i.yaml": fmt.Sprintf("yamlFiles:\n- path: a.yaml\n  overlays:\n  - query: [s, \"s~\", n, z]\n    action: merge\n    value: %s # %s\n  - query: t\n    value: {%[1]s: %[1]s}\n", dq(m), strings.ReplaceAll(m, "%k", ""))}, Args: []string{"-i", "i.yaml", "-s"}})
		})
	})

	// 4. each field of the instructions given each of unusual values, over unusual documents
	vals := []string{"", "~", "''", "x", "0", "-1", "99999999999999999999", "1.5", "true", "[]", "{}", "[~]", "['']", "[x]", "[0, -1]", "[[x]]", "{a: b}", "[{}]", "[{a: b}]", "{action: ~}", "[{conditions: ~}]", "[{conditions: []}]", "[{conditions: [~]}]", "[{conditions: [{}]}]", "[{conditions: [{query: a}]}]", "[{conditions: [{value: a}]}]", "[{conditions: {query: a}}]", "{action: inject}", "{action: inject, injectPath: ~}", "{action: inject, injectPath: []}", "{action: inject, injectPath: ['', ~]}", "{injectPath: zz}", "!!binary x", "!t y", "&x y", "&x [*x]", "*x", "$", "..*", "a", "\"%v\"", "2001-01-01", ".nan", "\"\\0\"", "/", ".", "a.yaml", "'-'", "inject", "merge", "delete", "combine", "|\n        text\n        more"}
	fields := []string{"query", "action", "value", "name", "documentIndex", "documentQuery", "onMissing"}
	base := map[string]string{"query": "a", "value": "{v: 1}"}

	entry := func(set map[string]string) string {
		b := "yamlFiles:\n- path: a.yaml\n  overlays:\n  - name: n\n"

		for _, f := range fields {
			v, ok := set[f]
			if !ok {
				v, ok = base[f]
			}

			if ok && f != "name" {
				b += "    " + f + ": " + v + "\n"
			}
		}

		return b
	}

	docs := strings.Join(oddDocs[:1], "")
	_ = docs

	for _, f := range fields {
		for vi, v := range vals {
			for di, d := range oddDocs {
				if !x.Thorough && di%4 != vi%4 && di != len(oddDocs)-1 {
					continue
				}

				for a := 0; a < 4; a++ {
					set := map[string]string{f: v}
					if f != "action" && a > 0 {
						set["action"] = []string{"", "replace", "delete", "combine"}[a]
					} else if f == "action" && a > 0 {
						continue
					}

					x.Do(func() *Item {
						return crashItem(fmt.Sprintf("field|%s|%d|%d|%d", f, vi, di, a), "field value", &Case{Files: map[string]string{"w/a.yaml": d, "w/i.yaml": entry(set)}, Args: []string{"-i", "i.yaml", "-s"}})
					})
				}
			}
		}
	}

	// pairs of fields
	for i, f := range fields {
		for _, g := range fields[i+1:] {
			for vi, v := range vals {
				for wi, w := range vals {
					if !x.Thorough && (vi+wi)%5 != 0 {
						continue
					}

					x.Do(func() *Item {
						return crashItem(fmt.Sprintf("fields|%s|%d|%s|%d", f, vi, g, wi), "pair of fields", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": entry(map[string]string{f: v, g: w})}, Args: []string{"-i", "i.yaml", "-s"}})
					})
				}
			}
		}
	}

	// all values of onMissing where nothing is found
	oms := append([]string{"{action: inject, injectPath: ['a[0]', b]}", "{action: inject, injectPath: '..x'}", "{action: inject, injectPath: [p, ['q']]}", "{action: inject, injectPath: {a: b}}", "{action: ignore, injectPath: []}", "{action: default, injectPath: []}", "{action: [inject]}", "{action: INJECT, injectPath: []}", "{injectPath: []}", "{action: inject, injectPath: ''}", "{action: inject, injectPath: ['']}", "{action: inject, injectPath: ['$']}", "{action: inject, injectPath: [~]}", "{action: inject, injectPath: [a.b.c, l.x, s.t]}"}, vals...)

	for qi, q := range []string{"..nothing", "nothing", "nothing[0]", "a[?(@.nothing)]", "nothing~", "['no','thing']", "l[*].nothing", "nothing.*", "''", "~", "[]", "['..nothing', nothing]", "$.nothing", "s.nothing", "l.nothing"} {
		for oi, om := range oms {
			for _, act := range []string{"merge", "replace", "delete", "combine"} {
				for vi, v := range []string{"{v: 1}", "~", "", "[1]"} {
					x.Do(func() *Item {
						set := map[string]string{"query": q, "onMissing": om, "action": act, "value": v}
						it := crashItem(fmt.Sprintf("missing|%d|%d|%s|%d", qi, oi, act, vi), "onMissing", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": entry(set)}, Args: []string{"-i", "i.yaml", "-s"}})

						if (qi+oi+vi)%2 == 0 {
							it.Case.Args = append(it.Case.Args, "--default-on-missing-action=inject")
						}

						return it
					})
				}
			}
		}
	}

	// the rest of the instructions
	frames := []string{
		"%s", "commonOverlays: %s", "yamlFiles: %s", "commonOverlays: %s\nyamlFiles: [{path: a.yaml}]", "commonOverlays: [%s]\nyamlFiles: [{path: a.yaml}]", "yamlFiles:\n- %s", "yamlFiles:\n- path: %s", "yamlFiles:\n- path: a.yaml\n- %s", "yamlFiles:\n- path: a.yaml\n  outputPath: %s",
		"yamlFiles:\n- path: a.yaml\n  overlays: %s", "yamlFiles:\n- path: a.yaml\n  overlays: [%s]", "yamlFiles:\n- path: a.yaml\n  documents: %s", "yamlFiles:\n- path: a.yaml\n  documents: [%s]", "yamlFiles:\n- path: a.yaml\n  documents: [{path: %s}]", "yamlFiles:\n- path: a.yaml\n  documents: [{overlays: %s}]", "yamlFiles:\n- path: a.yaml\n  documents: [{path: 0, overlays: [%s]}]",
		"yamlFiles:\n- name: %s\n  path: a.yaml", "other: %s\nyamlFiles: [{path: a.yaml}]", "yamlFiles: [{path: a.yaml, other: %s}]", "yamlFiles: [{path: a.yaml, overlays: [{query: a, other: %s}]}]", "yamlFiles: [{path: a.yaml, overlays: [{query: a, onMissing: {action: %s}}]}]", "yamlFiles: [{path: a.yaml, overlays: [{query: zz, value: 1, onMissing: {action: inject, injectPath: %s}}]}]",
		"yamlFiles: [{path: a.yaml, overlays: [{query: a, documentQuery: %s}]}]", "yamlFiles: [{path: a.yaml, overlays: [{query: a, documentQuery: [{conditions: %s}]}]}]", "yamlFiles: [{path: a.yaml, overlays: [{query: a, value: x, documentQuery: [{conditions: [{query: %s}]}]}]}]", "yamlFiles: [{path: a.yaml, overlays: [{query: a, value: x, documentQuery: [{conditions: [{query: a, value: %s}]}]}]}]",
	}

	for fi, f := range frames {
		for vi, v := range vals {
			for o := 0; o < 2; o++ {
				x.Do(func() *Item {
					c := &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": strings.ReplaceAll(f, "%s", v) + "\n"}, Args: []string{"-i", "i.yaml"}}
					if o == 1 {
						c.Args = append(c.Args, "-s", "-q", "a", "-x", "1")
					}

					return crashItem(fmt.Sprintf("frame|%d|%d|%d", fi, vi, o), "instructions field", c)
				})
			}
		}
	}

	// 5. every history of two (three) overlays over unusual documents
	hist := []string{
		"{query: $, action: delete}", "{query: a, action: delete}", "{query: \"a~\", action: delete}", "{query: \"l[*]\", action: delete}", "{query: \"..*\", action: delete}", "{query: $, value: ~, action: replace}", "{query: $, value: [1], action: replace}", "{query: $, value: x, action: replace}", "{query: $, value: {a: 1}}", "{query: a}", "{query: a, value: ~}", "{query: a, value: {b: 2}}", "{query: a, value: [3]}",
		"{query: \"..*\", value: {n: 1}}", "{query: \"l[0]\", action: replace, value: [x]}", "{query: s, action: combine, value: t}", "{query: zz.y, value: 1, onMissing: {action: inject}}", "{query: \"zz[0]\", value: 1, onMissing: {action: inject, injectPath: [p.q, p]}}", "{query: \"*~\", value: k}", "{query: a, value: &x {c: [1]}}", "{value: 1}", "{query: \"\", action: delete}", "{query: [a, a.b, \"$\"], action: delete}", "{query: \"a.b\", value: {<<: {q: 1}}}", "{query: a.b, action: replace}", "{query: z.x.y, value: 1, onMissing: {action: inject}}",
	}

	seqs(len(hist), 2, func(s []int) {
		for di, d := range append(append([]string{}, oddDocs...), odds) {
			if !x.Thorough && (s[0]+di)%3 == 0 {
				continue
			}

			x.Do(func() *Item {
				t := "yamlFiles:\n- path: a.yaml\n  overlays:\n"
				for _, k := range s {
					t += "  - " + hist[k] + "\n"
				}

				return crashItem(fmt.Sprintf("hist|%v|%d", s, di), "history", &Case{Files: map[string]string{"w/a.yaml": d, "w/i.yaml": t}, Args: []string{"-i", "i.yaml", "-s"}})
			})
		}
	})

	if x.Thorough {
		seqs(len(hist), 3, func(s []int) {
			if len(s) < 3 {
				return
			}

			x.Do(func() *Item {
				t := "yamlFiles:\n- path: a.yaml\n  overlays:\n"
				for _, k := range s {
					t += "  - " + hist[k] + "\n"
				}

				return crashItem(fmt.Sprintf("hist3|%v", s), "history", &Case{Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": t}, Args: []string{"-i", "i.yaml", "-s"}})
			})
		})
	}

	// 6. options, environment and configuration
	flags := []string{"-i", "-f", "-o", "-p", "-q", "-a", "-x", "-S", "-I", "-v", "--config", "--default-on-missing-action", "--stdout", "--remove-comments", "--log-level", "--indent-level"}
	fvals := []string{"", "=", "x", "0", "-1", "9", "99", "99999999999999999999", "true", "-", "--", ".", "/", "a.yaml", "i.yaml", "nosuch", "/dev/null", "~", "*", "[", "%", "\n", "\xff", "x,y", "flow,literal", strings.Repeat("x", 300), "sub"}

	for _, f := range flags {
		for vi, v := range fvals {
			for o := 0; o < 3; o++ {
				for form := 0; form < 2; form++ {
					x.Do(func() *Item {
						args := [][]string{{"-i", "i.yaml"}, {"-p", "a.yaml", "-q", "a", "-x", "1"}, {}}[o]
						opt := []string{f, v}

						if form == 1 {
							opt = []string{f + "=" + v}
						}

						return crashItem(fmt.Sprintf("opt|%s|%d|%d|%d", f, vi, o, form), "option", &Case{Dirs: []string{"w/sub"}, Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": ins(overlays[0])}, Args: append(append([]string{}, args...), opt...), Stdin: &docs})
					})
				}
			}
		}
	}

	names := map[string]string{"YOT_CONFIG_FILE": "configFile", "YOT_DEFAULT_ON_MISSING_ACTION": "defaultOnMissingAction", "YOT_INDENT_LEVEL": "indentLevel", "YOT_LOG_LEVEL": "logLevel", "YOT_OUTPUT_DIRECTORY": "outputDirectory", "YOT_OUTPUT_STYLE": "outputStyle", "YOT_REMOVE_COMMENTS": "removeComments", "YOT_STDOUT": "stdout"}
	for _, e := range sortedKeys(names) {
		for vi, v := range append(append([]string{}, fvals...), "[flow]", "[]", "{}", "{a: b}", "[1, [2]]", "&x [*x]") {
			for o := 0; o < 2; o++ {
				x.Do(func() *Item {
					c := &Case{Dirs: []string{"w/sub"}, Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": ins(overlays[0])}, Args: [][]string{{"-i", "i.yaml"}, {"env"}}[o], Env: map[string]string{e: v}}

					return crashItem(fmt.Sprintf("env|%s|%d|%d", e, vi, o), "environment", c)
				})
				x.Do(func() *Item {
					c := &Case{Dirs: []string{"w/sub"}, Files: map[string]string{"w/a.yaml": odds, "w/i.yaml": ins(overlays[0]), "w/c.yaml": names[e] + ": " + v + "\n"}, Args: [][]string{{"-i", "i.yaml", "--config", "c.yaml"}, {"env"}}[o], Env: map[string]string{"YOT_CONFIG_FILE": "c.yaml"}}

					return crashItem(fmt.Sprintf("cfg|%s|%d|%d", e, vi, o), "configuration", c)
				})
			}
		}
	}

	// 7. aliases expanding without bound, deep nesting, long texts: everywhere a document is read
	laughs := func(n, width int, open, close string) string {
		s := "a0: &a0 " + open + strings.Repeat("x,", width-1) + "x" + close + "\n"
		for i := 1; i < n; i++ {
			s += fmt.Sprintf("a%d: &a%d %s%s%s\n", i, i, open, strings.TrimSuffix(strings.Repeat(fmt.Sprintf("*a%d,", i-1), width), ","), close)
		}

		return s
	}
	big := map[string]string{
		"laughs2": laughs(30, 2, "[", "]"), "laughs9": laughs(9, 9, "[", "]"), "laughs40": laughs(60, 3, "[", "]"), "deepseq": strings.Repeat("[", 3000) + strings.Repeat("]", 3000) + "\n", "deepmap": strings.Repeat("{a: ", 3000) + "1" + strings.Repeat("}", 3000) + "\n", "deepopen": strings.Repeat("[", 9000) + "\n", "deeper": strings.Repeat("[", 12000) + strings.Repeat("]", 12000) + "\n",
		"long": "a: " + strings.Repeat("word ", 60000) + "\n", "dash": strings.Repeat("- ", 2000) + "x\n", "quest": strings.Repeat("? ", 300) + "x\n", "selfmap": "&x {*x : 1}\n", "selfkey": "&x ? *x\n", "selfdeep": "a: &x {b: &y [*x, {c: *y}]}\n", "mergeself": "a: &x\n  <<: *x\n", "mergeloop": "a: &x {<<: &y {<<: *x}}\n", "keys": strings.Repeat("k: 1\n", 500), "anchors": "a: &x 1\nb: &x [*x]\nc: &x [*x]\n", "crlf": "a: b\r\nc:\r\n- d\r\n", "cr": "a: b\rc: d\r", "utf16": "\xff\xfea\x00:\x00 \x001\x00\n\x00", "bom": "\ufeffa: 1\n", "nul": "a: \x00\n",
	}

	for _, k := range sortedKeys(big) {
		for o := range overlays {
			x.Do(func() *Item {
				return crashItem(fmt.Sprintf("big|input|%s|%d", k, o), "unbounded", &Case{Files: map[string]string{"w/i.yaml": ins(overlays[o]), "w/a.yaml": big[k]}, Args: append([]string{"-i", "i.yaml"}, modes[o]...)})
			})
		}

		for w, c := range []*Case{
			{Files: map[string]string{"w/i.yaml": "yamlFiles: [{path: a.yaml, overlays: [{query: a, value: {{ . }}}]}]\n", "w/v.yaml": big[k], "w/u.yaml": "a: {b: 1}\n"}, Args: []string{"-i", "i.yaml", "-f", "v.yaml", "-f", "u.yaml", "-s"}},
			{Files: map[string]string{"w/i.yaml": big[k]}, Args: []string{"-i", "i.yaml", "-s"}},
			{Files: map[string]string{"w/i.yaml": "x:\n" + indentText(big[k], 2) + "\nyamlFiles: [{path: a.yaml}]\n"}, Args: []string{"-i", "i.yaml", "-s"}},
			{Files: map[string]string{"w/i.yaml": "commonOverlays:\n- query: [a, l, s, zz]\n  onMissing: {action: inject}\n  value:\n" + indentText(big[k], 4) + "\nyamlFiles: [{path: a.yaml}]\n"}, Args: []string{"-i", "i.yaml", "-s"}},
			{Files: map[string]string{"w/i.yaml": "commonOverlays:\n- query: a\n  value: 1\n  documentQuery:\n  - conditions:\n    - query: a\n      value:\n" + indentText(big[k], 8) + "\nyamlFiles: [{path: a.yaml}]\n"}, Args: []string{"-i", "i.yaml", "-s"}},
			{Args: []string{"-p", "a.yaml", "-q", "a", "-s", "-x", strings.ReplaceAll(clip(big[k], 60000), "\x00", "")}},
			{Files: map[string]string{"w/c.yaml": big[k]}, Args: []string{"-p", "a.yaml", "-s", "--config", "c.yaml"}},
		} {
			if c.Files == nil {
				c.Files = map[string]string{}
			}

			c.Files["w/a.yaml"] = odds

			x.Do(func() *Item { return crashItem(fmt.Sprintf("big|%d|%s", w, k), "unbounded", c) })
		}
	}
}

func init() {
	register(&Check{
		ID: "C21", Level: "model_checking",
		Rule:    "every text of up to N lines over an alphabet of YAML lines as input, instructions, values, overlay value and configuration; every path of up to 3 tokens as query and inject path; every marker of up to 3 tokens; every field and pair of fields given each unusual value; every history of 2-3 overlays over unusual documents; every option and setting given each unusual value; unbounded aliases and nesting: each run ends, without a panic, and a failure comes with a message; one failing document at every place",
		Assume:  []string{"a run that takes longer than 20 s is taken to hang; each process may use 4 GB"},
		Explore: exploreC21,
	})
}
