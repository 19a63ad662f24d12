//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
)

// vmerge is the model of merging values: maps by key, arrays are appended,
// anything else is replaced.
func vmerge(o, n *N) *N {
	if o == nil || o.K != n.K || n.K == Sca {
		return n.clone()
	}

	r := o.clone()

	if n.K == Seq {
		r.C = append(r.C, n.clone().C...)

		return r
	}

	for i := 0; i+1 < len(n.C); i += 2 {
		found := false

		for j := 0; j+1 < len(r.C); j += 2 {
			if canon(r.C[j]) == canon(n.C[i]) {
				r.C[j+1] = vmerge(r.C[j+1], n.C[i+1])
				found = true
			}
		}

		if !found {
			r.C = append(r.C, n.C[i].clone(), n.C[i+1].clone())
		}
	}

	return r
}

// sorted orders the keys of all maps: values have no order.
func sorted(n *N) *N {
	n = n.clone()

	var walk func(n *N)

	walk = func(n *N) {
		for _, c := range n.C {
			walk(c)
		}

		if n.K != Map {
			return
		}

		idx := make([]int, len(n.C)/2)
		for i := range idx {
			idx[i] = i
		}

		sort.SliceStable(idx, func(a, b int) bool { return canon(n.C[2*idx[a]]) < canon(n.C[2*idx[b]]) })

		var out []*N
		for _, i := range idx {
			out = append(out, n.C[2*i], n.C[2*i+1])
		}

		n.C = out
	}

	walk(n)

	return n
}

// dumpTpl writes all values as YAML.
const dumpTpl = `{{ define "d" }}{{ if kindIs "map" . }}{ {{- range $k, $v := . }}? {{ template "d" $k }} : {{ template "d" $v }}, {{ end -}} }{{ else if kindIs "slice" . }}[{{ range . }}{{ template "d" . }}, {{ end }}]{{ else if kindIs "string" . }}{{ . | quote }}{{ else if kindIs "invalid" . }}null{{ else }}{{ . }}{{ end }}{{ end -}}
commonOverlays:
- query: out
  action: replace
  value: {{ template "d" . }}
yamlFiles:
- path: a.yaml
`

// valuesItem merges values files and looks at everything in them.
func valuesItem(key, class string, files []string) *Item {
	c := &Case{Files: map[string]string{"w/a.yaml": "out: 0\n", "w/i.yaml": dumpTpl}, Args: []string{"-i", "i.yaml", "-s"}}

	var want *N

	names := map[string]string{}

	for i, f := range files {
		n := names[f]
		if n == "" {
			n = fmt.Sprintf("v%d.yaml", i)
			names[f] = n
			c.Files["w/"+n] = f
		}

		c.Args = append(c.Args, "-f", n)

		v := mustParse(f)
		if i == 0 {
			want = v
		} else {
			want = vmerge(want, v)
		}
	}

	return &Item{Key: key, Class: class, Case: c, Trace: len(files), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		got, err := parseStream(r.Stdout)
		if err != nil || len(got) != 1 || got[0].get("out") == nil {
			return fmt.Sprintf("%v: %q", err, clip(r.Stdout, 500))
		}

		if g, w := canon(sorted(got[0].get("out"))), canon(sorted(want)); g != w {
			return fmt.Sprintf("the values are %s, expected %s", clip(g, 600), clip(w, 600))
		}

		return ""
	}}
}

var valuePool = []string{
	"1", "s", "{b: 1}", "[1]", "~", "{b: {c: 1}}", "{b: 2, c: [x]}", "[[1], {b: 1}]", "''", "{b: [2]}", "{}", "[]",
	"0", "2", "true", "false", "1.5", "-7", "t", "'1'", "[x, y]", "[~]", "{b: {c: 2, d: 3}}", "{b: ~}", "{c: {d: {e: {f: 1}}}}", "{c: {d: {e: {g: 2}}}}", "{1: x}", "{1: y, true: z}", "{'1': w}", "{b: {1: x}}", "{'': e, 'x.y': f}", "'%v'", "'{{ .a }}'", "'%k %h'", "\"q\\\"r\\n\\\\s\"", "{k%v: 1, '%k': 2}", "[{b: 1}, {b: 2}]", "{b: [{c: 1}]}", "9007199254740993", "-9223372036854775808", "18446744073709551615", "é😀",
}

// values files with anchors, aliases, merge keys, several lines and comments
var valueFiles = []string{
	"x: &x {b: 1}\na: *x\n", "x: &x {b: 2}\na: *x\n", "a: &x [1]\nz: *x\n", "a:\n  # h\n  b: 1 # l\n  # f\n", "---\na: {b: 5}\n", "a: |\n  t\n  u\n", "? a\n: b: 7\n", "{a: {b: 8}, c: {d: &y 9, e: *y}}\n", "z: 1\n", "a: {c: 3}\nz: {q: 1}\n", "a: 1\nb: 2\nc: 3\nd: 4\n", "d: 40\nc: 30\nb: 20\na: 10\n",
}

var valueTops = []string{"[1, 2]", "[3]", "s", "5", "[]", "{}", "{a: 1}", "[{a: 1}]", "~"}

type piece struct {
	src          string // template text
	val          string // what it renders to
	trimL, trimR bool
	lit          bool
}

const tplValues = "s: str\nn: 7\nt: true\nf: false\ne: ''\nl: [p, q]\nm: {k: deep, j: {i: er}}\nmix: [{k: 1}, {k: 2}]\nempty: []\n"

var tplPieces = []piece{
	{src: "lit", val: "lit", lit: true}, {src: " ", val: " ", lit: true}, {src: "}} { ${x} %", val: "}} { ${x} %", lit: true},
	{src: "{{ .s }}", val: "str"}, {src: "{{.n}}", val: "7"}, {src: "{{- .s -}}", val: "str", trimL: true, trimR: true}, {src: "{{ .m.j.i }}", val: "er"},
	{src: "{{ if .t }}yes{{ else }}no{{ end }}", val: "yes"}, {src: "{{ if .f }}yes{{ else if .e }}e{{ else }}no{{ end }}", val: "no"}, {src: "{{ range .l }}<{{ . }}>{{ end }}", val: "<p><q>"}, {src: "{{ range $i, $x := .mix }}{{ $i }}{{ $x.k }}{{ end }}", val: "0112"}, {src: "{{ range .empty }}x{{ else }}none{{ end }}", val: "none"},
	{src: "{{ with .m }}{{ .k }}{{ $.n }}{{ end }}", val: "deep7"}, {src: "{{/* note */}}", val: ""}, {src: "{{- /* note */ -}}", val: "", trimL: true, trimR: true}, {src: "{{ \"{{ .s }}\" }}", val: "{{ .s }}"}, {src: "{{ $v := .n }}{{ $v }}{{ $v = 3 }}{{ $v }}", val: "73"}, {src: "{{ index .l 1 }}", val: "q"}, {src: "{{ len .l }}", val: "2"}, {src: "{{ eq .s \"str\" }}", val: "true"}, {src: "{{ printf \"%03d|%s\" .n .s }}", val: "007|str"}, {src: "{{ and .t .n }}{{ or .f .s }}{{ not .f }}", val: "7strtrue"},
	{src: "{{ define \"T\" }}[{{ . }}]{{ end }}{{ template \"T\" .s }}", val: "[str]"}, {src: "{{ block \"B\" .n }}b{{ . }}{{ end }}", val: "b7"},
	{src: "{{ .s | upper | quote }}", val: "\"STR\""}, {src: "{{ default \"dflt\" .e }}", val: "dflt"}, {src: "{{ join \"-\" .l }}", val: "p-q"}, {src: "{{ add .n 1 }}", val: "8"}, {src: "{{ toJson .m }}", val: `{"j":{"i":"er"},"k":"deep"}`}, {src: "{{ .s | b64enc }}", val: "c3Ry"}, {src: "{{ $m := .m }}{{ $m.k }}", val: "deep"}, // values that are not there
	{src: "{{ default \"d\" .absent }}", val: "d"}, {src: "{{ if .m.absent }}y{{ else }}n{{ end }}", val: "n"}, {src: "{{ with .absent }}w{{ else }}o{{ end }}", val: "o"}, {src: "{{ range .absent }}x{{ else }}none{{ end }}", val: "none"}, {src: "{{ hasKey . \"absent\" }}{{ not .absent }}{{ empty .m.absent }}", val: "falsetruetrue"}, {src: "{{ coalesce .absent .s }}", val: "str"}, {src: "{{ .m.j.absent | default .n }}", val: "7"},
}

// sprigCalls are calls of sprig functions and what they return.
var sprigCalls = [][2]string{
	{`trim "  x "`, "x"}, {`trimAll "-" "-x-"`, "x"}, {`trimSuffix "b" "ab"`, "a"}, {`trimPrefix "a" "ab"`, "b"}, {`upper "ab"`, "AB"}, {`lower "AB"`, "ab"}, {`title "ab cd"`, "Ab Cd"}, {`untitle "Ab"`, "ab"}, {`repeat 3 "ab"`, "ababab"}, {`substr 1 3 "abcd"`, "bc"}, {`nospace "a b"`, "ab"}, {`trunc 2 "abc"`, "ab"}, {`trunc -2 "abc"`, "bc"}, {`abbrev 5 "hello world"`, "he..."}, {`initials "First Try"`, "FT"}, {`contains "b" "abc"`, "true"}, {`hasPrefix "a" "ab"`, "true"}, {`hasSuffix "a" "ab"`, "false"}, {`quote "a"`, "\"a\""}, {`squote "a"`, "'a'"}, {`cat "a" "b"`, "a b"}, {`replace "a" "b" "aa"`, "bb"}, {`plural "one" "many" 2`, "many"}, {`snakecase "FirstName"`, "first_name"}, {`camelcase "http_server"`, "HttpServer"}, {`kebabcase "FirstName"`, "first-name"}, {`swapcase "aB"`, "Ab"}, {`wrapWith 2 "-" "abcd"`, "ab-cd"}, {`regexMatch "^a+$" "aa"`, "true"}, {`regexFind "b+" "abbc"`, "bb"}, {`regexReplaceAll "a(x*)b" "axxb" "${1}W"`, "xxW"}, {`regexSplit "z+" "pizza" -1`, "[pi a]"},
	{`join "," (list 1 2)`, "1,2"}, {`splitList "," "a,b"`, "[a b]"}, {`(split "," "a,b")._1`, "b"}, {`sortAlpha (list "b" "a")`, "[a b]"}, {`add 1 2 3`, "6"}, {`add1 1`, "2"}, {`sub 3 1`, "2"}, {`mul 2 3`, "6"}, {`div 7 2`, "3"}, {`mod 7 2`, "1"}, {`max 1 3 2`, "3"}, {`min 3 1 2`, "1"}, {`floor 1.9`, "1"}, {`ceil 1.1`, "2"}, {`round 1.26 1`, "1.3"}, {`until 3`, "[0 1 2]"}, {`untilStep 0 6 2`, "[0 2 4]"}, {`seq 3`, "1 2 3"},
	{`default "d" ""`, "d"}, {`empty ""`, "true"}, {`coalesce "" 0 "x"`, "x"}, {`ternary "a" "b" true`, "a"}, {`toJson (dict "a" 1)`, `{"a":1}`}, {`(fromJson "{\"a\": 2}").a`, "2"}, {`b64enc "a"`, "YQ=="}, {`b64dec "YQ=="`, "a"}, {`b32enc "a"`, "ME======"}, {`first (list 1 2)`, "1"}, {`rest (list 1 2)`, "[2]"}, {`last (list 1 2)`, "2"}, {`initial (list 1 2)`, "[1]"}, {`append (list 1) 2`, "[1 2]"}, {`prepend (list 1) 2`, "[2 1]"}, {`concat (list 1) (list 2)`, "[1 2]"}, {`reverse (list 1 2)`, "[2 1]"}, {`uniq (list 1 1)`, "[1]"}, {`without (list 1 2) 1`, "[2]"}, {`has 1 (list 1)`, "true"}, {`compact (list "" "a")`, "[a]"}, {`slice (list 1 2 3) 1 2`, "[2]"},
	{`get (dict "a" 1) "a"`, "1"}, {`hasKey (dict "a" 1) "b"`, "false"}, {`keys (dict "a" 1)`, "[a]"}, {`values (dict "a" 1)`, "[1]"}, {`pluck "a" (dict "a" 1)`, "[1]"}, {`pick (dict "a" 1 "b" 2) "a"`, "map[a:1]"}, {`omit (dict "a" 1 "b" 2) "a"`, "map[b:2]"}, {`merge (dict "a" 1) (dict "b" 2)`, "map[a:1 b:2]"}, {`dig "a" "b" "d" (dict "a" (dict "b" 1))`, "1"}, {`set (dict) "a" 1`, "map[a:1]"}, {`unset (dict "a" 1) "a"`, "map[]"},
	{`atoi "12"`, "12"}, {`int "12"`, "12"}, {`int64 "12"`, "12"}, {`float64 "1.5"`, "1.5"}, {`toString 1`, "1"}, {`toStrings (list 1)`, "[1]"}, {`toDecimal "0777"`, "511"}, {`typeOf "a"`, "string"}, {`kindOf 1`, "int"}, {`kindIs "int" 1`, "true"}, {`typeIs "string" "a"`, "true"}, {`deepEqual (list 1) (list 1)`, "true"}, {`sha256sum "a"`, "ca978112ca1bbdcafac231b39a23dc4da786eff8147c4e72b9807785afee48bb"}, {`sha1sum "a"`, "86f7e437faa5a7fce15d1ddcb9eaeaea377667b8"}, {`adler32sum "a"`, "6422626"}, {`semverCompare ">=1.2" "1.3.0"`, "true"}, {`(semver "1.2.3").Minor`, "2"}, {`base "a/b"`, "b"}, {`dir "a/b"`, "a"}, {`clean "a/./b"`, "a/b"}, {`ext "a.b"`, ".b"}, {`isAbs "/a"`, "true"}, {`urlParse "http://h/p" | toJson | contains "http"`, "true"}, {`tuple 1 2`, "[1 2]"}, {`any "" 1`, "true"}, {`all "" 1`, "false"}, {`date "2006" (toDate "2006-01-02" "2021-05-06")`, "2021"}, {`hello`, "Hello!"}, {`env "YOT_T"`, "fromenv"}, {`expandenv "$YOT_T"`, "fromenv"}, {`len (randAlpha 5)`, "5"}, {`len uuidv4`, "36"}, {`nindent 2 "x" | trim`, "x"}, {`indent 2 "x"`, "  x"}, {`toPrettyJson (list)`, "[]"}, {`toRawJson "<"`, "\"<\""}, {`html "<"`, "&lt;"}, {`js "'"`, "\\'"}, {`urlquery "a b"`, "a+b"}, {`println "a" | trim`, "a"}, {`print 1 2`, "1 2"},
}

// rendered is what a sequence of pieces renders to.
func rendered(ps []piece) (src, want string) {
	var (
		text string // pending text
		trim bool   // the action before it trims
	)

	flush := func(trimEnd bool) {
		if trim {
			text = strings.TrimLeft(text, " \t\r\n")
		}

		if trimEnd {
			text = strings.TrimRight(text, " \t\r\n")
		}

		want += text
		text = ""
	}

	for _, p := range ps {
		src += p.src

		if p.lit {
			text += p.val

			continue
		}

		flush(p.trimL)

		want += p.val
		trim = p.trimR
	}

	flush(false)

	return src, want
}

// textItem checks values given as literal block scalars.
func textItem(key, class string, srcs, wants []string, verbatim bool) *Item {
	c := &Case{Files: map[string]string{"w/a.yaml": "a: 0\n"}, Args: []string{"-i", "i.yaml", "-s"}, Env: map[string]string{"YOT_T": "fromenv"}}

	var b strings.Builder

	b.WriteString("commonOverlays:\n- query: $\n  action: replace\n  value:\n")

	for _, s := range srcs {
		b.WriteString("  - |-\n    <" + s + ">\n")
	}

	b.WriteString("yamlFiles:\n- path: a.yaml\n")
	c.Files["w/i.yaml"] = b.String()

	want := srcs

	if !verbatim {
		c.Files["w/v.yaml"] = tplValues
		c.Args = append(c.Args, "-f", "v.yaml")
		want = wants
	}

	return &Item{Key: key, Class: class, Case: c, Trace: len(srcs), Verify: func(r *Result) string {
		if r.Exit != 0 {
			return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 300))
		}

		got, err := parseStream(r.Stdout)
		if err != nil || len(got) != 1 || len(got[0].C) != len(want) {
			return fmt.Sprintf("%v: %q", err, clip(r.Stdout, 500))
		}

		for i, n := range got[0].C {
			if n.V != "<"+want[i]+">" || n.Tag != "!!str" {
				return fmt.Sprintf("%q rendered as %q, expected %q", srcs[i], n.V, "<"+want[i]+">")
			}
		}

		return ""
	}}
}

// templated replaces scalars of an instructions file by references to values.
func templated(ins string, per int) (string, []string) {
	files := make([]string, per)
	n := 0

	var b strings.Builder

	for _, l := range strings.SplitAfter(ins, "\n") {
		i := strings.Index(l, ": ")
		v := strings.TrimSpace(l[i+1:])

		if i < 0 || v == "" || strings.ContainsAny(v, "{[|'\"") {
			b.WriteString(l)

			continue
		}

		files[n%per] += fmt.Sprintf("v%d: %s\n", n, v)
		b.WriteString(fmt.Sprintf("%s: {{ .v%d }}\n", l[:i], n))
		n++
	}

	return b.String(), files
}

func exploreC17(x *X) {
	// 1. merging
	small := 12
	mid := 26

	for i, v := range valuePool {
		x.Do(func() *Item {
			return valuesItem(fmt.Sprintf("one|%d", i), "one values file", []string{"a: " + v + "\nz: 1\n"})
		})

		for j, w := range valuePool {
			x.Do(func() *Item {
				return valuesItem(fmt.Sprintf("two|%d|%d", i, j), "two values files", []string{"a: " + v + "\ny: 1\n", "z: 2\na: " + w + "\n"})
			})
			x.Do(func() *Item {
				return valuesItem(fmt.Sprintf("deep|%d|%d", i, j), "two values files", []string{"r: {p: {a: " + v + ", y: 1}, o: 1}\n", "r: {p: {a: " + w + "}}\ns: 1\n"})
			})

			for k, u := range valuePool {
				if max(i, j, k) >= small && !(x.Thorough && max(i, j, k) < mid) && !(i < 5 && j < 5) {
					continue
				}

				x.Do(func() *Item {
					return valuesItem(fmt.Sprintf("three|%d|%d|%d", i, j, k), "three values files", []string{"a: " + v + "\n", "a: " + w + "\n", "a: " + u + "\n"})
				})
			}
		}
	}

	seqs(len(valueFiles), 3, func(ix []int) {
		x.Do(func() *Item {
			var fs []string
			for _, i := range ix {
				fs = append(fs, valueFiles[i])
			}

			return valuesItem(fmt.Sprint("files|", ix), "whole files", fs)
		})
	})

	seqs(len(valueTops), 3, func(ix []int) {
		x.Do(func() *Item {
			var fs []string
			for _, i := range ix {
				fs = append(fs, valueTops[i]+"\n")
			}

			return valuesItem(fmt.Sprint("tops|", ix), "any kind of values", fs)
		})
	})

	// many files: all subsets of keys, in order
	for m := 1; m < 1<<6; m++ {
		x.Do(func() *Item {
			var fs []string

			for i := 0; i < 6; i++ {
				if m&(1<<i) != 0 {
					fs = append(fs, fmt.Sprintf("k%d: %d\nk%d: %d\nl: [%d]\nm: {n: {k%d: %d, o: %d}}\n", i, i, (i+1)%6, i*10, i, i%2, i, i))
				}
			}

			return valuesItem(fmt.Sprint("many|", m), "many files", fs)
		})
	}

	// 2. rendering
	depth := 2
	if x.Thorough {
		depth = 3
	}

	seqs(len(tplPieces), depth, func(ix []int) {
		pre := append([]int{}, ix...)

		for _, verbatim := range []bool{false, true} {
			x.Do(func() *Item {
				var srcs, wants []string

				defined := map[string]bool{}

				for last := range tplPieces {
					var ps []piece

					dup := false

					for _, i := range append(append([]int{}, pre...), last) {
						p := tplPieces[i]
						ps = append(ps, p)

						if n := strings.Index(p.src, "define"); n >= 0 || strings.Contains(p.src, "block") {
							dup = dup || defined[p.src]
							defined[p.src] = true
						}
					}

					if dup && !verbatim {
						continue // a template may be defined once
					}

					s, w := rendered(ps)
					if strings.TrimSpace(s) != s || strings.TrimSpace(w) != w {
						// block scalars keep inner and trailing blanks as they are: "<" and ">" hold them
						_ = s
					}

					srcs = append(srcs, s)
					wants = append(wants, w)
				}

				return textItem(fmt.Sprintf("text|%v|%v", pre, verbatim), map[bool]string{true: "verbatim", false: "rendered"}[verbatim], srcs, wants, verbatim)
			})
		}
	})

	for i, sc := range sprigCalls {
		x.Do(func() *Item {
			return textItem(fmt.Sprintf("sprig|%d|%s", i, sc[0]), "functions", []string{"{{ " + sc[0] + " }}", "a{{ " + sc[0] + " | print }}b"}, []string{sc[1], "a" + sc[1] + "b"}, false)
		})
	}

	// 3. instructions written as templates: scalars taken from values
	ovs := []Ov{{Q: []string{"a"}, Val: "new", HasV: true}, {Q: []string{"b.c"}, Act: "delete"}, {Q: []string{"zz.y"}, Val: "5", HasV: true, OM: "inject"}, {Q: []string{"b"}, Act: "replace", Val: "true", HasV: true}, {Q: []string{"a"}, Act: "combine", Val: "more", HasV: true}}

	for per := 1; per <= 3; per++ {
		seqs(len(ovs), 2, func(ix []int) {
			var os []Ov
			for _, i := range ix {
				os = append(os, ovs[i])
			}

			for form := 0; form < 4; form++ {
				x.Do(func() *Item {
					sp := &Spec{Files: map[string]string{"w/a.yaml": "a: x\nb: {c: 1}\n---\na: y\n", "w/d/b.yaml": "b: {c: 2, d: 3}\na: z\n"}, Std: form&1 == 0}

					switch form / 2 {
					case 0:
						sp.Ins = &Ins{Common: os, Ents: []Ent{{Path: "a.yaml"}, {Path: "d"}}}
					case 1:
						sp.Ins = &Ins{Ents: []Ent{{Path: "a.yaml", Out: "o.yaml", Docs: []DocEnt{{Path: 1, Ovs: os}}}, {Path: "d/b.yaml", Ovs: os}}}
					}

					it := sp.item(fmt.Sprintf("ins|%d|%v|%d", per, ix, form), "instructions from values")
					tpl, files := templated(sp.Ins.text(), per)
					it.Case.Files["w/i.yaml"] = tpl

					for i, f := range files {
						it.Case.Files[fmt.Sprintf("w/v%d", i)] = f + "other: 1\n"
						it.Case.Args = append(it.Case.Args, []string{"-f", "--values-file"}[i%2], fmt.Sprintf("v%d", i))
					}

					return it
				})
			}
		})
	}

	// entries and overlays produced by loops and conditions
	for m := 0; m < 1<<4; m++ {
		for neg := 0; neg < 2; neg++ {
			x.Do(func() *Item {
				sp := &Spec{Files: map[string]string{}, Std: neg == 0, Ins: &Ins{}}
				vals := "common:\n"

				for i, t := range []string{"a", "b"} {
					if m&(1<<i) != 0 {
						vals += "- {q: " + t + ", v: V" + t + "}\n"
						sp.Ins.Common = append(sp.Ins.Common, Ov{Q: []string{t}, Val: "V" + t, HasV: true})
					}
				}

				vals += "files:\n- {name: a.yaml, del: " + fmt.Sprint(m&4 != 0) + "}\n- {name: b.yaml, del: " + fmt.Sprint(m&8 != 0) + "}\n"

				for i, f := range []string{"a.yaml", "b.yaml"} {
					sp.Files["w/"+f] = fmt.Sprintf("a: %d\nb: {c: %d}\nd: 1\n", i, i)
					e := Ent{Path: f}

					if m&(4<<i) != 0 {
						e.Ovs = []Ov{{Q: []string{"d"}, Act: "delete"}}
					}

					sp.Ins.Ents = append(sp.Ins.Ents, e)
				}

				it := sp.item(fmt.Sprintf("loop|%d|%d", m, neg), "loops")
				it.Case.Files["w/i.yaml"] = "commonOverlays:\n{{- range .common }}\n- query: {{ .q }}\n  value: {{ .v | quote }}\n{{- end }}\nyamlFiles:\n{{- range .files }}\n- path: {{ .name }}\n{{- if .del }}\n  overlays:\n  - {query: d, action: delete}\n{{- end }}\n{{- end }}\n"
				it.Case.Files["w/v.yaml"] = vals
				it.Case.Args = append(it.Case.Args, "-f", "v.yaml")

				return it
			})
		}
	}

	// 4. where the files are
	for li, loc := range []struct{ ins, ia, val, va string }{
		{"w/i.yaml", "i.yaml", "w/v.yaml", "v.yaml"}, {"w/sub/i.yaml", "sub/i.yaml", "w/v.yaml", "v.yaml"}, {"w/sub/i.yaml", "sub/i.yaml", "w/sub/v.yaml", "sub/v.yaml"}, {"x/i.yaml", "../x/i.yaml", "y/v.yaml", "../y/v.yaml"}, {"w/i.yaml", "{{ROOT}}/w/i.yaml", "y/v.yaml", "{{ROOT}}/y/v.yaml"}, {"w/sp ace/in s.tpl", "sp ace/in s.tpl", "w/va l,s", "va l,s"}, {"w/i.yaml", "./i.yaml", "w/i.yaml.yaml", "././i.yaml.yaml"}, {"w/sub/v.yaml", "sub/v.yaml", "w/v.yaml", "v.yaml"},
	} {
		for _, flag := range []string{"-f ", "-f", "--values-file ", "--values-file="} {
			x.Do(func() *Item {
				sp := &Spec{InsAt: loc.ins, Files: map[string]string{}, Ins: &Ins{Common: []Ov{{Q: []string{"a"}, Val: "from", HasV: true}}, Ents: []Ent{{Path: "a.yaml"}}}}
				dir := loc.ins[:strings.LastIndex(loc.ins, "/")]
				sp.Files[dir+"/a.yaml"] = "a: 0\n"
				it := sp.item(fmt.Sprintf("loc|%d|%s", li, flag), "locations")
				it.Case.Args[1] = loc.ia
				it.Case.Files[loc.ins] = strings.Replace(it.Case.Files[loc.ins], "from", "{{ .x.y }}", 1)
				it.Case.Files[loc.val] = "x: {y: from}\n"

				if strings.HasSuffix(flag, " ") {
					it.Case.Args = append(it.Case.Args, strings.TrimSpace(flag), loc.va)
				} else {
					it.Case.Args = append(it.Case.Args, flag+loc.va)
				}

				it.CLI = true

				return it
			})
		}
	}

	// 5. errors
	bad := []struct{ name, text string }{{"missing", ""}, {"dir", ""}, {"tab", "a:\n\tb: 1\n"}, {"open", "a: [1\n"}, {"dup", "a: 1\na: 2\n"}, {"alias", "a: *x\n"}, {"badkey", "a: 1\n b: 2\n"}, {"badint", "a: !!int x\n"}, {"binary", "a: !!binary '***'\n"}, {"ctrl", "a: \x01\n"}, {"utf", "a: \xff\xfe\xfd\n"}, {"self", "a: &a [*a]\n"}, {"mergekey", "<<: 5\n"}, {"dupdeep", "a: {b: [{c: 1, c: 2}]}\n"}}

	for _, b := range bad {
		for n := 1; n <= 3; n++ {
			for at := 0; at < n; at++ {
				for _, mode := range []string{"-s", "-oout", ""} {
					x.Do(func() *Item {
						c := &Case{Files: map[string]string{"w/a.yaml": "a: 0\n", "w/i.yaml": "yamlFiles:\n- path: a.yaml\n"}, Args: []string{"-i", "i.yaml"}}

						for i := 0; i < n; i++ {
							name := fmt.Sprintf("v%d.yaml", i)

							switch {
							case i != at:
								c.Files["w/"+name] = fmt.Sprintf("k%d: 1\n", i)
							case b.name == "dir":
								c.Dirs = append(c.Dirs, "w/"+name)
							case b.name != "missing":
								c.Files["w/"+name] = b.text
							}

							c.Args = append(c.Args, "-f", name)
						}

						if mode != "" {
							c.Args = append(c.Args, mode)
						}

						return &Item{Key: fmt.Sprintf("bad|%s|%d|%d|%s", b.name, n, at, mode), Class: "invalid values", Case: c, Verify: func(r *Result) string { return Exp{Fail: true}.verify(c, r) }}
					})
				}
			}
		}
	}

	badTpl := []string{"{{", "{{ .a", "{{ end }}", "{{ if .a }}", "{{ nofunction .a }}", "{{ range }}{{ end }}", "{{ template \"nope\" . }}", "{{ fail \"no\" }}", "{{ index .l 9 }}", "{{ .s.x }}", "{{ required }}", "{{ upper }}", "{{ \"a }}", "{{ $x }}", "{{ define \"x\" }}", "{{ else }}", "{{ .l.x }}", "{{ len 5 }}", "{{ atoi \"x\" | div 1 }}", "{{ slice .l 3 9 }}", "{{ lt 1 \"a\" }}",
		"{{ \"a: [\" }}", "{{ \"x\\n\\ty: [\" }}", "{{ .tab }}", "{{ \"\\\"\" }}", "{{ \"{\" }}", "{{ \"*nope\" }}", "{{ \"a: b: c\" }}", "{{ \"a\\nyamlFiles: []\" }}"}

	for bi, b := range badTpl {
		for _, at := range []string{"value", "query", "tail", "path", "comment"} {
			for _, mode := range []string{"-s", "-oout"} {
				x.Do(func() *Item {
					if at != "value" && bi >= 21 {
						return nil
					}

					t := "commonOverlays:\n- query: a @query\n  value: @value\nyamlFiles:\n- path: a.yaml@path\n# note @comment\n@tail"
					t = strings.Replace(t, "@"+at, b, 1)

					for _, r := range []string{" @query", "@value", "@path", " @comment", "@tail"} {
						t = strings.Replace(t, r, "", 1)
					}

					c := &Case{Files: map[string]string{"w/a.yaml": "a: 0\n", "w/i.yaml": t, "w/v.yaml": tplValues + "tab: \"x\\n\\ty: [\"\n"}, Args: []string{"-i", "i.yaml", "-f", "v.yaml", mode}}

					return &Item{Key: fmt.Sprintf("badtpl|%d|%s|%s", bi, at, mode), Class: "invalid templates", Case: c, Verify: func(r *Result) string { return Exp{Fail: true}.verify(c, r) }}
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Explore: exploreC17,
		Rule:   "all ordered pairs of 42 values (scalars of every type, nulls, arrays, maps down to depth 4, keys of several types, marker- and template-like text) at two depths, all triples of the first 12 (26) and all with the first 5 in front, all sequences of up to 3 of 12 whole files (aliases, comments, repeated files) and of 9 top-level values of any kind, all subsets of 6 files: every value dumped by the template and compared with the model's merge; all sequences of up to 3 (4) of 31 template pieces (actions, trimming, loops, conditions, blocks, variables, sprig pipelines), rendered with and verbatim without values; 120 sprig and built-in functions with known results; instructions whose scalars come from values, loops and conditions against the model's run of the expanded instructions; locations and flag forms; 14 invalid values files at every position of 1-3 files and 29 invalid templates at 5 places: an error and nothing written",
		Assume: []string{"results of sprig functions are listed by hand; an undefined value's rendering is not specified"}})
}
