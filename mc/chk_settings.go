//go:build go1.22

package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// setting is one of the tool's settings and where it can come from.
type setting struct {
	name, env, cfg, flag string
	def                  string
	vals                 []string
	cfgText              func(v string) string
}

var settings = []setting{
	{name: "indent", env: "YOT_INDENT_LEVEL", cfg: "indentLevel", flag: "--indent-level=", def: "2", vals: []string{"4", "7", "3", "2"}},
	{name: "style", env: "YOT_OUTPUT_STYLE", cfg: "outputStyle", flag: "--output-style=", def: "normal", vals: []string{"doubleQuoted", "flow", "singleQuoted,tagged", "normal"}, cfgText: func(v string) string { return "[" + v + "]" }},
	{name: "dir", env: "YOT_OUTPUT_DIRECTORY", cfg: "outputDirectory", flag: "--output-directory=", def: "./output", vals: []string{"o1", "o2/sub", "../o3", "./output"}},
	{name: "stdout", env: "YOT_STDOUT", cfg: "stdout", flag: "--stdout=", def: "false", vals: []string{"true", "false"}},
	{name: "comments", env: "YOT_REMOVE_COMMENTS", cfg: "removeComments", flag: "--remove-comments=", def: "false", vals: []string{"true", "false"}},
	{name: "missing", env: "YOT_DEFAULT_ON_MISSING_ACTION", cfg: "defaultOnMissingAction", flag: "--default-on-missing-action=", def: "ignore", vals: []string{"inject", "ignore"}},
	{name: "log", env: "YOT_LOG_LEVEL", cfg: "logLevel", flag: "--log-level=", def: "warning", vals: []string{"debug", "critical", "notice", "error", "info", "warning"}},
}

const (
	settingsDoc = "# c0\na: # c1\n  b:\n    c: txt # c2\nl:\n- x\n"
	settingsIns = "commonOverlays:\n- query: zz.y\n  value: injected\n- query: l[0]\n  value: '%v{nosed}'\nyamlFiles:\n- path: a.yaml\n"
)

// chosen are the values of the settings by source.
type chosen struct{ flag, env, cfg map[string]string }

func newChosen() chosen {
	return chosen{map[string]string{}, map[string]string{}, map[string]string{}}
}

func (c chosen) effective(s setting) string {
	for _, m := range []map[string]string{c.flag, c.env, c.cfg} {
		if v, ok := m[s.name]; ok {
			return v
		}
	}

	return s.def
}

func (c chosen) key() string { return fmt.Sprintf("flag%v env%v cfg%v", c.flag, c.env, c.cfg) }

// configText is a config file with the settings.
func configText(m map[string]string) string {
	var b strings.Builder

	for _, s := range settings {
		if v, ok := m[s.name]; ok {
			if s.cfgText != nil {
				v = s.cfgText(v)
			}

			b.WriteString(s.cfg + ": " + v + "\n")
		}
	}

	return b.String()
}

// observed checks that a run used the settings.
func observed(r *Result, eff map[string]string) string {
	if r.Exit != 0 {
		return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 400))
	}

	text := r.Stdout
	out := path.Join("w", eff["dir"], "a.yaml")

	if eff["stdout"] == "true" {
		if _, ok := r.Files[out]; ok {
			return "a file is written although stdout is set"
		}
	} else {
		var ok bool

		text, ok = r.Files[out]
		if !ok {
			return fmt.Sprintf("%s is not written; there are %v", out, sortedKeys(r.Files))
		}

		if r.Stdout != path.Join(eff["dir"], "a.yaml")+"\n" {
			return fmt.Sprintf("stdout is %q", clip(r.Stdout, 300))
		}
	}

	var y yaml.Node
	if err := yaml.Unmarshal([]byte(text), &y); err != nil {
		return fmt.Sprintf("%v: %q", err, clip(text, 300))
	}

	for _, st := range strings.Split(eff["style"], ",") {
		if m := styleUsed(st, text); m != "" {
			return m
		}
	}

	for _, st := range []string{"flow", "tagged", "doubleQuoted", "singleQuoted"} {
		if !strings.Contains(eff["style"], st) && styleUsed(st, text) == "" {
			return fmt.Sprintf("style %s although %s is set: %q", st, eff["style"], clip(text, 300))
		}
	}

	if !strings.Contains(eff["style"], "flow") {
		for _, l := range strings.Split(text, "\n") {
			if n := len(l) - len(strings.TrimLeft(l, " ")); n > 0 && strings.Contains(l, "b") && strings.Contains(l, ":") && !strings.Contains(l, "txt") && fmt.Sprint(n) != eff["indent"] {
				return fmt.Sprintf("indented by %d, expected %s: %q", n, eff["indent"], clip(text, 300))
			}
		}
	}

	if strings.Contains(text, "#") == (eff["comments"] == "true") {
		return fmt.Sprintf("remove comments is %s: %q", eff["comments"], clip(text, 300))
	}

	if strings.Contains(text, "injected") != (eff["missing"] == "inject") {
		return fmt.Sprintf("default on missing action is %s: %q", eff["missing"], clip(text, 300))
	}

	rank := map[string]int{"critical": 0, "error": 1, "warning": 2, "notice": 3, "info": 4, "debug": 5}[eff["log"]]
	for lev, n := range map[string]int{"[WARNING]": 2, "[NOTICE]": 3, "[DEBUG]": 5} {
		if strings.Contains(r.Stderr, lev) != (rank >= n) {
			return fmt.Sprintf("log level is %s: %q", eff["log"], clip(r.Stderr, 300))
		}
	}

	return ""
}

// settingsItem runs the tool with settings from several sources, and once
// more with all of them as flags.
func settingsItem(key, class string, c chosen, cli bool) *Item {
	cs := &Case{Files: map[string]string{"w/a.yaml": settingsDoc, "w/i.ins": settingsIns}, Args: []string{"-i", "i.ins"}, Env: map[string]string{}}

	if len(c.cfg) > 0 {
		cs.Files["w/yot.config"] = configText(c.cfg)
	}

	eff := map[string]string{}
	all := &Case{Args: []string{"-i", "i.ins", "--config", "none"}, Files: map[string]string{"w/none": "{}\n"}}

	for _, s := range settings {
		eff[s.name] = c.effective(s)
		all.Args = append(all.Args, s.flag+eff[s.name])

		if v, ok := c.env[s.name]; ok {
			cs.Env[s.env] = v
		}

		if v, ok := c.flag[s.name]; ok {
			cs.Args = append(cs.Args, s.flag+v)
		}
	}

	env := &Case{Args: []string{"env"}, Env: cs.Env}
	cs.Steps = []*Case{all, env}

	return &Item{Key: key, Class: class, Case: cs, CLI: cli, Trace: len(c.flag) + len(c.env) + len(c.cfg), Verify: func(r *Result) string {
		if m := observed(r, eff); m != "" {
			return m
		}

		if n := r.Next[0]; n.Exit != 0 || n.Stdout != r.Stdout {
			return fmt.Sprintf("with the same settings as flags: exit status %d, stdout %q, otherwise %q: %s", n.Exit, clip(n.Stdout, 300), clip(r.Stdout, 300), clip(n.Stderr, 300))
		}

		for _, f := range sortedKeys(r.Next[0].Files) {
			if f != "w/none" && r.Files[f] != r.Next[0].Files[f] {
				return fmt.Sprintf("with the same settings as flags, %s is %q, otherwise %q", f, clip(r.Next[0].Files[f], 300), clip(r.Files[f], 300))
			}
		}

		return envReports(r.Next[1], chosen{nil, c.env, c.cfg}, len(c.cfg) > 0)
	}}
}

// envReports checks the listing of the env command.
func envReports(r *Result, c chosen, config bool) string {
	if r.Exit != 0 {
		return fmt.Sprintf("env: exit status %d: %s", r.Exit, clip(r.Stderr, 300))
	}

	got := map[string]string{}

	for _, l := range strings.Split(strings.TrimSuffix(r.Stdout, "\n"), "\n") {
		k, v, ok := strings.Cut(l, "=")
		if !ok || len(v) < 2 || v[0] != '"' || v[len(v)-1] != '"' {
			return fmt.Sprintf("env prints %q", l)
		}

		if _, dup := got[k]; dup {
			return "env prints " + k + " twice"
		}

		got[k] = v[1 : len(v)-1]
	}

	for _, s := range settings {
		want := c.effective(s)
		have := got[s.env]

		if s.name == "style" {
			have = strings.NewReplacer("[", "", "]", "", " ", ",").Replace(have)
		}

		if have != want {
			return fmt.Sprintf("env prints %s=%q, expected %q", s.env, got[s.env], want)
		}
	}

	if f, ok := got["YOT_CONFIG_FILE"]; !ok || (f != "") != config || config && path.Base(f) != "yot.config" {
		return fmt.Sprintf("env prints YOT_CONFIG_FILE=%q", f)
	}

	if len(got) != len(settings)+1 {
		return fmt.Sprintf("env prints %v", sortedKeys(got))
	}

	return ""
}

func exploreC19(x *X) {
	// 1. every setting: all values from all sources
	for _, s := range settings {
		opt := append([]string{""}, s.vals...)

		for _, f := range opt {
			for _, e := range opt {
				for _, g := range opt {
					x.Do(func() *Item {
						c := newChosen()

						if f != "" {
							c.flag[s.name] = f
						}

						if e != "" {
							c.env[s.name] = e
						}

						if g != "" {
							c.cfg[s.name] = g
						}

						return settingsItem("one|"+s.name+"|"+c.key(), "one setting", c, (len(f)+len(e)+len(g))%4 == 0)
					})
				}
			}
		}
	}

	// 2. all settings at once, each from one source or none
	n := len(settings)

	var rec func(i int, src []int)

	rec = func(i int, src []int) {
		if i == n {
			k := append([]int{}, src...)

			x.Do(func() *Item {
				c := newChosen()

				for j, s := range settings {
					v := s.vals[j%2%len(s.vals)]
					if len(s.vals) == 2 || s.name == "log" {
						v = s.vals[0]
					}

					switch k[j] {
					case 1:
						c.flag[s.name] = v
					case 2:
						c.env[s.name] = v
					case 3:
						c.cfg[s.name] = v
					}
				}

				return settingsItem("all|"+c.key(), "all settings", c, false)
			})

			return
		}

		for v := 0; v < 4; v++ {
			rec(i+1, append(src, v))
		}
	}

	rec(0, nil)

	// 3. two settings, each from any sources
	for i, s := range settings {
		for _, t := range settings[i+1:] {
			for m := 0; m < 64; m++ {
				rots := []int{0, 3}
				if x.Thorough {
					rots = []int{0, 1, 2, 3, 4, 5, 6, 7}
				}

				for _, rot := range rots {
					x.Do(func() *Item {
						c := newChosen()

						for b, dst := range []map[string]string{c.flag, c.env, c.cfg} {
							if m&(1<<b) != 0 {
								dst[s.name] = s.vals[(b+rot)%len(s.vals)]
							}

							if m&(8<<b) != 0 {
								dst[t.name] = t.vals[(b+rot/2)%len(t.vals)]
							}
						}

						return settingsItem(fmt.Sprintf("two|%d|%s", rot, c.key()), "two settings", c, false)
					})
				}
			}
		}
	}

	// the forms of the flags
	type form struct {
		args []string
		name string
		val  string
	}

	forms := []form{
		{[]string{"-I", "5"}, "indent", "5"}, {[]string{"-I5"}, "indent", "5"}, {[]string{"-I=5"}, "indent", "5"}, {[]string{"--indent-level", "5"}, "indent", "5"}, {[]string{"-I", "9", "-I", "5"}, "indent", "5"},
		{[]string{"-S", "flow"}, "style", "flow"}, {[]string{"-Sflow"}, "style", "flow"}, {[]string{"--output-style", "FLOW"}, "style", "flow"}, {[]string{"-S", "single", "-S", "t"}, "style", "singleQuoted,tagged"},
		{[]string{"-o", "o1"}, "dir", "o1"}, {[]string{"-oo1/"}, "dir", "o1/"}, {[]string{"--output-directory", "./x/../o1"}, "dir", "o1"},
		{[]string{"-s"}, "stdout", "true"}, {[]string{"--stdout"}, "stdout", "true"}, {[]string{"-s=false"}, "stdout", "false"}, {[]string{"--remove-comments"}, "comments", "true"},
		{[]string{"--default-on-missing-action", "inject"}, "missing", "inject"}, {[]string{"-v"}, "log", "debug"}, {[]string{"-v=notice"}, "log", "notice"}, {[]string{"--log-level"}, "log", "debug"}, {[]string{"-v=n"}, "log", "notice"}, {[]string{"-v=CRIT"}, "log", "critical"}, {[]string{"-v=w"}, "log", "warning"}, {[]string{"-v=i"}, "log", "info"}, {[]string{"-v=err"}, "log", "error"}, {[]string{"-v=verbose"}, "log", "debug"},
	}

	// every documented name, in both cases
	for val, names := range map[string][]string{"critical": {"c", "crit", "critical"}, "error": {"e", "err", "error"}, "warning": {"w", "warn", "warning"}, "notice": {"n", "note", "notice"}, "info": {"i", "info"}, "debug": {"d", "debug", "v", "verbose"}} {
		for _, n := range names {
			for _, f := range []string{"-v=" + n, "-v=" + strings.ToUpper(n), "--log-level=" + n, "--log-level=" + strings.ToUpper(n)} {
				forms = append(forms, form{[]string{f}, "log", val})
			}
		}
	}

	for _, n := range []string{"inject", "ignore", "INJECT", "Ignore"} {
		for _, f := range [][]string{{"--default-on-missing-action", n}, {"--default-on-missing-action=" + n}, {"--default-on-missing-action", "ignore", "--default-on-missing-action", n}} {
			forms = append(forms, form{f, "missing", strings.ToLower(n)})
		}
	}

	for val, names := range map[string][]string{"normal": {"n", "normal"}, "tagged": {"t", "tag", "tagged"}, "doubleQuoted": {"dq", "double", "doubleQuote", "doubleQuoted"}, "singleQuoted": {"sq", "single", "singleQuote", "singleQuoted"}, "literal": {"l", "literal"}, "folded": {"fo", "fold", "folded"}, "flow": {"fl", "flow"}} {
		for _, n := range names {
			for _, f := range []string{"-S=" + n, "-S" + strings.ToUpper(n), "--output-style=" + n} {
				forms = append(forms, form{[]string{f}, "style", val})
			}
		}
	}

	sort.SliceStable(forms, func(i, j int) bool { return strings.Join(forms[i].args, " ") < strings.Join(forms[j].args, " ") })

	for _, f := range forms {
		for e := 0; e < 4; e++ {
			x.Do(func() *Item {
				c := newChosen()

				for _, s := range settings {
					if s.name == f.name && e&1 != 0 {
						c.env[s.name] = s.vals[1]
					}

					if s.name == f.name && e&2 != 0 {
						c.cfg[s.name] = s.vals[0]
					}
				}

				c.flag[f.name] = f.val
				it := settingsItem(fmt.Sprintf("form|%s|%d", strings.Join(f.args, " "), e), "flag forms", c, e == 0)

				var args []string

				for _, a := range it.Case.Args {
					if !strings.HasPrefix(a, "--") {
						args = append(args, a)
					}
				}

				it.Case.Args = append(args, f.args...)

				return it
			})
		}
	}

	// config file and environment spellings
	for i, sp := range []struct{ name, env, cfg, val string }{
		{"style", "flow", "outputStyle: flow\n", "flow"}, {"style", "[flow]", "outputStyle:\n- flow\n", "flow"}, {"style", "[singleQuoted,tagged]", "outputStyle: [singleQuoted, tagged]\n", "singleQuoted,tagged"}, {"style", "singleQuoted,tagged", "outputStyle: 'singleQuoted,tagged'\n", "singleQuoted,tagged"}, {"style", "DoubleQuoted", "outputStyle: [\"doublequoted\"]\n", "doubleQuoted"},
		{"indent", "5", "indentLevel: '5'\n", "5"}, {"stdout", "true", "stdout: \"true\"\n", "true"}, {"comments", "TRUE", "removeComments: true # c\n", "true"}, {"missing", "inject", "---\ndefaultOnMissingAction: \"inject\"\n", "inject"}, {"log", "DEBUG", "logLevel: DEBUG\n", "debug"}, {"dir", "o1/", "outputDirectory: o1/\n", "o1/"},
		{"missing", "Inject", "defaultOnMissingAction: Inject\n", "inject"}, {"missing", "INJECT", "defaultOnMissingAction: INJECT\n", "inject"}, {"missing", "IGNORE", "defaultOnMissingAction: Ignore\n", "ignore"}, {"log", "Debug", "logLevel: DeBug\n", "debug"}, {"stdout", "True", "stdout: TRUE\n", "true"}, {"stdout", "False", "stdout: False\n", "false"}, {"comments", "1", "removeComments: True\n", "true"}, {"comments", "0", "removeComments: FALSE\n", "false"}, {"style", "FLOW", "outputStyle: FLOW\n", "flow"}, {"style", "SingleQuoted,TAGGED", "outputStyle: [SINGLEQUOTED, Tagged]\n", "singleQuoted,tagged"}, {"indent", "07", "indentLevel: 7\n", "7"}, {"dir", "{{ROOT}}/abs", "outputDirectory: '{{ROOT}}/abs'\n", "{{ROOT}}/abs"},
	} {
		for e := 0; e < 2; e++ {
			x.Do(func() *Item {
				c := newChosen()
				c.cfg["dir"] = "given" // so that there is a config file
				c.flag[sp.name] = sp.val
				it := settingsItem(fmt.Sprintf("spell|%d|%d", i, e), "spellings", c, true)

				var args []string

				for _, a := range it.Case.Args {
					if !strings.HasPrefix(a, "--") {
						args = append(args, a)
					}
				}

				it.Case.Args = args
				it.Case.Steps = it.Case.Steps[:1]

				if e == 0 {
					it.Case.Env[settingByName(sp.name).env] = sp.env
				} else {
					it.Case.Files["w/yot.config"] = sp.cfg

					if sp.name != "dir" {
						it.Case.Files["w/yot.config"] += "outputDirectory: given\n"
					}
				}

				it.Verify = func(r *Result) string {
					eff := map[string]string{}
					for _, s := range settings {
						eff[s.name] = c.effective(s)
					}

					if strings.HasPrefix(eff["dir"], "{{ROOT}}") {
						eff["dir"] = "../abs"
						r.Stdout = strings.Replace(r.Stdout, "{{ROOT}}", "..", 1)
					}

					return observed(r, eff)
				}

				return it
			})
		}
	}

	// 4. which config file: all subsets of the places, each with settings of its own
	for m := 0; m < 16; m++ {
		for abs := 0; abs < 3; abs++ {
			for sub := 0; sub < 1<<4; sub++ {
				x.Do(func() *Item {
					c := &Case{Files: map[string]string{"w/a.yaml": settingsDoc, "w/i.ins": settingsIns}, Args: []string{"-i", "i.ins"}, Env: map[string]string{}, CLI: sub == 15}

					// each file has two of the settings that the others may have, too
					mine := func(i int) map[string]string {
						cfg := map[string]string{"dir": fmt.Sprintf("o%d", i)}
						if sub&(1<<i) != 0 {
							cfg[[]string{"indent", "style", "missing", "comments"}[i]] = []string{"5", "flow", "inject", "true"}[i]
						} else {
							cfg["indent"] = fmt.Sprint(3 + i)
						}

						return cfg
					}
					place := func(i int) string {
						return []string{"", "{{ROOT}}/w/", "../w/"}[abs] + []string{"my.conf", "c/env.conf"}[i]
					}

					used := -1

					for i := 3; i >= 0; i-- {
						if m&(1<<i) != 0 {
							used = i
						}
					}

					var named string

					if m&1 != 0 {
						c.Files["w/my.conf"] = configText(mine(0))
						c.Args = append(c.Args, []string{"--config", place(0)}...)
						named = place(0)
					}

					if m&2 != 0 {
						c.Files["w/c/env.conf"] = configText(mine(1))
						c.Env["YOT_CONFIG_FILE"] = place(1)

						if named == "" {
							named = place(1)
						}
					}

					if m&4 != 0 {
						c.Files["w/yot.config"] = configText(mine(2))
					}

					if m&8 != 0 {
						c.Files["home/.yot/yot.config"] = configText(mine(3))
					}

					ch := newChosen()
					if used >= 0 {
						ch.cfg = mine(used)
					}

					eff := map[string]string{}
					for _, s := range settings {
						eff[s.name] = ch.effective(s)
					}

					if m&1 == 0 {
						c.Steps = []*Case{{Args: []string{"env", "YOT_CONFIG_FILE"}, Env: c.Env}, {Args: []string{"env", "YOT_OUTPUT_DIRECTORY"}, Env: c.Env}}
					}

					return &Item{Key: fmt.Sprintf("file|%d|%d|%d", m, abs, sub), Class: "config files", Case: c, Verify: func(r *Result) string {
						if msg := observed(r, eff); msg != "" {
							return msg
						}

						if len(r.Next) == 0 {
							return ""
						}

						f := strings.TrimSuffix(strings.TrimPrefix(r.Next[0].Stdout, "YOT_CONFIG_FILE=\""), "\"\n")

						want := []string{named, named, "yot.config", ".yot/yot.config", ""}[(used+5)%5]
						if want == "" && f != "" || !strings.HasSuffix(f, want) {
							return fmt.Sprintf("env prints %q, the config file is %q", r.Next[0].Stdout, want)
						}

						if w := "YOT_OUTPUT_DIRECTORY=\"" + eff["dir"] + "\"\n"; r.Next[1].Stdout != w {
							return fmt.Sprintf("env prints %q, expected %q", r.Next[1].Stdout, w)
						}

						return ""
					}}
				})
			}
		}
	}

	// 5. a config file that cannot be used is an error
	for i, bad := range []struct{ name, text string }{{"missing", ""}, {"dir", ""}, {"tab", "a:\n\tb"}, {"list", "- a\n"}, {"open", "{"}} {
		for src := 0; src < 3; src++ {
			x.Do(func() *Item {
				if src == 2 && bad.text == "" {
					return nil
				}

				c := &Case{Files: map[string]string{"w/a.yaml": settingsDoc, "w/i.ins": settingsIns}, Args: []string{"-i", "i.ins"}, Env: map[string]string{}, CLI: true}
				name := "bad.conf"

				switch src {
				case 0:
					c.Args = append(c.Args, "--config", name)
				case 1:
					c.Env["YOT_CONFIG_FILE"] = name
				case 2:
					name = "yot.config"
				}

				if bad.name == "dir" {
					c.Dirs = append(c.Dirs, "w/"+name)
				} else if bad.name != "missing" {
					c.Files["w/"+name] = bad.text
				}

				return &Item{Key: fmt.Sprintf("badcfg|%d|%d", i, src), Class: "invalid config files", Case: c, CLI: true, Verify: func(r *Result) string { return Exp{Fail: true}.verify(c, r) }}
			})
		}
	}

	// 6. the documented default of the log level
	x.Do(func() *Item {
		c := &Case{Args: []string{"env", "YOT_LOG_LEVEL"}}

		return &Item{Key: "default|log level", Class: "documented defaults", Case: c, Verify: func(r *Result) string {
			if r.Stdout != "YOT_LOG_LEVEL=\"error\"\n" {
				return fmt.Sprintf("env prints %q, the documented default is error", r.Stdout)
			}

			return ""
		}}
	})
}

func settingByName(n string) setting {
	for _, s := range settings {
		if s.name == n {
			return s
		}
	}

	return setting{}
}

func init() {
	register(&Check{ID: "C19", Level: "model_checking", Explore: exploreC19,
		Rule:   "7 settings x all values from flag, environment and config file in all combinations; all 4^7 choices of one source (or none) for every setting at once; all pairs of settings x 64 sets of sources; 112 flag forms (every documented name of every level, style and action) and 24 spellings against other sources; all 16 subsets of the four config file places x 3 kinds of path x 16 contents; unusable config files. Each run's output is inspected for every setting, is compared byte for byte with a run given all effective settings as flags, and with the listing of the env command; spellings and letter case of values",
		Assume: []string{"/etc/yot is not explored (it is a system path)", "values of settings are valid ones"}})
}
