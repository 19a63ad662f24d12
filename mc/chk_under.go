//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// underChecks are the checks whose verdict is about data, which settings of
// the output, of the log and of where files are named from must not change.
var underChecks = map[string]bool{
	"C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C15": true, "C16": true, "C18": true, "C20": true, "C21": true,
}

// A surrounding changes a run in a way that must not change what it decides; it
// reports whether that is possible for this run.
type surrounding struct {
	name string
	set  func(c *Case) bool
}

func withArgs(args ...string) func(c *Case) bool {
	return func(c *Case) bool {
		c.Args = append(c.Args, args...)

		return true
	}
}

func withEnv(kv ...string) func(c *Case) bool {
	return func(c *Case) bool {
		c.Env = map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			c.Env[kv[i]] = kv[i+1]
		}

		return true
	}
}

func withConfig(text string) func(c *Case) bool {
	return func(c *Case) bool {
		c.Files["cfg/c.yaml"] = text
		c.Args = append(c.Args, "--config", "{{ROOT}}/cfg/c.yaml")

		return true
	}
}

// insArg is the position of the name of the instructions file among the arguments, or -1.
func insArg(c *Case) int {
	for i := 0; i+1 < len(c.Args); i++ {
		if c.Args[i] == "-i" {
			return i + 1
		}
	}

	return -1
}

func withValues(text string) func(c *Case) bool {
	return func(c *Case) bool {
		i := insArg(c)
		if i < 0 {
			return false
		}

		for _, t := range c.Files {
			if strings.Contains(t, "{{") {
				return false
			}
		}

		c.Files["cfg/v.yaml"] = text
		c.Args = append(c.Args, "-f", "{{ROOT}}/cfg/v.yaml")

		return true
	}
}

func withIns(pre string) func(c *Case) bool {
	return func(c *Case) bool {
		i := insArg(c)
		if i < 0 || c.cwd() != "w" || strings.HasPrefix(c.Args[i], "{{") {
			return false
		}

		c.Args[i] = pre + c.Args[i]

		return true
	}
}

// fromElsewhere runs the tool in another directory.
func fromElsewhere(c *Case) bool {
	i := insArg(c)
	if i < 0 || c.cwd() != "w" || strings.HasPrefix(c.Args[i], "{{") {
		return false
	}

	stdout := false
	for _, a := range c.Args {
		stdout = stdout || a == "-s"
	}

	if !stdout {
		return false
	}

	c.Cwd = "else/where"
	c.Args[i] = "../../w/" + c.Args[i]

	return true
}

var surroundings = []surrounding{
	{"flow", withArgs("-S", "flow")},
	{"double", withArgs("-S", "double")},
	{"single", withArgs("-S", "single")},
	{"literal", withArgs("-S", "literal")},
	{"folded", withArgs("-S", "folded")},
	{"tagged", withArgs("-S", "tagged")},
	{"flow,tagged,single", withArgs("-S", "flow,tagged,single")},
	{"I2", withArgs("-I", "2")},
	{"I4", withArgs("-I", "4")},
	{"I9", withArgs("-I", "9")},
	{"no comments", withArgs("--remove-comments")},
	{"debug", withArgs("--log-level=debug")},
	{"values", withValues("a: {b: [1]}\n")},
	{"null values", withValues("null\n")},
	{"config", withConfig("indentLevel: 3\nremoveComments: true\nlogLevel: info\noutputStyle: [flow]\n")},
	{"environment", withEnv("YOT_INDENT_LEVEL", "3", "YOT_REMOVE_COMMENTS", "true", "YOT_LOG_LEVEL", "notice", "YOT_OUTPUT_STYLE", "double")},
	{"all", withArgs("-I", "5", "--remove-comments", "-S", "literal", "--log-level=critical")},
	{"absolute", withIns("{{ROOT}}/w/")},
	{"dotted", withIns("./../w/")},
	{"elsewhere", fromElsewhere},
}

// under repeats an item with the k-th setting, if that is possible.
func under(build func() *Item, k int) func() *Item {
	return func() *Item {
		it := build()
		if it == nil || it.Case == nil || it.Search != nil || it.CLI || strings.HasPrefix(it.Key, "io|") {
			return nil // the verdict about faults compares texts
		}

		// other items may share the files and the arguments, the verdict looks at the case
		c, files := it.Case, it.Case.Files
		c.Args = append([]string{}, c.Args...)
		c.Files = map[string]string{}

		for n, s := range files {
			c.Files[n] = s
		}

		if len(c.Steps) != 0 || len(c.Env) != 0 || c.Fault != "" || c.Traced || c.StdoutTo != "" {
			return nil
		}

		for _, a := range c.Args {
			for _, f := range []string{"-S", "-I", "-f", "-v", "--"} {
				if strings.HasPrefix(a, f) && !strings.HasPrefix(a, "--default") {
					return nil
				}
			}
		}

		for f := range c.Files {
			if strings.HasPrefix(f, "w/yot.config") || strings.HasPrefix(f, "home/") {
				return nil
			}
		}

		s := surroundings[k%len(surroundings)]
		if !s.set(c) {
			return nil
		}

		it.Key = fmt.Sprintf("%s @%s", it.Key, s.name)
		it.Class = "under settings"

		return it
	}
}
