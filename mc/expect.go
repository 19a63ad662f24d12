//go:build go1.22

package main

import (
	"fmt"
	"path"
	"strings"
)

// Exp is the outcome the model predicts for a run.
type Exp struct {
	Fail   bool            // the run must fail, writing nothing
	Stdout bool            // documents go to stdout
	Docs   []*N            // stdout mode: documents in order
	Files  map[string][]*N // file mode: output file (relative to the sandbox) -> documents
	List   []string        // file mode: lines on stdout, in order
	AnyOut bool            // failing run: outputs are not constrained
}

// verify compares a run with the prediction: exit status, outputs, listing,
// and that nothing else in the sandbox changed.
func (e Exp) verify(c *Case, r *Result) string {
	if e.Fail {
		if r.Exit == 0 {
			return "expected failure, but exit status 0; stdout: " + clip(r.Stdout, 400)
		}

		if strings.TrimSpace(r.Stderr) == "" {
			return "failed without a message"
		}

		if e.AnyOut {
			return sourcesUnchanged(c, r)
		}

		if r.Stdout != "" && !strings.HasPrefix(r.Stdout, "Usage") {
			return "failing run wrote to stdout: " + clip(r.Stdout, 400)
		}

		return filesExactly(c, r, nil)
	}

	if r.Exit != 0 {
		return fmt.Sprintf("exit status %d: %s", r.Exit, clip(r.Stderr, 600))
	}

	if e.Stdout {
		if m := docsEqual("stdout", r.Stdout, e.Docs); m != "" {
			return m
		}

		return filesExactly(c, r, nil)
	}

	want := strings.Join(e.List, "\n")
	if got := strings.TrimSuffix(r.Stdout, "\n"); e.List != nil && got != want {
		return fmt.Sprintf("listing on stdout %q, expected %q", got, want)
	}

	return filesExactly(c, r, e.Files)
}

func docsEqual(where, text string, want []*N) string {
	if len(want) == 0 {
		if text != "" {
			return fmt.Sprintf("%s: expected nothing, got %q", where, clip(text, 500))
		}

		return ""
	}

	if !strings.HasPrefix(text, "---\n") {
		return fmt.Sprintf("%s does not start with a document separator: %q", where, clip(text, 200))
	}

	got, err := parseStream(text)
	if err != nil {
		return fmt.Sprintf("%s is not valid YAML (%v): %q", where, err, clip(text, 800))
	}

	if a, b := canonAll(got), canonAll(want); a != b {
		return fmt.Sprintf("%s has\n%s expected\n%s", where, clip(a, 1200), clip(b, 1200))
	}

	return ""
}

func sourcesUnchanged(c *Case, r *Result) string {
	for _, f := range sortedKeys(c.Files) {
		got, ok := r.Files[f]
		if !ok {
			return "source file " + f + " was removed"
		}

		if _, mode := c.Modes[f]; got != c.Files[f] && !mode {
			return fmt.Sprintf("source file %s was changed to %q", f, clip(got, 300))
		}
	}

	return ""
}

func filesExactly(c *Case, r *Result, outs map[string][]*N) string {
	for _, f := range sortedKeys(c.Files) {
		if _, ok := outs[f]; ok {
			continue
		}

		_, mode := c.Modes[f]
		if got, ok := r.Files[f]; !ok || (got != c.Files[f] && !mode) {
			return fmt.Sprintf("source file %s was changed to %q", f, clip(got, 300))
		}
	}

	for _, f := range sortedKeys(outs) {
		got, ok := r.Files[f]
		if !ok {
			return fmt.Sprintf("output file %s is missing; there are %v", f, sortedKeys(r.Files))
		}

		if m := docsEqual(f, got, outs[f]); m != "" {
			return m
		}
	}

	for _, f := range sortedKeys(r.Files) {
		_, in := c.Files[f]
		_, out := outs[f]
		_, sym := c.Symlinks[f]

		if !in && !out && !sym {
			return fmt.Sprintf("unexpected file %s: %q", f, clip(r.Files[f], 300))
		}
	}

	// no directories but those of the sandbox and of the outputs
	known := map[string]bool{".": true}
	add := func(d string) {
		for d = path.Clean(d); !known[d] && d != "/"; d = path.Dir(d) {
			known[d] = true
		}
	}

	add(c.cwd())
	add("home")

	for _, d := range c.Dirs {
		add(d)
	}

	for f := range c.Files {
		add(path.Dir(f))
	}

	for f := range c.Symlinks {
		add(path.Dir(f))
	}

	for f := range outs {
		add(path.Dir(f))
	}

	for _, d := range r.Dirs {
		if !known[d] {
			return "unexpected directory " + d
		}
	}

	return ""
}

// outPath is where a file named by outputPath rel lands (relative to the sandbox).
func outPath(dir, rel string) string { return path.Join(dir, rel) }
