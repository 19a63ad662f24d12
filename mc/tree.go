//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Kind of a reference-model node.
type Kind byte

const (
	Map Kind = iota + 1
	Seq
	Sca
)

// N is a node of the reference model's document tree. Content of a map
// alternates keys and values.
type N struct {
	K          Kind
	Tag, V     string
	C          []*N
	HC, LC, FC string
}

func str(s string) *N { return &N{K: Sca, Tag: "!!str", V: s} }

func (n *N) clone() *N {
	m := *n
	m.C = make([]*N, len(n.C))

	for i, c := range n.C {
		m.C[i] = c.clone()
	}

	return &m
}

func (n *N) get(key string) *N {
	if n.K != Map {
		return nil
	}

	for i := 0; i+1 < len(n.C); i += 2 {
		if n.C[i].V == key {
			return n.C[i+1]
		}
	}

	return nil
}

// sameKey says whether two keys of maps are one: scalars by their text,
// collections by their content.
func sameKey(a, b *N) bool {
	if a.K != b.K || a.K == Sca {
		return a.K == b.K && a.V == b.V
	}

	return canon(a) == canon(b)
}

func (n *N) at(key *N) *N {
	if n.K != Map {
		return nil
	}

	for i := 0; i+1 < len(n.C); i += 2 {
		if sameKey(n.C[i], key) {
			return n.C[i+1]
		}
	}

	return nil
}

func (n *N) set(key string, v *N) {
	for i := 0; i+1 < len(n.C); i += 2 {
		if n.C[i].V == key {
			n.C[i+1] = v

			return
		}
	}

	n.C = append(n.C, str(key), v)
}

var errAlias = errors.New("unresolvable alias")

// fromYAML converts what yaml.v3 parsed, expanding aliases.
func fromYAML(y *yaml.Node, depth int) (*N, error) {
	if depth > 700 {
		return nil, errAlias
	}

	n := &N{HC: y.HeadComment, LC: y.LineComment, FC: y.FootComment}

	switch y.Kind {
	case yaml.DocumentNode:
		if len(y.Content) == 0 {
			return nil, errors.New("empty document")
		}

		return fromYAML(y.Content[0], depth+1)
	case yaml.AliasNode:
		if y.Alias == nil {
			return nil, errAlias
		}

		c, err := fromYAML(y.Alias, depth+1)
		if err == nil {
			c.HC, c.LC, c.FC = n.HC, n.LC, n.FC
		}

		return c, err
	case yaml.MappingNode:
		n.K, n.Tag = Map, y.ShortTag()
	case yaml.SequenceNode:
		n.K, n.Tag = Seq, y.ShortTag()
	case yaml.ScalarNode:
		n.K, n.Tag, n.V = Sca, y.ShortTag(), y.Value
	default:
		return nil, fmt.Errorf("kind %d", y.Kind)
	}

	for _, c := range y.Content {
		m, err := fromYAML(c, depth+1)
		if err != nil {
			return nil, err
		}

		n.C = append(n.C, m)
	}

	return n, nil
}

// parseStream parses a YAML stream into model trees. Duplicate keys and
// anything yaml.v3 rejects are errors.
func parseStream(s string) ([]*N, error) {
	var docs []*N

	d := yaml.NewDecoder(strings.NewReader(s))

	for {
		var y yaml.Node

		err := d.Decode(&y)
		if errors.Is(err, io.EOF) {
			return docs, nil
		}

		if err != nil {
			return nil, err
		}

		n, err := fromYAML(&y, 0)
		if err != nil {
			return nil, err
		}

		if err := noDups(n); err != nil {
			return nil, err
		}

		docs = append(docs, n)
	}
}

func noDups(n *N) error {
	if n.K == Map {
		seen := map[string]bool{}

		for i := 0; i+1 < len(n.C); i += 2 {
			k := canon(n.C[i])
			if seen[k] {
				return fmt.Errorf("duplicate key %s", k)
			}

			seen[k] = true
		}
	}

	for _, c := range n.C {
		if err := noDups(c); err != nil {
			return err
		}
	}

	return nil
}

func mustParse(s string) *N {
	d, err := parseStream(s)
	if err != nil || len(d) != 1 {
		panic(fmt.Sprintf("mustParse(%q): %d %v", s, len(d), err))
	}

	return d[0]
}

func mustParseAll(s string) []*N {
	d, err := parseStream(s)
	if err != nil {
		panic(fmt.Sprintf("mustParseAll(%q): %v", s, err))
	}

	return d
}

// canon is the canonical text of the data: kinds, types, values and order of
// keys, nothing else.
func canon(n *N) string {
	var b strings.Builder

	writeCanon(&b, n)

	return b.String()
}

func writeCanon(b *strings.Builder, n *N) {
	if n == nil {
		b.WriteString("<nil>")

		return
	}

	switch n.K {
	case Map:
		if n.Tag != "" && n.Tag != "!!map" {
			b.WriteString(n.Tag + " ")
		}

		b.WriteByte('{')

		for i, c := range n.C {
			writeCanon(b, c)

			if i%2 == 0 {
				b.WriteByte(':')
			} else {
				b.WriteByte(',')
			}
		}

		b.WriteByte('}')
	case Seq:
		if n.Tag != "" && n.Tag != "!!seq" {
			b.WriteString(n.Tag + " ")
		}

		b.WriteByte('[')

		for _, c := range n.C {
			writeCanon(b, c)
			b.WriteByte(',')
		}

		b.WriteByte(']')
	case Sca:
		b.WriteString(canonScalar(n.Tag, n.V))
	default:
		b.WriteString("<bad>")
	}
}

func canonScalar(tag, v string) string {
	switch tag {
	case "!!str", "":
		return strconv.Quote(v)
	case "!!null":
		return "null"
	case "!!bool":
		return strings.ToLower(v)
	case "!!int":
		if i, ok := new(big.Int).SetString(strings.ReplaceAll(v, "_", ""), 0); ok {
			return "int:" + i.String()
		}

		return "int!" + v
	case "!!float":
		if f, err := strconv.ParseFloat(strings.ReplaceAll(v, "_", ""), 64); err == nil {
			return "float:" + strconv.FormatFloat(f, 'g', -1, 64)
		}

		return "float!" + strings.ToLower(v)
	}

	return tag + " " + strconv.Quote(v)
}

func canonAll(ns []*N) string {
	var b strings.Builder

	for _, n := range ns {
		writeCanon(&b, n)
		b.WriteString("\n---\n")
	}

	return b.String()
}

// flow renders the data as one line of flow-style YAML.
func flow(n *N) string {
	switch n.K {
	case Map:
		var p []string

		for i := 0; i+1 < len(n.C); i += 2 {
			p = append(p, flow(n.C[i])+": "+flow(n.C[i+1]))
		}

		return "{" + strings.Join(p, ", ") + "}"
	case Seq:
		var p []string

		for _, c := range n.C {
			p = append(p, flow(c))
		}

		return "[" + strings.Join(p, ", ") + "]"
	}

	return flowScalar(n)
}

func plainOK(tag, v string) bool {
	if v == "" || strings.ContainsAny(v, "\n\t\"'\\#:,[]{}&*!|>%@`?") || strings.HasPrefix(v, " ") || strings.HasSuffix(v, " ") || strings.HasPrefix(v, "-") {
		return tag != "!!str" && v != "" && !strings.ContainsAny(v, "\n\"'\\#:,[]{}&*!|>%@`?")
	}

	return (&yaml.Node{Kind: yaml.ScalarNode, Value: v}).ShortTag() == tag
}

func flowScalar(n *N) string {
	tag := n.Tag
	if tag == "" {
		tag = "!!str"
	}

	if plainOK(tag, n.V) && (&yaml.Node{Kind: yaml.ScalarNode, Value: n.V}).ShortTag() == tag {
		return n.V
	}

	if tag == "!!null" {
		return "null"
	}

	q := dq(n.V)
	if tag != "!!str" {
		return tag + " " + q
	}

	return q
}

// dq renders a YAML double-quoted scalar.
func dq(s string) string {
	var b strings.Builder

	b.WriteByte('"')

	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || r == 0x7f || (r >= 0x80 && r < 0xa0):
			fmt.Fprintf(&b, `\x%02x`, r)
		case r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}

	b.WriteByte('"')

	return b.String()
}

// block renders the data as block-style YAML.
func block(n *N) string {
	var b strings.Builder

	if (n.K == Map || n.K == Seq) && len(n.C) > 0 {
		writeBlock(&b, n, 0)
	} else {
		b.WriteString(flow(n) + "\n")
	}

	return b.String()
}

func writeBlock(b *strings.Builder, n *N, ind int) {
	pad := strings.Repeat(" ", ind)

	put := func(c *N) {
		if (c.K == Map || c.K == Seq) && len(c.C) > 0 {
			b.WriteString("\n")
			writeBlock(b, c, ind+2)
		} else {
			b.WriteString(" " + flow(c) + "\n")
		}
	}

	if n.K == Map {
		for i := 0; i+1 < len(n.C); i += 2 {
			b.WriteString(pad + flow(n.C[i]) + ":")
			put(n.C[i+1])
		}

		return
	}

	for _, c := range n.C {
		b.WriteString(pad + "-")
		put(c)
	}
}
