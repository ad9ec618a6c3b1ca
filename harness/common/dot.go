//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

// A parser of the part of the DOT language that the graphs use.

type dotGraph struct {
	nodes map[string]map[string]string
	edges map[string][]string
	order []string
}

func dotIsID(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c >= 0x80
}

func dotLex(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '"':
			var b strings.Builder
			b.WriteByte('"')
			j := i + 1
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' && j+1 < len(s) && s[j+1] == '"' {
					// \" is a quote, any other escape is for the label
					b.WriteByte('"')
					j++
					continue
				}
				if s[j] == '\\' && j+1 < len(s) && s[j+1] == '\\' {
					b.WriteString(`\\`)
					j++
					continue
				}
				b.WriteByte(s[j])
			}
			if j >= len(s) {
				return nil, fmt.Errorf("a string that does not end at %d", i)
			}
			out = append(out, b.String())
			i = j + 1
		case strings.HasPrefix(s[i:], "->"):
			out = append(out, "->")
			i += 2
		case strings.IndexByte("{}[]=,;", c) >= 0:
			out = append(out, string(c))
			i++
		case dotIsID(c):
			j := i
			for j < len(s) && dotIsID(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q at %d", c, i)
		}
	}
	return out, nil
}

func parseDot(s string) (*dotGraph, error) {
	t, err := dotLex(s)
	if err != nil {
		return nil, err
	}
	g := &dotGraph{nodes: map[string]map[string]string{}, edges: map[string][]string{}}
	i := 0
	next := func() string {
		if i < len(t) {
			i++
			return t[i-1]
		}
		return ""
	}
	peek := func() string {
		if i < len(t) {
			return t[i]
		}
		return ""
	}
	if next() != "digraph" {
		return nil, fmt.Errorf("no digraph")
	}
	if peek() != "{" {
		next()
	}
	if next() != "{" {
		return nil, fmt.Errorf("no {")
	}
	isID := func(s string) bool { return s != "" && (dotIsID(s[0]) || s[0] == '"') }
	for {
		tok := next()
		if tok == "}" {
			break
		}
		if tok == ";" {
			continue
		}
		if !isID(tok) {
			return nil, fmt.Errorf("expected a name at token %d, not %q", i-1, tok)
		}
		id := tok
		if peek() == "->" {
			next()
			if peek() == "{" {
				next()
				for peek() != "}" {
					k := next()
					if k == "," || k == ";" {
						continue
					}
					if !isID(k) {
						return nil, fmt.Errorf("expected a name at token %d, not %q", i-1, k)
					}
					g.edges[id] = append(g.edges[id], k)
				}
				next()
			} else {
				k := next()
				if !isID(k) {
					return nil, fmt.Errorf("expected a name at token %d, not %q", i-1, k)
				}
				g.edges[id] = append(g.edges[id], k)
			}
			continue
		}
		if g.nodes[id] != nil {
			return nil, fmt.Errorf("node %s is defined twice", id)
		}
		attrs := map[string]string{}
		if peek() == "[" {
			next()
			for peek() != "]" {
				k := next()
				if k == "," || k == ";" {
					continue
				}
				if !isID(k) || next() != "=" {
					return nil, fmt.Errorf("bad attribute %q at token %d", k, i-1)
				}
				v := next()
				if !isID(v) {
					return nil, fmt.Errorf("bad value %q at token %d", v, i-1)
				}
				attrs[k] = strings.TrimPrefix(v, `"`)
			}
			next()
		}
		g.nodes[id] = attrs
		g.order = append(g.order, id)
	}
	if i != len(t) {
		return nil, fmt.Errorf("text after the graph")
	}
	return g, nil
}

// root is the node that is not a child.
func (g *dotGraph) root() string {
	child := map[string]bool{}
	for _, l := range g.edges {
		for _, k := range l {
			child[k] = true
		}
	}
	for _, id := range g.order {
		if !child[id] {
			return id
		}
	}
	return ""
}

// isTree checks that the graph is one tree, of the given root.
func (g *dotGraph) isTree(root string) error {
	parents := map[string]int{}
	for id, l := range g.edges {
		if g.nodes[id] == nil {
			return fmt.Errorf("edge of node %s which is not defined", id)
		}
		for _, k := range l {
			if g.nodes[k] == nil {
				return fmt.Errorf("edge to node %s which is not defined", k)
			}
			parents[k]++
		}
	}
	roots := 0
	for _, id := range g.order {
		switch parents[id] {
		case 0:
			roots++
			if root != "" && id != root {
				return fmt.Errorf("the root is %s", id)
			}
		case 1:
		default:
			return fmt.Errorf("node %s has %d parents", id, parents[id])
		}
	}
	if roots != 1 {
		return fmt.Errorf("%d roots", roots)
	}
	return nil
}

// recordFields splits a record label in its fields.
func recordFields(label string) ([]string, error) {
	var out []string
	var b strings.Builder
	for i := 0; i < len(label); i++ {
		switch c := label[i]; c {
		case '\\':
			if i+1 >= len(label) {
				return nil, fmt.Errorf("ends with a backslash")
			}
			i++
			switch label[i] {
			case 'n', 'l', 'r':
				b.WriteByte('\n')
			default:
				b.WriteByte(label[i])
			}
		case '|':
			out = append(out, b.String())
			b.Reset()
		case '{', '}', '<', '>':
			return nil, fmt.Errorf("has a bare %q", c)
		default:
			b.WriteByte(c)
		}
	}
	out = append(out, b.String())
	for i := range out {
		// the spaces at the ends of a field do not show
		out[i] = strings.Trim(out[i], " ")
	}
	return out, nil
}
