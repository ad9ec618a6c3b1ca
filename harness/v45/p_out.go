//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v2"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
)

func init() {
	props["C25"] = c25
	props["C28"] = c28
	props["C29"] = c29
}

// tree is a tree, most of them parsed, the others built.
func (g *G) tree(c *C) (e *E, n tsl.Node, how string) {
	e = g.near(g.cond(c.R.Intn(6)))
	if oneIn(c.R, 4) {
		c.Begin("the tree %s", e.dump())
		return e, toNode(e), e.dump()
	}
	s := g.phrase(e)
	c.Begin("%s", s)
	return e, mustParse(c, s), s
}

// ----------------------------------------------------------------- identifiers

func c25(c *C) {
	g := newG(c.R)
	for n := c.N(120000, 4000000); n > 0; n-- {
		e, node, how := g.tree(c)
		var names []string
		e.walk(func(x *E) {
			if x.K == "ident" {
				names = append(names, x.S)
			}
		})
		before := rawTree(node)
		failOn, mode := "", c.R.Intn(5)
		if mode == 0 && len(names) > 0 {
			failOn = pick(c.R, names)
		}
		errMap := errors.New("no such column")
		f := func(s string) string {
			switch mode {
			case 1:
				return s
			case 2:
				// a swap of two of the names
				switch s {
				case "a":
					return "b"
				case "b":
					return "a"
				}
				return s
			case 3:
				return ""
			}
			return "t." + s + "'x"
		}
		nested := oneIn(c.R, 25)
		calls := map[string]int{}
		var out tsl.Node
		var err error
		c.Guard("ident.Walk", func() {
			out, err = identwalker.Walk(node, func(s string) (string, error) {
				calls[s]++
				if nested {
					// a mapping may use the library, also on the same tree
					x, err := identwalker.Walk(node, func(string) (string, error) { return "n", nil })
					if err != nil || rawTree(node) != before || len(names) > 0 && rawTree(x) == "" {
						c.Fail("a walk inside of a mapping is a walk", "%s: %v", how, err)
					}
					if k := mustParse(c, "a = 1"); dumpNode(k) != canon(bin("=", ident("a"), num(1))) {
						c.Fail("a walk inside of a mapping is a walk", "%s: %s", how, dumpNode(k))
					}
					c.Count("mappings that use the library")
				}
				if mode == 0 && s == failOn {
					return pick(c.R, []string{"", s, "other"}), errMap
				}
				return f(s), nil
			})
		})
		if after := rawTree(node); after != before {
			c.Fail("the original tree is not changed", "%s: %s became %s", how, before, after)
		}
		want := map[string]int{}
		for _, s := range names {
			want[s]++
		}
		for s, k := range calls {
			if k > want[s] {
				c.Fail("the mapping is called once for every identifier", "%s: %d calls for %q", how, k, s)
			}
		}
		if failOn != "" || mode == 0 && len(names) > 0 {
			if err == nil || !errors.Is(err, errMap) && !strings.Contains(err.Error(), errMap.Error()) {
				c.Fail("an error of the mapping is the error of the walk", "%s with the error for %q: %v", how, failOn, err)
			}
			c.Count("errors of the mapping")
			c.Distinct("error " + canon(e) + failOn)
			continue
		}
		if err != nil {
			c.Fail("no error without an error of the mapping", "%s: %v", how, err)
		}
		for s, k := range want {
			if calls[s] != k {
				c.Fail("the mapping is called once for every identifier", "%s: %d calls for %q instead of %d", how, calls[s], s, k)
			}
		}
		m := e.clone()
		m.walk(func(x *E) {
			if x.K == "ident" {
				x.S = f(x.S)
			}
		})
		if got := dumpNode(out); got != canon(m) {
			c.Fail("the new tree has the mapped names and is the same in the rest", "%s (mapping %d): %s instead of %s", how, mode, got, canon(m))
		}
		c.Count("trees mapped")
		c.Add("identifiers mapped", len(names))
		if len(names) > 1 {
			c.Distinct(fmt.Sprint(mode, canon(e)))
			c.Sample("%s => %s", how, canon(m))
		}
		// A second walk of the new tree.
		if oneIn(c.R, 4) {
			back := map[string]bool{}
			c.Guard("ident.Walk", func() {
				_, err = identwalker.Walk(out, func(s string) (string, error) {
					back[s] = true
					return "zz", nil
				})
			})
			if err != nil || dumpNode(out) != canon(m) || rawTree(node) != before {
				c.Fail("a walk does not change its tree", "%s: %v", how, err)
			}
			for s := range want {
				if !back[f(s)] {
					c.Fail("the new tree has the mapped names", "%s: no %q", how, f(s))
				}
			}
		}
	}
}

// ----------------------------------------------------------------- documents

// docTree reads the decoded JSON or YAML document of a tree.
func docTree(v interface{}) (*E, error) {
	m := map[string]interface{}{}
	switch x := v.(type) {
	case map[string]interface{}:
		m = x
	case map[interface{}]interface{}:
		for k, y := range x {
			s, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("the key %v", k)
			}
			m[s] = y
		}
	default:
		return nil, fmt.Errorf("a node is %T %v", v, v)
	}
	for k := range m {
		if k != "func" && k != "left" && k != "right" {
			return nil, fmt.Errorf("the key %q", k)
		}
	}
	fn, ok := m["func"].(string)
	if !ok {
		return nil, fmt.Errorf("func is %v", m["func"])
	}
	l, r := m["left"], m["right"]
	if fn == "$array" {
		list, ok := r.([]interface{})
		if !ok || l != nil {
			return nil, fmt.Errorf("an array of %T and %T", l, r)
		}
		a := arr()
		for _, x := range list {
			e, err := docTree(x)
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, e)
		}
		return a, nil
	}
	if op, ok := binOps[fn]; ok {
		a, err := docTree(l)
		if err != nil {
			return nil, err
		}
		b, err := docTree(r)
		if err != nil {
			return nil, err
		}
		return bin(op, a, b), nil
	}
	if r != nil {
		return nil, fmt.Errorf("%s has a right side %v", fn, r)
	}
	if op, ok := unOps[fn]; ok {
		a, err := docTree(l)
		if err != nil {
			return nil, err
		}
		return un(op, a), nil
	}
	switch fn {
	case "$number":
		switch x := l.(type) {
		case json.Number:
			f, err := strconv.ParseFloat(string(x), 64)
			return num(f), err
		case float64:
			return num(x), nil
		case int:
			return num(float64(x)), nil
		case int64:
			return num(float64(x)), nil
		case uint64:
			return num(float64(x)), nil
		}
	case "$string":
		if s, ok := l.(string); ok {
			return str(s), nil
		}
	case "$ident":
		if s, ok := l.(string); ok {
			return ident(s), nil
		}
	case "$boolean":
		if b, ok := l.(bool); ok {
			return boolean(b), nil
		}
	case "$date":
		switch x := l.(type) {
		case string:
			t, err := time.Parse(time.RFC3339Nano, x)
			return ts(goText(t)), err
		case time.Time:
			return ts(goText(x)), nil
		}
	}
	return nil, fmt.Errorf("node %q of %T", fn, l)
}

// utc is the canonical text of e, timestamps are in UTC.
func utc(e *E) string {
	n := sortedIn(e)
	n.walk(func(x *E) {
		switch x.K {
		case "ts":
			if t, err := time.Parse(time.RFC3339Nano, x.S); err == nil {
				x.S = goText(t)
			}
			x.Text = ""
		case "num":
			if x.Num == 0 {
				x.Num = 0
			}
		}
	})
	return sortedIn(n).dump()
}

func readJSON(b []byte) (*E, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("more than one document")
	}
	return docTree(v)
}

func readYAML(b []byte) (*E, error) {
	var v interface{}
	if err := yaml.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	return docTree(v)
}

// yamlKeeps tells that the YAML library itself keeps the strings of e.
func yamlKeeps(e *E) bool {
	ok := true
	e.walk(func(x *E) {
		if (x.K == "str" || x.K == "ident") && ok {
			for _, pad := range []string{"", "{k: "} {
				_ = pad
				var back map[string]map[string]string
				b, err := yaml.Marshal(map[string]map[string]string{"a": {"left": x.S}})
				if err == nil {
					err = yaml.Unmarshal(b, &back)
				}
				ok = ok && err == nil && back["a"]["left"] == x.S
			}
		}
	})
	return ok
}

func c28(c *C) {
	g := newG(c.R)
	for n := c.N(120000, 4000000); n > 0; n-- {
		e, node, how := g.tree(c)
		want := utc(e)
		var b []byte
		var err error
		c.Guard("json.Marshal", func() { b, err = json.Marshal(node) })
		var got *E
		if err == nil {
			got, err = readJSON(b)
		}
		if err != nil || utc(got) != want {
			c.Fail("the JSON document is the tree", "%s gave %s (%v) instead of %s", how, b, err, want)
		}
		c.Count("JSON documents")
		if oneIn(c.R, 4) && yamlKeeps(e) {
			c.Guard("yaml.Marshal", func() { b, err = yaml.Marshal(node) })
			if err == nil {
				got, err = readYAML(b)
			}
			if err != nil || utc(got) != want {
				c.Fail("the YAML document is the tree", "%s gave %s (%v) instead of %s", how, b, err, want)
			}
			c.Count("YAML documents")
		}
		if e.size() > 3 {
			c.Distinct(want)
			c.Sample("%s => %s", how, b)
		}
	}
}

// ----------------------------------------------------------------- graphs

func dotNode(g *dotGraph, id string, depth int) (*E, error) {
	if depth > 10000 {
		return nil, errors.New("a cycle")
	}
	nd := g.nodes[id]
	if nd == nil {
		return nil, fmt.Errorf("node %s is not defined", id)
	}
	label, ok := nd["label"]
	if !ok {
		return nil, fmt.Errorf("node %s has no label", id)
	}
	kids := g.edges[id]
	if nd["shape"] == "record" {
		if len(kids) > 0 {
			return nil, fmt.Errorf("leaf %q has children", label)
		}
		fields, err := recordFields(label)
		if err != nil || len(fields) != 2 {
			return nil, fmt.Errorf("label %q: %v", label, err)
		}
		v := fields[1]
		quoted := func() (string, error) {
			if len(v) < 2 || v[0] != '\'' || v[len(v)-1] != '\'' {
				return "", fmt.Errorf("label %q", label)
			}
			return v[1 : len(v)-1], nil
		}
		switch fields[0] {
		case "$ident":
			s, err := quoted()
			return ident(s), err
		case "$string":
			s, err := quoted()
			return str(s), err
		case "$number":
			f, err := strconv.ParseFloat(v, 64)
			return num(f), err
		case "$boolean":
			b, err := strconv.ParseBool(v)
			return boolean(b), err
		case "$date":
			if t, err := time.Parse(time.RFC3339Nano, v); err == nil {
				return ts(goText(t)), nil
			}
			// the format of Time.String, without the name of the zone
			p := strings.Split(v, " ")
			if len(p) < 3 {
				return nil, fmt.Errorf("label %q", label)
			}
			t, err := time.Parse("2006-01-02 15:04:05 -0700", strings.Join(p[:3], " "))
			return ts(goText(t)), err
		}
		return nil, fmt.Errorf("label %q", label)
	}
	var sub []*E
	for _, k := range kids {
		s, err := dotNode(g, k, depth+1)
		if err != nil {
			return nil, err
		}
		sub = append(sub, s)
	}
	if op, ok := unOps[label]; ok && len(sub) == 1 {
		return un(op, sub[0]), nil
	}
	if op, ok := binOps[label]; ok && len(sub) == 2 {
		return bin(op, sub[0], sub[1]), nil
	}
	if label == "$array" {
		return arr(sub...), nil
	}
	return nil, fmt.Errorf("label %q with %d children", label, len(sub))
}

func readDot(s string, root string) (*E, error) {
	dg, err := parseDot(s)
	if err != nil {
		return nil, err
	}
	if err := dg.isTree(root); err != nil {
		return nil, err
	}
	return dotNode(dg, dg.root(), 0)
}

func c29(c *C) {
	g := newG(c.R)
	for n := c.N(80000, 2000000); n > 0; n-- {
		e, node, how := g.tree(c)
		id := pick(c.R, []string{"", "root", "n1"})
		before := rawTree(node)
		var out string
		var err error
		c.Guard("graphviz.Walk", func() { out, err = graphviz.Walk("", node, id) })
		if rawTree(node) != before {
			c.Fail("the walk does not change the tree", "%s", how)
		}
		var got *E
		if err == nil {
			got, err = readDot("digraph {\n"+out+"\n}\n", id)
		}
		if err != nil || utc(got) != utc(e) {
			g := "?"
			if got != nil {
				g = utc(got)
			}
			c.Fail("the graph is the tree", "%s gave\n%s\n%v\n%s\ninstead of %s", how, out, err, g, utc(e))
		}
		c.Count("graphs")
		c.Add("nodes", e.size())
		if e.size() > 3 {
			c.Distinct(utc(e))
			c.Sample("%s => %s", how, out)
		}
		if oneIn(c.R, 10) {
			// the text that was there stays
			in := "before [label=\"before\"]"
			var out2 string
			c.Guard("graphviz.Walk", func() { out2, err = graphviz.Walk(in, node, "root") })
			if err != nil || !strings.HasPrefix(out2, in+"\n") {
				c.Fail("the graph is added to the text", "%s gave %s %v", how, out2, err)
			}
			c.Count("graphs that are added to a text")
		}
	}
	// Many identifiers: no two nodes of a graph have one name.
	for n := c.N(16, 200); n > 0; n-- {
		a := arr()
		for k := 0; k < 1500; k++ {
			a.A = append(a.A, num(float64(k)))
		}
		e := bin("in", ident("a"), a)
		c.Begin("a list of 1500 numbers")
		var out string
		var err error
		c.Guard("graphviz.Walk", func() { out, err = graphviz.Walk("", toNode(e), "root") })
		var got *E
		if err == nil {
			got, err = readDot("digraph {\n"+out+"\n}\n", "root")
		}
		if err != nil || utc(got) != utc(e) {
			c.Fail("the nodes of a graph have different names", "%v", err)
		}
		c.Count("large graphs")
	}
	// So many nodes that names that are short or that are used again meet.
	for n := c.N(2, 20); n > 0; n-- {
		leaves := 3000 + c.R.Intn(25000)
		k := 0
		e := balanced(leaves, func() *E { k++; return bin("=", ident("a"), num(float64(k))) })
		c.Begin("a tree of %d conditions", leaves)
		var out string
		var err error
		c.Guard("graphviz.Walk", func() { out, err = graphviz.Walk("", toNode(e), "root") })
		var got *E
		if err == nil {
			got, err = readDot("digraph {\n"+out+"\n}\n", "root")
		}
		if err != nil || utc(got) != utc(e) {
			c.Fail("the nodes of a graph have different names", "a tree of %d conditions: %v", leaves, err)
		}
		c.Count("large graphs")
		c.Add("nodes of large graphs", e.size())
	}
}

// balanced is a tree of so many leaves, as low as it can be.
func balanced(n int, leaf func() *E) *E {
	if n == 1 {
		return leaf()
	}
	op := "and"
	if n%3 == 0 {
		op = "or"
	}
	l := balanced(n/2, leaf)
	return bin(op, l, balanced(n-n/2, leaf))
}
