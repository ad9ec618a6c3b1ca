//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
)

func init() {
	props["C15"] = c15
	props["C16"] = c16
}

var opText = map[string]string{"EQ": "=", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "REQ": "~=", "RNE": "~!", "AND": "and", "OR": "or", "NOT": "not",
	"LIKE": "like", "ILIKE": "ilike", "IN": "in", "BETWEEN": "between", "IS": "is", "ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "MOD": "%", "NEG": "neg",
	"LEN": "len", "ANY": "any", "ALL": "all", "SUM": "sum"}

// holes tells fromDoc that parts of the tree may be missing.
var holes bool

// fromDoc reads a tree from a decoded JSON or YAML document.
func fromDoc(v interface{}) (e *E, err error) {
	if v == nil && holes {
		return nil, nil
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("a node is %T", v)
	}
	keysOnly := func(allowed ...string) error {
		for k := range m {
			found := false
			for _, a := range allowed {
				found = found || a == k
			}
			if !found {
				return fmt.Errorf("unexpected key %q in %v", k, m)
			}
		}
		return nil
	}
	sub := func(k string) (*E, error) {
		x, ok := m[k]
		if !ok && holes {
			return nil, nil
		}
		if !ok {
			return nil, fmt.Errorf("%v has no %q", m["type"], k)
		}
		return fromDoc(x)
	}
	t, _ := m["type"].(string)
	switch t {
	case "BINARY_EXP", "UNARY_EXP":
		name, _ := m["operator"].(string)
		op, ok := opText[name]
		if !ok {
			return nil, fmt.Errorf("operator %v", m["operator"])
		}
		r, err := sub("right")
		if err != nil {
			return nil, err
		}
		if t == "UNARY_EXP" {
			if err := keysOnly("type", "operator", "right"); err != nil {
				return nil, err
			}
			return un(op, r), nil
		}
		l, err := sub("left")
		if err != nil {
			return nil, err
		}
		if err := keysOnly("type", "operator", "right", "left"); err != nil {
			return nil, err
		}
		return bin(op, l, r), nil
	case "ARRAY":
		l, ok := m["values"].([]interface{})
		if !ok {
			return nil, fmt.Errorf("array values are %T", m["values"])
		}
		a := arr()
		for _, x := range l {
			e, err := fromDoc(x)
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, e)
		}
		return a, keysOnly("type", "values")
	}
	val, ok := m["value"]
	if !ok {
		return nil, fmt.Errorf("%s has no value", t)
	}
	if err := keysOnly("type", "value"); err != nil {
		return nil, err
	}
	bad := fmt.Errorf("%s value is %T %v", t, val, val)
	switch t {
	case "NUMBER":
		switch f := val.(type) {
		case json.Number:
			x, err := strconv.ParseFloat(string(f), 64)
			return num(x), err
		case float64:
			return num(f), nil
		case int:
			return num(float64(f)), nil
		case int64:
			return num(float64(f)), nil
		case uint64:
			return num(float64(f)), nil
		}
		return nil, bad
	case "STRING":
		if s, ok := val.(string); ok {
			return str(s), nil
		}
		return nil, bad
	case "IDENTIFIER":
		if s, ok := val.(string); ok {
			return ident(s), nil
		}
		return nil, bad
	case "BOOLEAN":
		if b, ok := val.(bool); ok {
			return boolean(b), nil
		}
		return nil, bad
	case "DATE", "TIMESTAMP":
		k := map[string]string{"DATE": "date", "TIMESTAMP": "ts"}[t]
		switch s := val.(type) {
		case string:
			return &E{K: k, S: s}, nil
		case time.Time:
			if k == "date" {
				return &E{K: k, S: s.Format("2006-01-02")}, nil
			}
			return &E{K: k, S: s.Format(time.RFC3339Nano)}, nil
		}
		return nil, bad
	case "NULL":
		return null(), nil
	}
	return nil, fmt.Errorf("type %v", m["type"])
}

func decodeJSON(b []byte) (v interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&v)
	if err == nil && d.More() {
		err = fmt.Errorf("more than one document")
	}
	return
}

// printable tells whether every value of e has a JSON and YAML form.
func printable(e *E) bool {
	ok := true
	e.walk(func(x *E) {
		switch x.K {
		case "num":
			ok = ok && !math.IsInf(x.Num, 0) && !math.IsNaN(x.Num)
		case "str":
			ok = ok && utf8.ValidString(x.S)
		}
	})
	return ok
}

// yamlSafe tells that the YAML library itself keeps the strings of e (it does not
// indent some of those that start with a space and have a new line).
func yamlSafe(e *E) bool {
	ok := true
	e.walk(func(x *E) {
		if x.K != "str" || !ok {
			return
		}
		for i := 0; i < len(x.S); i++ {
			if x.S[i] < ' ' && x.S[0] <= ' ' {
				ok = false
				return
			}
			if x.S[i] < ' ' {
				var back map[string]interface{}
				b, err := yaml.Marshal(map[string]interface{}{"value": x.S})
				if err == nil {
					err = yaml.Unmarshal(b, &back)
				}
				ok = err == nil && back["value"] == x.S
				return
			}
		}
	})
	return ok
}

// zero is e without negative zeros.
func zero(e *E) *E {
	n := e.clone()
	n.walk(func(x *E) { x.Num += 0 })
	return n
}

// c15: JSON and YAML.
func c15(c *C) {
	g := newG(c.R)
	for n := c.N(400000, 4000000); n > 0; n-- {
		e := g.near(g.any(c.R.Intn(6)))
		if !printable(e) {
			continue
		}
		s := g.phrase(e, false)
		c.Begin("%s", s)
		node := mustParse(c, s)
		want := e.dump()
		var b []byte
		var err error
		c.Guard("json.Marshal", func() { b, err = json.Marshal(node) })
		if err != nil {
			c.Fail("every tree has a JSON form", "%s: %v", s, err)
		}
		v, err := decodeJSON(b)
		if err != nil {
			c.Fail("the JSON form is valid", "%s gave %s: %v", s, b, err)
		}
		got, err := fromDoc(v)
		if err != nil {
			c.Fail("the JSON form is the tree", "%s gave %s: %v", s, b, err)
		}
		if got.dump() != want {
			c.Fail("the JSON form is the tree", "%s gave %s\nwhich is %s\ninstead of %s", s, b, got.dump(), want)
		}
		c.Count("json")
		if n%3 == 0 && yamlSafe(e) {
			c.Guard("yaml.Marshal", func() { b, err = yaml.Marshal(node) })
			if err != nil {
				c.Fail("every tree has a YAML form", "%s: %v", s, err)
			}
			var y interface{}
			if err := yaml.Unmarshal(b, &y); err != nil {
				c.Fail("the YAML form is valid", "%s gave\n%s\n%v", s, b, err)
			}
			got, err = fromDoc(y)
			if err != nil {
				c.Fail("the YAML form is the tree", "%s gave\n%s\n%v", s, b, err)
			}
			// YAML readers take -0 as an integer
			if zero(got).dump() != zero(e).dump() {
				c.Fail("the YAML form is the tree", "%s gave\n%s\nwhich is %s\ninstead of %s", s, b, got.dump(), want)
			}
			c.Count("yaml")
		}
		if dumpNode(node) != want {
			c.Fail("marshalling does not change the tree", "%s", s)
		}
		// As a part of a document, and as nothing.
		if oneIn(c.R, 50) {
			var nilNode *tsl.TSLNode
			c.Guard("json.Marshal", func() { b, err = json.Marshal(map[string]interface{}{"t": []*tsl.TSLNode{node, nilNode}}) })
			v, err2 := decodeJSON(b)
			if err != nil || err2 != nil {
				c.Fail("a tree can be a part of a JSON document", "%s: %s %v %v", s, b, err, err2)
			}
			l, _ := v.(map[string]interface{})["t"].([]interface{})
			if len(l) != 2 || l[1] != nil {
				c.Fail("a tree can be a part of a JSON document", "%s: %s", s, b)
			}
			if got, err := fromDoc(l[0]); err != nil || got.dump() != want {
				c.Fail("a tree can be a part of a JSON document", "%s: %s", s, b)
			}
			c.Count("parts of documents")
		}
		node.Free()
		if e.size() > 2 {
			c.Distinct(want)
			c.Sample("%s => %s", s, clip(string(b), 300))
		}
	}
}

func unescapeLabel(s string) string {
	return strings.NewReplacer(`\\`, `\`, `\{`, "{", `\}`, "}", `\|`, "|", `\<`, "<", `\>`, ">", `\ `, " ", `\n`, "\n").Replace(s)
}

// dotTree rebuilds the dump of a tree from a graph.
func dotTree(g *dotGraph, id string, depth int) (string, error) {
	if depth > 10000 {
		return "", fmt.Errorf("a cycle")
	}
	nd := g.nodes[id]
	if nd == nil {
		return "", fmt.Errorf("node %s is not defined", id)
	}
	label, ok := nd["label"]
	if !ok {
		return "", fmt.Errorf("node %s has no label", id)
	}
	kids := g.edges[id]
	var sub []string
	for _, k := range kids {
		s, err := dotTree(g, k, depth+1)
		if err != nil {
			return "", err
		}
		sub = append(sub, s)
	}
	if nd["shape"] == "record" {
		if len(kids) > 0 {
			return "", fmt.Errorf("leaf %q has children", label)
		}
		fields, err := recordFields(label)
		if err != nil {
			return "", fmt.Errorf("label %q: %v", label, err)
		}
		if len(fields) != 2 {
			return "", fmt.Errorf("label %q has %d fields", label, len(fields))
		}
		return "<" + strings.TrimSpace(fields[0]) + "|" + fields[1] + ">", nil
	}
	label = unescapeLabel(label)
	if label == "ARRAY" {
		return "[" + strings.Join(sub, " ") + "]", nil
	}
	op, ok := opText[label]
	if !ok {
		return "", fmt.Errorf("label %q", label)
	}
	return "(" + op + " " + strings.Join(sub, " ") + ")", nil
}

// dotKids are the children, those that are missing are not in the graph.
func dotKids(kids ...*E) string {
	var l []string
	for _, k := range kids {
		if k != nil {
			l = append(l, dotWant(k))
		}
	}
	return strings.Join(l, " ")
}

// dotWant is the same text from the model.
func dotWant(e *E) string {
	leaf := func(t, v string) string { return "<" + t + "|" + strings.Trim(v, " ") + ">" }
	switch e.K {
	case "num":
		return leaf("NUMBER", fmt.Sprint(e.Num))
	case "str":
		return leaf("STRING", "'"+e.S+"'")
	case "ident":
		return leaf("IDENTIFIER", "'"+e.S+"'")
	case "bool":
		return leaf("BOOLEAN", fmt.Sprint(e.B))
	case "date":
		return leaf("DATE", e.S)
	case "ts":
		if t, err := time.Parse(time.RFC3339, e.S); err == nil {
			return leaf("TIMESTAMP", fmt.Sprint(t))
		}
		return leaf("TIMESTAMP", e.S)
	case "null":
		return "<NULL|NULL>"
	case "array":
		var l []string
		for _, a := range e.A {
			l = append(l, dotWant(a))
		}
		return "[" + strings.Join(l, " ") + "]"
	case "un":
		return "(" + e.Op + " " + dotKids(e.R) + ")"
	}
	return "(" + e.Op + " " + dotKids(e.L, e.R) + ")"
}

// c16: the graph is the tree.
func c16(c *C) {
	g := newG(c.R)
	for n := c.N(300000, 3000000); n > 0; n-- {
		e := g.near(g.any(c.R.Intn(6)))
		ok := true
		e.walk(func(x *E) { ok = ok && (x.K != "str" || utf8.ValidString(x.S)) })
		if !ok {
			continue
		}
		s := g.phrase(e, false)
		c.Begin("%s", s)
		node := mustParse(c, s)
		var out string
		var err error
		root := pick(c.R, []string{"root", "root", "x1", ""})
		c.Guard("graphviz.Walk", func() { out, err = graphviz.Walk("", node, root) })
		if err != nil {
			c.Fail("every tree has a graph", "%s: %v", s, err)
		}
		if oneIn(c.R, 10) {
			// the text that was there stays
			in := "before [label=\"before\"];\n"
			var out2 string
			c.Guard("graphviz.Walk", func() { out2, err = graphviz.Walk(in, node, "root") })
			if err != nil || !strings.HasPrefix(out2, in) {
				c.Fail("the graph is added to the text", "%s gave %s %v", s, out2, err)
			}
			d2, err := parseDot("digraph {\n" + strings.ReplaceAll(out2, in, "\n") + "\n}\n")
			got := ""
			if err == nil {
				err = d2.isTree("root")
			}
			if err == nil {
				got, err = dotTree(d2, "root", 0)
			}
			if err != nil || got != dotWant(e) {
				c.Fail("the graph is added to the text", "%s gave\n%s\n%v", s, out2, err)
			}
			c.Count("graphs that are added to a text")
		}
		if dumpNode(node) != e.dump() {
			c.Fail("drawing does not change the tree", "%s", s)
		}
		node.Free()
		dg, err := parseDot("digraph {\n" + out + "\n}\n")
		if err != nil {
			c.Fail("the graph is valid DOT", "%s gave\n%s\n%v", s, out, err)
		}
		if err := dg.isTree(root); err != nil {
			c.Fail("the graph is a tree", "%s gave\n%s\n%v", s, out, err)
		}
		got, err := dotTree(dg, dg.root(), 0)
		if err != nil {
			c.Fail("the graph is the tree of the phrase", "%s gave\n%s\n%v", s, out, err)
		}
		if want := dotWant(e); got != want {
			c.Fail("the graph is the tree of the phrase", "%s gave\n%s\nwhich is %s\ninstead of %s", s, out, got, want)
		}
		if len(dg.nodes) != e.size() {
			c.Fail("the graph has a node for every node of the tree", "%s gave\n%s", s, out)
		}
		c.Count("graphs")
		c.Add("nodes", len(dg.nodes))
		if e.size() > 2 {
			c.Distinct(e.dump())
			c.Sample("%s => %s", s, clip(out, 300))
		}
	}
	// Graphs with so many nodes that names that are short or that are used again meet.
	for n := c.N(2, 20); n > 0; n-- {
		leaves := 3000 + c.R.Intn(25000)
		k := 0
		e := balanced(leaves, func() *E { k++; return bin("=", ident("a"), num(float64(k))) })
		c.Begin("a tree of %d conditions", leaves)
		node := mustParse(c, g.phrase(e, false))
		var out string
		var err error
		c.Guard("graphviz.Walk", func() { out, err = graphviz.Walk("", node, "") })
		node.Free()
		got := ""
		var dg *dotGraph
		if err == nil {
			dg, err = parseDot("digraph {\n" + out + "\n}\n")
		}
		if err == nil {
			err = dg.isTree("")
		}
		if err == nil {
			got, err = dotTree(dg, dg.root(), 0)
		}
		if err != nil || got != dotWant(e) {
			c.Fail("the graph is the tree of the phrase", "a tree of %d conditions gave\n%s\n%v", leaves, clip(out, 2000), err)
		}
		c.Count("large graphs")
		c.Add("nodes of large graphs", len(dg.nodes))
	}
}

// balanced is a tree of so many leaves, as low as it can be.
func balanced(n int, leaf func() *E) *E {
	if n == 1 {
		return leaf()
	}
	op := "and"
	if n%3 == 0 {
		op = "or"
	}
	l := balanced(n/2, leaf)
	return bin(op, l, balanced(n-n/2, leaf))
}
