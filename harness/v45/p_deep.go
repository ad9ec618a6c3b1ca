//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
)

func init() { props["C36"] = c36 }

// countTree counts the nodes of a tree, and its identifiers.
func countTree(v interface{}) (nodes, idents, literals int) {
	stack := []interface{}{v}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		n, ok := x.(tsl.Node)
		if !ok {
			continue
		}
		nodes++
		switch n.Func {
		case tsl.IdentOp:
			idents++
		case tsl.NumberOp, tsl.StringOp, "$date", "$boolean":
			literals++
		case tsl.ArrayOp:
			if list, ok := n.Right.([]tsl.Node); ok {
				for _, y := range list {
					stack = append(stack, y)
				}
			}
		default:
			stack = append(stack, n.Left, n.Right)
		}
	}
	return
}

// c36: size.
func c36(c *C) {
	rep := strings.Repeat
	type shape struct {
		name     string
		make     func(n int) string
		nodes    func(n int) int
		idents   func(n int) int
		value    func(n int) bool
		max      int // of the phrase
		sql, dot int // of the walk
		args     func(n int) int
	}
	one := func(int) int { return 1 }
	more := func(n int) int { return n + 1 }
	yes := func(int) bool { return true }
	no := func(int) bool { return false }
	list := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%d, ", i+2)
		}
		return b.String() + "1"
	}
	words := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "'w%d', ", i)
		}
		return b.String() + "'x'"
	}
	shapes := []shape{
		{"and chain", func(n int) string { return rep("a = 1 and ", n) + "s = 'x'" }, func(n int) int { return 4*n + 3 }, more, yes, 60000, 20000, 300, more},
		{"or chain", func(n int) string { return rep("a = 2 or ", n) + "s = 'x'" }, func(n int) int { return 4*n + 3 }, more, yes, 60000, 20000, 300, more},
		{"or of and", func(n int) string { return rep("a = 1 and b = 1 or ", n) + "s = 'y'" }, func(n int) int { return 8*n + 3 }, func(n int) int { return 2*n + 1 }, no, 20000, 20000, 200, func(n int) int { return 2*n + 1 }},
		{"right nested", func(n int) string { return rep("a = 1 and (", n) + "s = 'x'" + rep(")", n) }, func(n int) int { return 4*n + 3 }, more, yes, 20000, 10000, 300, more},
		{"not", func(n int) string { return rep("not ", n) + "a = 1" }, func(n int) int { return n + 3 }, one, func(n int) bool { return n%2 == 0 }, 60000, 300, 300, one},
		{"not of parentheses", func(n int) string { return rep("not (", n) + "a = 1" + rep(")", n) }, func(n int) int { return n + 3 }, one, func(n int) bool { return n%2 == 0 }, 20000, 300, 300, one},
		{"numbers in", func(n int) string { return "a in (" + list(n) + ")" }, func(n int) int { return n + 4 }, one, yes, 60000, 60000, 1000, more},
		{"numbers not in", func(n int) string { return "a not in (" + list(n) + ")" }, func(n int) int { return n + 4 }, one, no, 60000, 60000, 1000, more},
		{"strings in", func(n int) string { return "s in (" + words(n) + ")" }, func(n int) int { return n + 4 }, one, yes, 60000, 60000, 1000, more},
		{"strings not in", func(n int) string { return "s not in (" + words(n) + ")" }, func(n int) int { return n + 4 }, one, no, 60000, 60000, 1000, more},
		{"long string", func(n int) string { return "s != '" + rep("x''", n) + "x'" }, func(n int) int { return 3 }, one, func(n int) bool { return n > 0 }, 400000, 400000, 60000, one},
		{"long identifier", func(n int) string { return "a" + rep("b", n) + " is null" }, func(n int) int { return 2 }, one, func(n int) bool { return n > 0 }, 400000, 400000, 60000, func(int) int { return 0 }},
		{"space", func(n int) string {
			return rep(" \n\t", n) + "a" + rep(" ", n) + "=" + rep("\r\n", n) + "1" + rep(" ", n)
		}, func(n int) int { return 3 }, one, yes, 60000, 60000, 60000, one},
		{"parentheses", func(n int) string { return rep("(", n) + "a = 1" + rep(")", n) }, func(n int) int { return 3 }, one, yes, 30, 30, 30, one},
		{"left nested", func(n int) string { return rep("(", n) + "a = 1" + rep(" and b = 2)", n) }, func(n int) int { return 4*n + 3 }, more, yes, 30, 30, 30, more},
	}
	if V == 5 {
		sums := []shape{
			{"sums", func(n int) string { return "a" + rep(" + 1", n) + fmt.Sprintf(" = %d", n+1) }, func(n int) int { return 2*n + 3 }, one, yes, 20000, 5000, 300, nil},
			{"differences", func(n int) string { return "a" + rep(" - b", n) + fmt.Sprintf(" = -%d", 2*n-1) }, func(n int) int { return 2*n + 3 }, more, yes, 30, 30, 30, nil},
			{"products", func(n int) string { return "b" + rep(" * 1", n) + " = 2" }, func(n int) int { return 2*n + 3 }, one, yes, 20000, 5000, 300, nil},
		}
		shapes = append(shapes, sums...)
	}
	sizes := []int{1, 2, 3, 7, 15, 16, 17, 30, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4096, 5000, 8192, 10000, 20000}
	if c.Tier == "thorough" {
		for n := 1; n < 700; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 4095, 4097, 8191, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 60000, 100000, 400000)
	}
	rec := map[string]interface{}{"a": 1, "b": 2.0, "s": "x"}
	i := 0
	for _, n := range sizes {
		for _, sh := range shapes {
			if n > sh.max {
				continue
			}
			if i++; !c.Mine(i) {
				continue
			}
			s := sh.make(n)
			c.Begin("%s of size %d: %s", sh.name, n, clip(s, 200))
			node := mustParse(c, s)
			nodes, idents, literals := countTree(node)
			if nodes != sh.nodes(n) || idents != sh.idents(n) {
				c.Fail("every part of a long phrase counts", "%s of size %d has %d nodes, %d identifiers instead of %d, %d", sh.name, n, nodes, idents, sh.nodes(n), sh.idents(n))
			}
			c.Count("parsed: " + sh.name)
			c.Add("nodes", nodes)
			c.Distinct(fmt.Sprint(sh.name, n))
			v, err := runEval(c, node, rec)
			if err != nil || v != sh.value(n) {
				c.Fail("a long phrase has its value", "%s of size %d is %v %v instead of %v", sh.name, n, v, err, sh.value(n))
			}
			asked := 0
			var w tsl.Node
			c.Guard("ident.Walk", func() {
				w, err = identwalker.Walk(node, func(s string) (string, error) { asked++; return "p" + s, nil })
			})
			if n2, i2, l2 := countTree(w); err != nil || n2 != nodes || i2 != idents || l2 != literals || asked != idents {
				c.Fail("the identifiers of a long phrase are mapped", "%s of size %d: %d nodes, %d identifiers, %d literals, %d mapped of %d, %d, %d: %v", sh.name, n, n2, i2, l2, asked, nodes, idents, literals, err)
			}
			var f bson.D
			c.Guard("mongo.Walk", func() { f, err = mongo.Walk(node) })
			if e, _ := fromNode(node); e != nil && mongoCan(e) {
				if err != nil {
					c.Fail("a long phrase has a MongoDB filter", "%s of size %d: %v", sh.name, n, err)
				}
				raw, err := bson.Marshal(f)
				var d bson.D
				if err == nil {
					err = bson.Unmarshal(raw, &d)
				}
				if err != nil {
					c.Fail("a long phrase has a MongoDB filter", "%s of size %d: %v", sh.name, n, err)
				}
				var got interface{}
				func() {
					defer func() {
						if r := recover(); r != nil {
							got = r
						}
					}()
					got = mongoMatch(rec2doc(rec), d)
				}()
				if got != sh.value(n) {
					c.Fail("a long phrase has a MongoDB filter", "%s of size %d selects wrong: %v", sh.name, n, clip(fmt.Sprint(got), 300))
				}
				c.Count("MongoDB filters")
			}
			if n <= sh.sql {
				text, args, err := walkSQL(c, node)
				if err != nil {
					c.Fail("a long phrase has an SQL form", "%s of size %d: %v", sh.name, n, err)
				}
				if sh.args != nil {
					if len(args) != sh.args(n) || strings.Count(text, "?") != sh.args(n) {
						c.Fail("a long phrase has an SQL form", "%s of size %d: %d arguments, %d question marks of %d", sh.name, n, len(args), strings.Count(text, "?"), sh.args(n))
					}
				}
				if n <= 2000 {
					e, err1 := fromNode(node)
					m, err2 := parseSQL(text, args)
					if err1 != nil || err2 != nil {
						c.Fail("a long phrase has an SQL form", "%s of size %d: %v %v", sh.name, n, err1, err2)
					}
					if sh.args != nil && m.size() < e.size() {
						c.Fail("a long phrase has an SQL form", "%s of size %d: %d parts instead of %d", sh.name, n, m.size(), e.size())
					}
				}
				c.Count("SQL texts")
			}
			// The standard library has a limit of the nesting of its own.
			if n <= 2048 || strings.Contains(sh.name, "in") && n <= 20000 && nodes == n+4 {
				b, err := json.Marshal(node)
				if err != nil {
					c.Fail("a long phrase has a JSON form", "%s of size %d: %v", sh.name, n, err)
				}
				var d interface{}
				if err := json.Unmarshal(b, &d); err != nil {
					c.Fail("a long phrase has a JSON form", "%s of size %d: %v", sh.name, n, err)
				}
				e, err := docTree(d)
				if err != nil || e.size() != nodes {
					c.Fail("a long phrase has a JSON form", "%s of size %d: %v", sh.name, n, err)
				}
				c.Count("JSON forms")
			}
			if n <= sh.dot {
				var out string
				c.Guard("graphviz.Walk", func() { out, err = graphviz.Walk("", node, "root") })
				if err != nil {
					c.Fail("a long phrase has a graph", "%s of size %d: %v", sh.name, n, err)
				}
				if dg, err := parseDot("digraph {" + out + "}"); err != nil || len(dg.nodes) < nodes-literals {
					c.Fail("a long phrase has a graph", "%s of size %d: %v", sh.name, n, err)
				}
				c.Count("graphs")
			}
			if n > 1000 {
				c.Sample("%s of size %d, %d bytes, %d nodes", sh.name, n, len(s), nodes)
			}
			// a phrase that breaks off is an error, however long it is
			bad := s
			for _, end := range []string{"'x'", "'x')", "1", "1)", "null"} {
				bad = strings.TrimSuffix(bad, end)
			}
			if bad != s && n <= 20000 && !strings.Contains(sh.name, "paren") && sh.name != "long string" && !isMathShape(sh.name) && !strings.Contains(sh.name, "nested") {
				var err error
				c.Guard("ParseTSL", func() { _, err = tsl.ParseTSL(bad) })
				if err == nil {
					c.Fail("a long text that breaks off is an error", "%s of size %d, %q", sh.name, n, clip(bad, 100))
				}
				c.Count("broken off")
			}
		}
	}
}

// rec2doc is a record as a document.
func rec2doc(rec map[string]interface{}) map[string]interface{} {
	d := map[string]interface{}{}
	for k, v := range rec {
		if x, ok := v.(int); ok {
			v = float64(x)
		}
		d[k] = v
	}
	return d
}

func isMathShape(s string) bool { return s == "sums" || s == "differences" || s == "products" }
