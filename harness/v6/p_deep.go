//go:build go1.21

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

func init() {
	props["C18"] = c18
}

// sqlArgs are the numbers of arguments and of columns b of the conditions of the shapes.
var sqlArgs = map[string]func(n int) [2]int{
	"and chain":              func(n int) [2]int { return [2]int{0, n + 1} },
	"or chain":               func(n int) [2]int { return [2]int{0, n + 1} },
	"sum chain":              func(n int) [2]int { return [2]int{n, 0} },
	"difference chain":       func(n int) [2]int { return [2]int{n, 0} },
	"product chain":          func(n int) [2]int { return [2]int{n, 0} },
	"is null chain":          func(n int) [2]int { return [2]int{0, 0} },
	"mixed chain":            func(n int) [2]int { return [2]int{1 + 3*n, 0} },
	"in list":                func(n int) [2]int { return [2]int{n + 1, 0} },
	"long string":            func(n int) [2]int { return [2]int{1, 0} },
	"long string of escapes": func(n int) [2]int { return [2]int{1, 0} },
	"parentheses":            func(n int) [2]int { return [2]int{0, 1} },
	"not":                    func(n int) [2]int { return [2]int{0, 1} },
	"minus":                  func(n int) [2]int { return [2]int{0, 0} },
	"right nested":           func(n int) [2]int { return [2]int{0, n + 1} },
	"left nested":            func(n int) [2]int { return [2]int{0, n + 1} },
	"right sums":             func(n int) [2]int { return [2]int{1, 0} },
}

// c18: size.
func c18(c *C) {
	rec := map[string]interface{}{"a": 1, "b": true, "s": "x"}
	look := func(s string) (interface{}, bool) { v, ok := rec[s]; return v, ok }
	depth := func(n *tsl.TSLNode) (nodes int) {
		// count without recursion
		stack := []*tsl.TSLNode{n}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			nodes++
			switch x.Type() {
			case tsl.KindBinaryExpr:
				o := x.Value().(tsl.TSLExpressionOp)
				stack = append(stack, o.Left, o.Right)
			case tsl.KindUnaryExpr:
				stack = append(stack, x.Value().(tsl.TSLExpressionOp).Right)
			case tsl.KindArrayLiteral:
				stack = append(stack, x.Value().(tsl.TSLArrayLiteral).Values...)
			}
		}
		return
	}
	type shape struct {
		name  string
		make  func(n int) string
		nodes func(n int) int
		value func(n int) interface{}
		// flat shapes parse at any size, nested ones up to the limit of the parser
		flat bool
	}
	rep := strings.Repeat
	shapes := []shape{
		{"and chain", func(n int) string { return "b" + rep(" and b", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return true }, true},
		{"or chain", func(n int) string { return "b" + rep(" or b", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return true }, true},
		{"sum chain", func(n int) string { return "a" + rep(" + 1", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return float64(n + 1) }, true},
		{"difference chain", func(n int) string { return "a" + rep(" - 1", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return float64(1 - n) }, true},
		{"product chain", func(n int) string { return "a" + rep(" * 1", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return 1.0 }, true},
		{"is null chain", func(n int) string { return "a" + rep(" is null", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return false }, true},
		{"mixed chain", func(n int) string { return "a = 1" + rep(" and s = 'x' or a in [1, 2]", n) }, func(n int) int { return 3 + n*(3+1+5+1) }, func(n int) interface{} { return true }, true},
		{"array", func(n int) string { return "len [" + rep("1,", n) + "1]" }, func(n int) int { return n + 3 }, func(n int) interface{} { return float64(n + 1) }, true},
		{"in list", func(n int) string { return "a in [" + rep("7,", n) + "1]" }, func(n int) int { return n + 4 }, func(n int) interface{} { return true }, true},
		{"long string", func(n int) string { return "s = '" + rep("x", n) + "'" }, func(n int) int { return 3 }, func(n int) interface{} { return n == 1 }, true},
		{"long string of escapes", func(n int) string { return "s = '" + rep(`\x`, n) + "'" }, func(n int) int { return 3 }, func(n int) interface{} { return n == 1 }, true},
		{"long number", func(n int) string { return "a < 1" + rep("0", n%300) }, func(n int) int { return 3 }, func(n int) interface{} { return n%300 > 0 }, true},
		{"space", func(n int) string { return rep(" ", n) + "b" + rep("\n", n) }, func(n int) int { return 1 }, func(n int) interface{} { return true }, true},
		{"parentheses", func(n int) string { return rep("(", n) + "b" + rep(")", n) }, func(n int) int { return 1 }, func(n int) interface{} { return true }, false},
		{"not", func(n int) string { return rep("not ", n) + "b" }, func(n int) int { return n + 1 }, func(n int) interface{} { return n%2 == 0 }, false},
		{"minus", func(n int) string { return rep("- ", n) + "a" }, func(n int) int { return n + 1 }, func(n int) interface{} {
			if n%2 == 0 {
				return 1.0
			}
			return -1.0
		}, false},
		{"nested arrays", func(n int) string { return "len " + rep("[", n+1) + "a" + rep("]", n+1) }, func(n int) int { return n + 3 }, func(n int) interface{} { return 1.0 }, false},
		{"right nested", func(n int) string { return rep("b and (", n) + "b" + rep(")", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return true }, false},
		{"left nested", func(n int) string { return rep("(", n) + "b" + rep(" or b)", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return true }, false},
		{"right sums", func(n int) string { return rep("a + (", n) + "1" + rep(")", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return float64(n + 1) }, false},
		{"any of arrays", func(n int) string { return rep("any [", n) + "b" + rep("]", n) }, func(n int) int { return 2*n + 1 }, func(n int) interface{} { return true }, false},
	}
	sizes := []int{1, 2, 3, 7, 50, 199, 200, 201, 300, 500, 999, 1000, 1001, 1500, 1900, 2500, 3400, 5100, 9990, 10050, 20000, 60000}
	big := []int{150000, 400000}
	if c.Tier == "thorough" {
		sizes = append(sizes, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000)
		big = append(big, 1000000, 3000000)
	}
	type pair struct {
		sh shape
		n  int
	}
	var list []pair
	for _, sh := range shapes {
		for _, n := range sizes {
			list = append(list, pair{sh, n})
		}
		for _, n := range big {
			list = append(list, pair{sh, n})
		}
	}
	for i, p := range list {
		if !c.Mine(i) {
			continue
		}
		sh, n := p.sh, p.n
		s := sh.make(n)
		c.Begin("%s of size %d: %s", sh.name, n, clip(s, 200))
		node, err := parse(c, s)
		c.Distinct(fmt.Sprint(sh.name, n))
		if err != nil {
			// Deep nesting has a limit, which is reported.
			var se *tsl.SyntaxError
			if !errors.As(err, &se) {
				c.Fail("the limit of the nesting is a syntax error", "%s of size %d: %T %v", sh.name, n, err, clip(err.Error(), 200))
			}
			if sh.flat || n <= 1500 {
				c.Fail("a long phrase is accepted", "%s of size %d: %s", sh.name, n, se.Message)
			}
			c.Count("too deep: " + sh.name)
			// The parser works after that.
			k, err := parse(c, "a = 1")
			if err != nil || dumpNode(k) != "(= i:a n:1)" {
				c.Fail("the parser works after a phrase that is too deep", "after %s of size %d: %v", sh.name, n, err)
			}
			k.Free()
			continue
		}
		if got := depth(node); got != sh.nodes(n) {
			c.Fail("every part of a long phrase counts", "%s of size %d has %d nodes instead of %d", sh.name, n, got, sh.nodes(n))
		}
		var v interface{}
		c.Guard("semantics.Walk", func() { v, err = semantics.Walk(node, look) })
		if err != nil || !sameValue(v, sh.value(n)) {
			c.Fail("a long phrase has its value", "%s of size %d is %v %v instead of %v", sh.name, n, v, err, sh.value(n))
		}
		var k *tsl.TSLNode
		c.Guard("Clone", func() { k = node.Clone() })
		if got := depth(k); got != sh.nodes(n) {
			c.Fail("the clone of a long phrase is complete", "%s of size %d has %d nodes instead of %d", sh.name, n, got, sh.nodes(n))
		}
		if n <= 20000 {
			var w *tsl.TSLNode
			c.Guard("ident.Walk", func() { w, err = identwalker.Walk(k, func(s string) (string, error) { return s, nil }) })
			if err != nil || depth(w) != sh.nodes(n) {
				c.Fail("identifiers of a long phrase are replaced", "%s of size %d: %v", sh.name, n, err)
			}
			w.Free()
			c.Count("walks")
		}
		if n <= 1500 {
			b, err := json.Marshal(node)
			if err != nil {
				c.Fail("a long phrase has a JSON form", "%s of size %d: %v", sh.name, n, err)
			}
			if d, err := decodeJSON(b); err != nil {
				c.Fail("a long phrase has a JSON form", "%s of size %d: %v", sh.name, n, err)
			} else if e, err := fromDoc(d); err != nil || e.dump() != dumpNode(node) {
				c.Fail("a long phrase has a JSON form", "%s of size %d: %v", sh.name, n, err)
			}
			out, err := graphviz.Walk("", node, "root")
			if err != nil {
				c.Fail("a long phrase has a graph", "%s of size %d: %v", sh.name, n, err)
			}
			if dg, err := parseDot("digraph {" + out + "}"); err != nil || len(dg.nodes) != sh.nodes(n) {
				c.Fail("a long phrase has a graph", "%s of size %d: %v", sh.name, n, err)
			}
			c.Count("drawn")
		}
		if n <= 2500 {
			if want, ok := sqlArgs[sh.name]; ok {
				text, args, err := walkSQL(c, node)
				w := want(n)
				if err != nil || len(args) != strings.Count(text, "?") || len(args) != w[0] || strings.Count(text, "b") != w[1] {
					c.Fail("a long phrase has an SQL form", "%s of size %d: %d arguments, %d question marks, %d columns b instead of %v: %v %s", sh.name, n, len(args), strings.Count(text, "?"), strings.Count(text, "b"), w, err, clip(text, 300))
				}
				c.Count("SQL texts")
			}
		}
		c.Guard("Free", func() { k.Free(); node.Free() })
		c.Count("parsed: " + sh.name)
		if n > 1000 {
			c.Sample("%s of size %d, %d bytes, %d nodes", sh.name, n, len(s), sh.nodes(n))
		}
	}
}
