//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

func init() { props["C34"] = c34 }

// removed is a part that was taken out of a tree, and where it was.
type removed struct {
	at    []int // children to follow from the root
	side  string
	n     *tsl.TSLNode
	m     *E
	depth int
}

// nodeAt follows a path in the real tree and in the model.
func nodeAt(t owned, path []int) (*tsl.TSLNode, *E) {
	n, m := t.n, t.m
	for _, i := range path {
		switch m.K {
		case "bin":
			v := n.Value().(tsl.TSLExpressionOp)
			if i == 0 {
				n, m = v.Left, m.L
			} else {
				n, m = v.Right, m.R
			}
		case "un":
			n, m = n.Value().(tsl.TSLExpressionOp).Right, m.R
		case "array":
			n, m = n.Value().(tsl.TSLArrayLiteral).Values[i], m.A[i]
		}
	}
	return n, m
}

// partPaths are the paths to the operators of the model.
func partPaths(m *E, path []int, out *[][]int) {
	if m == nil {
		return
	}
	down := func(i int, x *E) { partPaths(x, append(path[:len(path):len(path)], i), out) }
	switch m.K {
	case "bin":
		*out = append(*out, path)
		down(0, m.L)
		down(1, m.R)
	case "un":
		*out = append(*out, path)
		down(0, m.R)
	case "array":
		for i, a := range m.A {
			down(i, a)
		}
	}
}

// fillHoles gives the model with NULL for the parts that are missing.
func fillHoles(e *E) *E {
	if e == nil {
		return null()
	}
	n := *e
	switch e.K {
	case "bin":
		n.L, n.R = fillHoles(e.L), fillHoles(e.R)
	case "un":
		n.R = fillHoles(e.R)
	case "array":
		n.A = nil
		for _, a := range e.A {
			n.A = append(n.A, fillHoles(a))
		}
	}
	return &n
}

func holeDump(e *E) string {
	var b strings.Builder
	modelDump(&b, e)
	return b.String()
}

// c34: trees with parts that were detached.
func c34(c *C) {
	g := newG(c.R)
	nullTree := func() *tsl.TSLNode {
		t := mustParse(c, "a is null")
		d := t.DetachRight()
		t.Free()
		return d
	}
	var rc *rec
	for n := c.N(130000, 1500000); n > 0; n-- {
		if rc == nil || oneIn(c.R, 20) {
			rc = g.record()
		}
		var e *E
		if oneIn(c.R, 2) {
			e = g.typed(rc, pick(c.R, []string{"bool", "bool", "num", "str"}), 1+c.R.Intn(4))
		} else {
			e = g.any(1 + c.R.Intn(5))
		}
		if !printable(e) {
			continue
		}
		s := g.phrase(e, false)
		t := owned{mustParse(c, s), e.clone()}
		full := e.dump()
		var log []string
		var outs []removed
		for k := 1 + c.R.Intn(3); k > 0; k-- {
			var paths [][]int
			partPaths(t.m, nil, &paths)
			if len(paths) == 0 {
				break
			}
			p := pick(c.R, paths)
			rn, rm := nodeAt(t, p)
			side := pick(c.R, []string{"left", "right"})
			var d *tsl.TSLNode
			var dm *E
			switch {
			case rm.K == "un":
				side = "child"
				d = rn.DetachChild()
				dm, rm.R = rm.R, nil
			case side == "left":
				d = rn.DetachLeft()
				dm, rm.L = rm.L, nil
			default:
				d = rn.DetachRight()
				dm, rm.R = rm.R, nil
			}
			if (d == nil) != (dm == nil) {
				c.Fail("detach gives the child, or nothing if there is none", "%s\nthe %s at %v", s, side, p)
			}
			log = append(log, fmt.Sprintf("%s of %v", side, p))
			if d == nil {
				continue
			}
			if oneIn(c.R, 2) {
				outs = append(outs, removed{at: p, side: side, n: d, m: dm})
			} else {
				d.Free()
			}
		}
		if len(log) == 0 {
			t.n.Free()
			continue
		}
		what := s + "\nwithout: " + strings.Join(log, "; ")
		c.Begin("%s", what)
		check := func(t owned, what string) {
			want := holeDump(t.m)
			same := func(after string) {
				var b strings.Builder
				c.Guard("reading a tree with missing parts", func() { safeDump(&b, t.n) })
				if b.String() != want {
					c.Fail("the tree has the parts that were not detached", "%s\nafter %s: %s\ninstead of %s", what, after, b.String(), want)
				}
			}
			same("detach")
			holes := strings.Contains(want, "<none>")

			var b []byte
			var err error
			c.Guard("json.Marshal of a tree with missing parts", func() { b, err = json.Marshal(t.n) })
			if err != nil {
				c.Fail("a tree with missing parts has a JSON form", "%s\n%v", what, err)
			}
			v, err := decodeJSON(b)
			if err != nil {
				c.Fail("the JSON form is valid", "%s\ngave %s: %v", what, b, err)
			}
			got, err := fromHoleDoc(v)
			if err != nil || holeDump(got) != want {
				c.Fail("the JSON form shows the parts that are there", "%s\ngave %s: %v", what, b, err)
			}
			c.Count("json")

			filled := fillHoles(t.m)
			if yamlSafe(filled) && oneIn(c.R, 2) {
				c.Guard("yaml.Marshal of a tree with missing parts", func() { b, err = yaml.Marshal(t.n) })
				if err != nil {
					c.Fail("a tree with missing parts has a YAML form", "%s\n%v", what, err)
				}
				var y interface{}
				if err := yaml.Unmarshal(b, &y); err != nil {
					c.Fail("the YAML form is valid", "%s\ngave %s: %v", what, b, err)
				}
				got, err := fromHoleDoc(y)
				if err == nil {
					got.walk(func(x *E) { x.Num += 0 })
				}
				zm := holeClone(t.m)
				zm.walk(func(x *E) { x.Num += 0 })
				if err != nil || holeDump(got) != holeDump(zm) {
					c.Fail("the YAML form shows the parts that are there", "%s\ngave\n%s\n%v", what, b, err)
				}
				c.Count("yaml")
			}

			var out string
			c.Guard("graphviz.Walk of a tree with missing parts", func() { out, err = graphviz.Walk("", t.n, "root") })
			valid := true
			filled.walk(func(x *E) { valid = valid && (x.K != "str" || utf8.ValidString(x.S)) })
			if err == nil && valid {
				dg, err := parseDot("digraph {\n" + out + "\n}\n")
				if err != nil {
					c.Fail("the graph is valid DOT", "%s\ngave\n%s\n%v", what, out, err)
				}
				got, err := dotTree(dg, "root", 0)
				if err != nil || got != dotWant(t.m) {
					c.Fail("the graph shows the parts that are there", "%s\ngave\n%s\nwhich is %s\ninstead of %s, %v", what, out, got, dotWant(t.m), err)
				}
				c.Count("graphs")
			} else if err != nil && !holes {
				c.Fail("every tree has a graph", "%s\n%v", what, err)
			}

			c.Guard("sql.Walk of a tree with missing parts", func() {
				q, err := sql.Walk(t.n)
				if !holes {
					return
				}
				if err == nil {
					text, args, err := q.ToSql()
					c.Fail("a tree with missing parts is no SQL condition", "%s\ngave %q %v %v", what, text, args, err)
				}
				c.Count("sql errors")
			})

			// A part that is missing has no value, the same as NULL.
			ref := &refEnv{vals: rc.vals}
			exp := ref.eval(filled)
			var val interface{}
			c.Guard("semantics.Walk of a tree with missing parts", func() { val, err = semantics.Walk(t.n, rc.lookup) })
			switch {
			case exp.unsp:
				c.Count("value not specified")
			case exp.errs != nil:
				if err == nil {
					c.Fail("a part that is missing has no value", "%s\nrecord %s\nvalue %s instead of an error: %s", what, rc.used(filled), show(val), exp.errs)
				}
				c.Count("evaluation errors")
			case err != nil:
				c.Fail("a part that is missing is NULL", "%s\nrecord %s\nerror %v instead of %s", what, rc.used(filled), err, show(exp.v))
			case !sameValue(val, exp.v):
				c.Fail("a part that is missing is NULL", "%s\nrecord %s\nvalue %s instead of %s", what, rc.used(filled), show(val), show(exp.v))
			default:
				c.Count("values")
			}

			var nt *tsl.TSLNode
			c.Guard("ident.Walk of a tree with missing parts", func() {
				nt, err = identwalker.Walk(t.n, func(name string) (string, error) { return "zz", nil })
			})
			if err != nil || nt == nil {
				c.Fail("the identifiers of a tree with missing parts are replaced", "%s\n%v", what, err)
			}
			var x strings.Builder
			c.Guard("reading the new tree", func() { safeDump(&x, nt) })
			if w := holeDump(substHoles(t.m)); x.String() != w {
				c.Fail("the identifiers of a tree with missing parts are replaced", "%s\ngave %s\ninstead of %s", what, x.String(), w)
			}
			nt.Free()
			c.Count("identifiers replaced")
			same("all of the readers")
			c.Distinct(want)
			c.Sample("%s => %s", strings.ReplaceAll(what, "\n", " "), want)
		}
		check(t, what)
		// Put the parts back, last one first.
		if len(outs) == len(log) && oneIn(c.R, 2) {
			for i := len(outs) - 1; i >= 0; i-- {
				o := outs[i]
				rn, rm := nodeAt(t, o.at)
				ok := false
				switch o.side {
				case "left":
					ok = rn.AttachLeft(o.n)
					rm.L = o.m
				case "right":
					ok = rn.AttachRight(o.n)
					rm.R = o.m
				default:
					ok = rn.AttachChild(o.n)
					rm.R = o.m
				}
				if !ok {
					c.Fail("a part can be put back", "%s", what)
				}
			}
			if d := dumpNode(t.n); d != full {
				c.Fail("putting the parts back gives the tree that was", "%s\ngave %s\ninstead of %s", what, d, full)
			}
			check(t, what+"\nand back")
			c.Count("parts put back")
		} else {
			for _, o := range outs {
				o.n.Free()
			}
			// A clone has the same missing parts, and NULL can take their place.
			if oneIn(c.R, 3) {
				k := owned{t.n.Clone(), holeClone(t.m)}
				if k.n == nil {
					c.Fail("a clone is a copy of the tree", "%s", what)
				}
				check(k, what+"\ncloned")
				var paths [][]int
				partPaths(k.m, nil, &paths)
				for _, p := range paths {
					rn, rm := nodeAt(k, p)
					if rm.K == "bin" && rm.L == nil {
						rn.AttachLeft(nullTree())
						rm.L = null()
					}
					if rm.R == nil {
						if rm.K == "bin" {
							rn.AttachRight(nullTree())
						} else {
							rn.AttachChild(nullTree())
						}
						rm.R = null()
					}
				}
				check(k, what+"\nwith NULL for the missing parts")
				k.n.Free()
				c.Count("clones")
			}
		}
		t.n.Free()
	}

	// No tree at all.
	c.Begin("readers of a nil tree")
	c.Guard("readers of a nil tree", func() {
		var nt *tsl.TSLNode
		if b, err := nt.MarshalJSON(); err != nil || string(b) != "null" {
			c.Fail("no tree is null in JSON", "%q %v", b, err)
		}
		if b, err := json.Marshal(nt); err != nil || string(b) != "null" {
			c.Fail("no tree is null in JSON", "%q %v", b, err)
		}
		if v, err := nt.MarshalYAML(); err != nil || v != nil {
			c.Fail("no tree is null in YAML", "%v %v", v, err)
		}
		if b, err := yaml.Marshal(nt); err != nil || strings.TrimSpace(string(b)) != "null" {
			c.Fail("no tree is null in YAML", "%q %v", b, err)
		}
		if v, err := semantics.Walk(nt, rc.lookup); v != nil {
			c.Fail("no tree has no value", "%v %v", v, err)
		}
		if v, _ := identwalker.Walk(nt, func(s string) (string, error) { return s, nil }); v != nil {
			c.Fail("no tree has no identifiers", "%v", v)
		}
		if v, err := sql.Walk(nt); err == nil {
			c.Fail("no tree is no SQL condition", "%v", v)
		}
		graphviz.Walk("", nt, "x")
		c.Count("nil trees")
	})
}

// substHoles is the model with zz for each of the identifiers.
func substHoles(e *E) *E {
	return subst(e, func(string) *E { return ident("zz") })
}

// fromHoleDoc reads a tree that may have missing parts.
func fromHoleDoc(v interface{}) (*E, error) {
	holes = true
	defer func() { holes = false }()
	return fromDoc(v)
}
