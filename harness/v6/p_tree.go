//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	identwalker "github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
)

func init() {
	props["C07"] = c07
	props["C08"] = c08
}

// ---------------------------------------------------------------- C07

// owned is a tree this side owns, with its model. A nil child of the model is
// a child that was detached.
type owned struct {
	n *tsl.TSLNode
	m *E
}

// safeDump writes a real tree that may have detached children.
func safeDump(b *strings.Builder, n *tsl.TSLNode) {
	if n == nil {
		b.WriteString("<none>")
		return
	}
	c := n.Clone()
	if c == nil {
		b.WriteString("<none>")
		return
	}
	c.Free()
	switch n.Type() {
	case tsl.KindBinaryExpr, tsl.KindUnaryExpr:
		o, ok := n.Value().(tsl.TSLExpressionOp)
		if !ok {
			b.WriteString("<bad>")
			return
		}
		b.WriteString("(" + opNames[o.Operator] + " ")
		if n.Type() == tsl.KindBinaryExpr {
			safeDump(b, o.Left)
			b.WriteString(" ")
		}
		safeDump(b, o.Right)
		b.WriteString(")")
	case tsl.KindArrayLiteral:
		a, ok := n.Value().(tsl.TSLArrayLiteral)
		if !ok {
			b.WriteString("<bad>")
			return
		}
		b.WriteString("[")
		for i, e := range a.Values {
			if i > 0 {
				b.WriteString(" ")
			}
			safeDump(b, e)
		}
		b.WriteString("]")
	default:
		dumpNodeTo(b, n)
	}
}

func modelDump(b *strings.Builder, e *E) {
	if e == nil {
		b.WriteString("<none>")
		return
	}
	switch e.K {
	case "un":
		b.WriteString("(" + e.Op + " ")
		modelDump(b, e.R)
		b.WriteString(")")
	case "bin":
		b.WriteString("(" + e.Op + " ")
		modelDump(b, e.L)
		b.WriteString(" ")
		modelDump(b, e.R)
		b.WriteString(")")
	case "array":
		b.WriteString("[")
		for i, a := range e.A {
			if i > 0 {
				b.WriteString(" ")
			}
			modelDump(b, a)
		}
		b.WriteString("]")
	default:
		e.dumpTo(b)
	}
}

// holeClone copies a model that may have detached children.
func holeClone(e *E) *E {
	if e == nil {
		return nil
	}
	n := *e
	n.L, n.R, n.A = holeClone(e.L), holeClone(e.R), nil
	for _, a := range e.A {
		n.A = append(n.A, holeClone(a))
	}
	return &n
}

// pathOf picks a random node of the tree, going down the real tree and the
// model together.
func randomNode(c *C, t owned) (*tsl.TSLNode, *E) {
	n, m := t.n, t.m
	for {
		if oneIn(c.R, 3) {
			return n, m
		}
		switch m.K {
		case "bin":
			v := n.Value().(tsl.TSLExpressionOp)
			cn, cm := v.Left, m.L
			if oneIn(c.R, 2) {
				cn, cm = v.Right, m.R
			}
			if cm == nil {
				return n, m
			}
			n, m = cn, cm
		case "un":
			if m.R == nil {
				return n, m
			}
			n, m = n.Value().(tsl.TSLExpressionOp).Right, m.R
		case "array":
			if len(m.A) == 0 {
				return n, m
			}
			i := c.R.Intn(len(m.A))
			if m.A[i] == nil {
				return n, m
			}
			n, m = n.Value().(tsl.TSLArrayLiteral).Values[i], m.A[i]
		default:
			return n, m
		}
	}
}

// c07: histories of tree operations against a model.
func c07(c *C) {
	g := newG(c.R)
	// phrases parsed before, of this history and of earlier ones: what was
	// done to their trees since must not show in a tree of the same phrase
	type parsed struct {
		p string
		e *E
	}
	var before []parsed
	for h := c.N(120000, 900000); h > 0; h-- {
		var log []string
		note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		var forest []owned
		journal := func() { c.Begin("%s", strings.Join(log, "\n")) }
		compare := func(i int) {
			var x, y strings.Builder
			t := forest[i]
			c.Guard("reading a tree", func() { safeDump(&x, t.n) })
			modelDump(&y, t.m)
			if x.String() != y.String() {
				c.Fail("the tree is what the operations made it", "history:\n%s\ntree %d is %s\ninstead of %s", strings.Join(log, "\n"), i, x.String(), y.String())
			}
		}
		remove := func(i int) {
			forest = append(forest[:i:i], forest[i+1:]...)
		}
		steps := 4 + c.R.Intn(16)
		for s := 0; s < steps; s++ {
			if len(forest) == 0 || len(forest) < 4 && oneIn(c.R, 4) {
				e := g.any(1 + c.R.Intn(4))
				if oneIn(c.R, 5000) {
					// texts that are longer than any small number
					e = bin("or", e, bin("=", ident("a"+strings.Repeat("b", c.R.Intn(1<<(1+c.R.Intn(17))))), str(strings.Repeat("x", 1<<(12+c.R.Intn(6))+c.R.Intn(3))+"y")))
					c.Count("trees with very long texts")
				}
				p := g.phrase(e, false)
				if len(before) > 0 && oneIn(c.R, 3) {
					b := before[c.R.Intn(len(before))]
					if oneIn(c.R, 2) {
						b = before[len(before)-1]
					}
					p, e = b.p, b.e
					c.Count("parse of a phrase again")
				} else {
					if len(before) >= 12 {
						before = before[1:]
					}
					before = append(before, parsed{p, e})
				}
				note("parse %q", p)
				journal()
				n := mustParse(c, p)
				forest = append(forest, owned{n, e.clone()})
				continue
			}
			i := c.R.Intn(len(forest))
			t := forest[i]
			switch op := c.R.Intn(9); op {
			case 0: // clone a whole tree or a part of it
				n, m := randomNode(c, t)
				note("clone of a node of tree %d", i)
				journal()
				var k *tsl.TSLNode
				c.Guard("Clone", func() { k = n.Clone() })
				if k == nil {
					c.Fail("a clone is a copy of the tree", "history:\n%s\nthe clone is nil", strings.Join(log, "\n"))
				}
				forest = append(forest, owned{k, holeClone(m)})
				c.Count("clone")
			case 1: // free, the other trees stay as they are
				note("free tree %d", i)
				journal()
				c.Guard("Free", func() { t.n.Free() })
				if oneIn(c.R, 2) {
					c.Guard("Free", func() { t.n.Free() })
				}
				var k *tsl.TSLNode
				c.Guard("Clone", func() { k = t.n.Clone() })
				if k != nil {
					c.Fail("a freed tree has no clone", "history:\n%s", strings.Join(log, "\n"))
				}
				remove(i)
				c.Count("free")
			case 2, 3, 4: // detach
				n, m := randomNode(c, t)
				side := pick(c.R, []string{"left", "right", "child"})
				note("detach the %s of a node %s of tree %d", side, m.K, i)
				journal()
				var d *tsl.TSLNode
				var dm *E
				c.Guard("Detach", func() {
					switch side {
					case "left":
						d = n.DetachLeft()
						if m.K == "bin" {
							dm, m.L = m.L, nil
						}
					case "right":
						d = n.DetachRight()
						if m.K == "bin" {
							dm, m.R = m.R, nil
						}
					case "child":
						d = n.DetachChild()
						if m.K == "un" {
							dm, m.R = m.R, nil
						}
					}
				})
				if (d == nil) != (dm == nil) {
					c.Fail("detach gives the child, or nothing if there is none", "history:\n%s\ngot a node: %v, expected one: %v", strings.Join(log, "\n"), d != nil, dm != nil)
				}
				if d != nil {
					forest = append(forest, owned{d, dm})
					compare(len(forest) - 1)
					c.Count("detach " + side)
				} else {
					c.Count("detach of nothing")
				}
			default: // attach another tree
				n, m := randomNode(c, t)
				j := c.R.Intn(len(forest))
				if j == i {
					k := t.n.Clone()
					forest = append(forest, owned{k, holeClone(t.m)})
					j = len(forest) - 1
				}
				ch := forest[j]
				side := pick(c.R, []string{"left", "right", "child", "element"})
				idx := c.R.Intn(4) - 1
				note("attach tree %d as the %s (%d) of a node %s of tree %d", j, side, idx, m.K, i)
				journal()
				var ok, want bool
				c.Guard("Attach", func() {
					switch side {
					case "left":
						ok = n.AttachLeft(ch.n)
						if want = m.K == "bin"; want {
							m.L = ch.m
						}
					case "right":
						ok = n.AttachRight(ch.n)
						if want = m.K == "bin"; want {
							m.R = ch.m
						}
					case "child":
						ok = n.AttachChild(ch.n)
						if want = m.K == "un"; want {
							m.R = ch.m
						}
					case "element":
						ok = n.AttachElement(idx, ch.n)
						if want = m.K == "array" && idx >= 0 && idx < len(m.A); want {
							m.A[idx] = ch.m
						}
					}
				})
				if ok != want {
					c.Fail("attach succeeds exactly when the node has such a child", "history:\n%s\nreturned %v", strings.Join(log, "\n"), ok)
				}
				if ok {
					remove(j)
					c.Count("attach " + side)
				} else {
					c.Count("attach refused")
				}
				if n.AttachLeft(nil) || n.AttachRight(nil) || n.AttachChild(nil) {
					c.Fail("attach of nothing is refused", "history:\n%s", strings.Join(log, "\n"))
				}
			}
			for k := range forest {
				compare(k)
			}
			c.Count("steps compared")
		}
		c.Distinct(strings.Join(log, "\n"))
		c.Sample("%s", strings.Join(log, "; "))
		for k := range forest {
			forest[k].n.Free()
		}
	}
	// The operations of no tree.
	c.Begin("operations of a nil tree")
	c.Guard("operations of a nil tree", func() {
		var n *tsl.TSLNode
		if n.Clone() != nil || n.DetachLeft() != nil || n.DetachRight() != nil || n.DetachChild() != nil || n.AttachLeft(n) || n.AttachRight(n) || n.AttachChild(n) {
			c.Fail("the operations of a nil tree do nothing", "nil tree")
		}
	})
}

// ---------------------------------------------------------------- C08

func subst(e *E, f func(string) *E) *E {
	if e == nil {
		return nil
	}
	if e.K == "ident" {
		return f(e.S)
	}
	n := *e
	n.L, n.R, n.A = subst(e.L, f), subst(e.R, f), nil
	for _, a := range e.A {
		n.A = append(n.A, subst(a, f))
	}
	return &n
}

func identsOf(e *E) []string {
	var l []string
	e.walk(func(x *E) {
		if x.K == "ident" {
			l = append(l, x.S)
		}
	})
	sort.Strings(l)
	return l
}

func uniq(l []string) []string {
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

// c08: replacing identifiers.
func c08(c *C) {
	g := newG(c.R)
	names := []string{"a", "b", "c", "a.b", "b[0]", "labels[x.io/y]", "spec.a"}
	for n := c.N(900000, 10000000); n > 0; n-- {
		g.idents = names
		e := g.near(g.any(c.R.Intn(6)))
		if oneIn(c.R, 20) {
			e = ident(pick(c.R, names))
		}
		s := g.phrase(e, false)
		// The replacement of each of the names.
		repl := map[string]string{}
		model := map[string]*E{}
		failOn := map[string]error{}
		badSyntax := map[string]bool{}
		for _, name := range uniq(identsOf(e)) {
			switch k := c.R.Intn(24); {
			case k < 10: // another name, perhaps one that is also in the phrase
				to := pick(c.R, names)
				if oneIn(c.R, 3) {
					to = "t." + strings.NewReplacer("[", "_", "]", "_", "/", "_", "*", "_", "-", "_").Replace(name)
				}
				repl[name], model[name] = to, ident(to)
			case k < 14:
				repl[name], model[name] = name, ident(name)
			case k < 22: // an expression
				x := g.any(c.R.Intn(3))
				repl[name], model[name] = g.phrase(x, false), x
			case k == 22 && oneIn(c.R, 2):
				failOn[name] = fmt.Errorf("column %q not found", name)
				if oneIn(c.R, 2) {
					repl[name] = name
				}
			default:
				if oneIn(c.R, 3) {
					bad := pick(c.R, []string{"", "a b", "(", "a =", "'x", "and", "a\x00b"})
					repl[name], badSyntax[name] = bad, true
				} else {
					repl[name], model[name] = name, ident(name)
				}
			}
		}
		c.Begin("%s\nreplacements %q, errors %v", s, repl, failOn)
		tree := mustParse(c, s)
		before := dumpNode(tree)
		nested := oneIn(c.R, 25)
		var asked []string
		var returned []error
		var got *tsl.TSLNode
		var err error
		c.Guard("ident.Walk", func() {
			got, err = identwalker.Walk(tree, func(name string) (string, error) {
				asked = append(asked, name)
				r := repl[name]
				if nested {
					// A mapping may use the library, also on the same tree.
					k := tree.Clone()
					m, err := identwalker.Walk(k, func(string) (string, error) { return "n.n", nil })
					if err != nil || dumpNode(tree) != before {
						c.Fail("a walk inside of a mapping is a walk", "%s: %v", s, err)
					}
					m.Free()
					k.Free()
					c.Count("mappings that use the library")
				}
				if e, bad := failOn[name]; bad {
					returned = append(returned, e)
					return r, e
				}
				return r, nil
			})
		})
		if after := dumpNode(tree); after != before {
			c.Fail("the tree that is walked does not change", "%s\nreplacements %q\nbefore %s\nafter %s", s, repl, before, after)
		}
		in := uniq(identsOf(e))
		sort.Strings(asked)
		if extra := diff(uniq(asked), in); len(extra) > 0 {
			c.Fail("only the identifiers of the tree are checked", "%s\nasked for %q", s, extra)
		}
		expectErr := false
		for _, name := range in {
			if failOn[name] != nil || badSyntax[name] {
				expectErr = true
			}
		}
		if expectErr {
			if err == nil {
				c.Fail("an identifier that is refused is an error", "%s\nreplacements %q errors %v\ngave %s", s, repl, failOn, dumpNode(got))
			}
			if got != nil {
				c.Fail("no tree is returned with an error", "%s\nreplacements %q errors %v", s, repl, failOn)
			}
			if len(returned) > 0 {
				found := false
				for _, r := range returned {
					found = found || errors.Is(err, r)
				}
				if !found {
					c.Fail("the error of the check is returned", "%s\nerrors %v\ngave %v", s, failOn, err)
				}
			} else {
				var se *tsl.SyntaxError
				if !errors.As(err, &se) {
					c.Fail("a replacement that is not an expression is a syntax error", "%s\nreplacements %q\ngave %v", s, repl, err)
				}
			}
			c.Count("errors")
			tree.Free()
			continue
		}
		if err != nil || got == nil {
			c.Fail("the identifiers are replaced", "%s\nreplacements %q\nerror %v", s, repl, err)
		}
		if missing := diff(in, uniq(asked)); len(missing) > 0 {
			c.Fail("every identifier of the tree is checked", "%s\nnot asked for %q", s, missing)
		}
		want := subst(e, func(name string) *E { return model[name] }).dump()
		if d := dumpNode(got); d != want {
			c.Fail("every identifier, and nothing else, is replaced", "%s\nreplacements %q\ngave %s\ninstead of %s", s, repl, d, want)
		}
		// Both trees are independent.
		if oneIn(c.R, 2) {
			tree.Free()
			if d := dumpNode(got); d != want {
				c.Fail("the new tree does not depend on the old one", "%s\nreplacements %q\nafter free %s\ninstead of %s", s, repl, d, want)
			}
			got.Free()
		} else {
			got.Free()
			if d := dumpNode(tree); d != before {
				c.Fail("the old tree does not depend on the new one", "%s\nreplacements %q\nafter free %s\ninstead of %s", s, repl, d, before)
			}
			tree.Free()
		}
		c.Count("trees replaced")
		c.Add("identifiers replaced", len(in))
		if len(in) > 0 {
			c.Distinct(s + "\x00" + fmt.Sprint(repl))
			c.Sample("%s with %q => %s", s, repl, want)
		}
	}
}

// diff are the members of a that are not in b.
func diff(a, b []string) []string {
	in := map[string]bool{}
	for _, s := range b {
		in[s] = true
	}
	var out []string
	for _, s := range a {
		if !in[s] {
			out = append(out, s)
		}
	}
	return out
}
