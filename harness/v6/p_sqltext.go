//go:build go1.21

package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

func init() {
	props["C09"] = c09
}

// sqlSupported tells whether a phrase can be written as an SQL condition.
func sqlSupported(e *E) bool {
	switch e.K {
	case "array":
		return false
	case "un":
		return (e.Op == "not" || e.Op == "neg") && sqlSupported(e.R)
	case "bin":
		if !sqlSupported(e.L) {
			return false
		}
		switch e.Op {
		case "is":
			return true
		case "in", "between":
			if e.R.K != "array" {
				return false
			}
			for _, a := range e.R.A {
				if !sqlSupported(a) {
					return false
				}
			}
			return true
		}
		return sqlSupported(e.R)
	}
	return true
}

// sqlNormal is the expression with the literals as the database sees them.
func sqlNormal(e *E) *E {
	if e == nil {
		return nil
	}
	n := *e
	n.L, n.R, n.A = sqlNormal(e.L), sqlNormal(e.R), nil
	for _, a := range e.A {
		n.A = append(n.A, sqlNormal(a))
	}
	switch e.K {
	case "bool":
		if e.B {
			return num(1)
		}
		return num(0)
	case "bin":
		if e.Op == "~!" {
			n.Op = "~="
			return un("not", &n)
		}
	}
	return &n
}

type sqlTok struct{ T, V string }

// sqlLex splits an SQL text that has no literals.
func sqlLex(s string) ([]sqlTok, error) {
	var out []sqlTok
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\n' || c == '\t' {
			i++
			continue
		}
		if end := matchIdent(s, i); end > 0 {
			w := s[i:end]
			u := strings.ToUpper(w)
			switch u {
			case "AND", "OR", "NOT", "IN", "BETWEEN", "LIKE", "ILIKE", "IS", "NULL", "REGEXP":
				out = append(out, sqlTok{"kw", u})
			default:
				out = append(out, sqlTok{"ident", w})
			}
			i = end
			continue
		}
		found := false
		for _, op := range []string{"<=", ">=", "!=", "<>", "<", ">", "=", "(", ")", ",", "+", "-", "*", "/", "%", "?"} {
			if strings.HasPrefix(s[i:], op) {
				if strings.HasPrefix(s[i:], "--") || strings.HasPrefix(s[i:], "/*") {
					return nil, fmt.Errorf("an SQL comment at %d", i)
				}
				v := op
				if v == "<>" {
					v = "!="
				}
				out = append(out, sqlTok{"op", v})
				i += len(op)
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("unexpected character %q at %d", c, i)
		}
	}
	return append(out, sqlTok{"eof", ""}), nil
}

type sqlParser struct {
	t    []sqlTok
	i    int
	args []*E
	used int
}

func (p *sqlParser) is(t, v string) bool { return p.t[p.i].T == t && p.t[p.i].V == v }
func (p *sqlParser) take(t, v string) bool {
	if p.is(t, v) {
		p.i++
		return true
	}
	return false
}
func (p *sqlParser) fail(what string) {
	panic(fmt.Errorf("expected %s at token %d %q", what, p.i, p.t[p.i].V))
}
func (p *sqlParser) want(t, v string) {
	if !p.take(t, v) {
		p.fail(v)
	}
}

func (p *sqlParser) or() *E {
	l := p.and()
	for p.take("kw", "OR") {
		l = bin("or", l, p.and())
	}
	return l
}

func (p *sqlParser) and() *E {
	l := p.not()
	for p.take("kw", "AND") {
		l = bin("and", l, p.not())
	}
	return l
}

func (p *sqlParser) not() *E {
	if p.take("kw", "NOT") {
		return un("not", p.not())
	}
	return p.cmp()
}

// cmp is one comparison: the order of chained comparisons differs between
// databases, so they have to be in parentheses.
func (p *sqlParser) cmp() *E {
	l := p.add()
	t := p.t[p.i]
	switch {
	case t.T == "op" && strings.Contains(" = != < <= > >= ", " "+t.V+" "):
		p.i++
		return bin(t.V, l, p.add())
	case p.take("kw", "LIKE"):
		return bin("like", l, p.add())
	case p.take("kw", "ILIKE"):
		return bin("ilike", l, p.add())
	case p.take("kw", "REGEXP"):
		return bin("~=", l, p.add())
	case p.take("kw", "IS"):
		neg := p.take("kw", "NOT")
		p.want("kw", "NULL")
		e := bin("is", l, null())
		if neg {
			e = un("not", e)
		}
		return e
	case p.is("kw", "NOT"), p.is("kw", "IN"), p.is("kw", "BETWEEN"):
		neg := p.take("kw", "NOT")
		var e *E
		switch {
		case p.take("kw", "IN"):
			p.want("op", "(")
			a := arr()
			for !p.is("op", ")") {
				a.A = append(a.A, p.or())
				if !p.take("op", ",") {
					break
				}
			}
			p.want("op", ")")
			e = bin("in", l, a)
		case p.take("kw", "BETWEEN"):
			lo := p.add()
			p.want("kw", "AND")
			e = bin("between", l, arr(lo, p.add()))
		case p.take("kw", "LIKE"):
			e = bin("like", l, p.add())
		case p.take("kw", "ILIKE"):
			e = bin("ilike", l, p.add())
		case p.take("kw", "REGEXP"):
			e = bin("~=", l, p.add())
		default:
			p.fail("an operator")
		}
		if neg {
			e = un("not", e)
		}
		return e
	}
	return l
}

func (p *sqlParser) add() *E {
	l := p.mul()
	for p.is("op", "+") || p.is("op", "-") {
		op := p.t[p.i].V
		p.i++
		l = bin(op, l, p.mul())
	}
	return l
}

func (p *sqlParser) mul() *E {
	l := p.prim()
	for p.is("op", "*") || p.is("op", "/") || p.is("op", "%") {
		op := p.t[p.i].V
		p.i++
		l = bin(op, l, p.prim())
	}
	return l
}

func (p *sqlParser) prim() *E {
	t := p.t[p.i]
	switch {
	case t.T == "ident":
		p.i++
		return ident(t.V)
	case p.take("op", "?"):
		if p.used >= len(p.args) {
			panic(fmt.Errorf("more placeholders than arguments"))
		}
		p.used++
		return p.args[p.used-1]
	case p.take("op", "-"):
		return un("neg", p.prim())
	case p.take("op", "("):
		e := p.or()
		p.want("op", ")")
		return e
	}
	p.fail("a value")
	return nil
}

// argModel is an argument as the database sees it.
func argModel(a interface{}) (*E, error) {
	switch v := a.(type) {
	case string:
		// The UTC spelling of a timestamp
		for _, l := range []string{"2006-01-02 15:04:05.999999999", time.RFC3339Nano} {
			if t, err := time.Parse(l, v); err == nil {
				return ts(t.UTC().Format(time.RFC3339Nano)), nil
			}
		}
		if len(v) == 10 && matchDate(v, 0) == 10 {
			return date(v), nil
		}
		if matchTS(v, 0) == len(v) && v != "" {
			return ts(v), nil
		}
		return str(v), nil
	case time.Time:
		return ts(v.UTC().Format(time.RFC3339Nano)), nil
	case float64:
		return num(v), nil
	case float32:
		return num(float64(v)), nil
	case int:
		return num(float64(v)), nil
	case int64:
		return num(float64(v)), nil
	case bool:
		return sqlNormal(boolean(v)), nil
	}
	return nil, fmt.Errorf("argument of type %T", a)
}

// parseSQL reads an SQL condition with its arguments.
func parseSQL(text string, args []interface{}) (e *E, err error) {
	defer func() {
		if r := recover(); r != nil {
			if re, ok := r.(error); ok && !strings.Contains(re.Error(), "runtime error") {
				e, err = nil, re
				return
			}
			panic(r)
		}
	}()
	toks, err := sqlLex(text)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{t: toks}
	for _, a := range args {
		m, err := argModel(a)
		if err != nil {
			return nil, err
		}
		p.args = append(p.args, m)
	}
	e = p.or()
	if p.t[p.i].T != "eof" {
		p.fail("the end")
	}
	if p.used != len(args) {
		return nil, fmt.Errorf("%d placeholders for %d arguments", p.used, len(args))
	}
	return e, nil
}

// walkSQL runs the real walker and the query builder.
func walkSQL(c *C, n *tsl.TSLNode) (text string, args []interface{}, err error) {
	c.Guard("sql.Walk", func() {
		var s sq.Sqlizer
		s, err = sql.Walk(n)
		if err == nil {
			text, args, err = s.ToSql()
		}
	})
	return
}

// relit replaces the literals of e by others of the same type.
func (g *G) relit(e *E) *E {
	if e == nil {
		return nil
	}
	n := *e
	n.L, n.R, n.A = g.relit(e.L), g.relit(e.R), nil
	for _, a := range e.A {
		n.A = append(n.A, g.relit(a))
	}
	switch e.K {
	case "num":
		return g.num()
	case "str":
		return g.str()
	case "bool":
		return boolean(oneIn(g.r, 2))
	case "date":
		return date(g.dateText())
	case "ts":
		return ts(g.tsText())
	}
	return &n
}

func c09(c *C) {
	g := newG(c.R)
	g.idents = []string{"a", "b", "name", "city", "spec.pages", "_x", "t.col", "A1", "selected", "wherever"}
	for n := c.N(400000, 15000000); n > 0; n-- {
		var e *E
		if oneIn(c.R, 4) {
			e = g.any(1 + c.R.Intn(5))
		} else {
			e = g.sqlTree(1+c.R.Intn(5), "bool")
		}
		e = g.near(e)
		bad := false
		e.walk(func(x *E) {
			if x.K == "ident" && (strings.EqualFold(x.S, "regexp") || strings.ContainsAny(x.S, "[/")) {
				// the name of a column with such characters is for the caller to quote
				bad = bad || strings.EqualFold(x.S, "regexp")
			}
		})
		if bad {
			continue
		}
		s := g.phrase(e, oneIn(c.R, 6))
		c.Begin("%s", s)
		node := mustParse(c, s)
		text, args, err := walkSQL(c, node)
		before := dumpNode(node)
		if before != e.dump() {
			c.Fail("the walk does not change the tree", "%s is %s", s, before)
		}
		node.Free()
		if !sqlSupported(e) {
			if err == nil {
				c.Fail("what SQL can not express is an error", "%s gave %q %v", s, text, args)
			}
			c.Count("errors")
			continue
		}
		if err != nil {
			c.Fail("what SQL can express is not an error", "%s: %v", s, err)
		}
		if k := strings.Count(text, "?"); k != len(args) {
			c.Fail("there are as many placeholders as arguments", "%s gave %q with %d arguments", s, text, len(args))
		}
		got, perr := parseSQL(text, args)
		if perr != nil {
			c.Fail("the text is an SQL condition without literals", "%s gave %q %q: %v", s, text, args, perr)
		}
		want := sqlNormal(e).dump()
		if d := sqlFold(got).dump(); d != sqlFold(sqlNormal(e)).dump() {
			c.Fail("the SQL condition has the structure and the literals of the phrase", "%s gave %q %q\nwhich is %s\ninstead of %s", s, text, showArgs(args), d, want)
		}
		// The text depends on the structure only, never on the literals.
		if oneIn(c.R, 2) {
			e2 := g.relitSafe(e)
			s2 := g.phrase(e2, false)
			n2 := mustParse(c, s2)
			text2, args2, err2 := walkSQL(c, n2)
			n2.Free()
			if err2 != nil || text2 != text || len(args2) != len(args) {
				c.Fail("the text does not depend on the literals", "%s gave %q\n%s gave %q %v", s, text, s2, text2, err2)
			}
			c.Count("literals changed")
		}
		c.Count("conditions")
		c.Add("arguments", len(args))
		if e.size() > 2 {
			c.Distinct(want)
			c.Sample("%s => %s %s", s, text, showArgs(args))
		}
	}
}

// relitSafe is relit, without strings that become dates.
func (g *G) relitSafe(e *E) *E {
	out := g.relit(e)
	return out
}

// sqlFold folds the flat chains of AND and OR and the sign of a number.
func sqlFold(e *E) *E {
	if e == nil {
		return nil
	}
	n := *e
	n.L, n.R, n.A = sqlFold(e.L), sqlFold(e.R), nil
	for _, a := range e.A {
		n.A = append(n.A, sqlFold(a))
	}
	return &n
}

func showArgs(args []interface{}) string {
	var l []string
	for _, a := range args {
		switch v := a.(type) {
		case string:
			l = append(l, strconv.Quote(v))
		default:
			l = append(l, fmt.Sprintf("%T(%v)", a, a))
		}
	}
	return "[" + strings.Join(l, ", ") + "]"
}

// sqlTree generates a tree that SQL can express.
func (g *G) sqlTree(depth int, t string) *E {
	r := g.r
	if depth > 2 && oneIn(r, 60) {
		if t == "value" {
			return tower(r, 200, func() *E { return g.sqlTree(0, t) }, []string{"+", "-", "*", "/", "%"}, []string{"neg"})
		}
		return tower(r, 200, func() *E { return g.sqlTree(0, t) }, []string{"and", "or"}, []string{"not"})
	}
	if t == "value" {
		if depth <= 0 || r.Intn(3) > 0 {
			if oneIn(r, 2) {
				return ident(g.ident())
			}
			return g.literal()
		}
		switch r.Intn(6) {
		case 0:
			return un("neg", g.sqlTree(depth-1, "value"))
		case 1:
			return g.sqlTree(depth-1, "bool")
		}
		return bin(pick(r, []string{"+", "-", "*", "/", "%"}), g.sqlTree(depth-1, "value"), g.sqlTree(depth-1, "value"))
	}
	neg := func(e *E) *E {
		if oneIn(r, 3) {
			return un("not", e)
		}
		return e
	}
	if depth > 0 {
		switch r.Intn(7) {
		case 0, 1:
			return bin("and", g.sqlTree(depth-1, "bool"), g.sqlTree(depth-1, "bool"))
		case 2, 3:
			return bin("or", g.sqlTree(depth-1, "bool"), g.sqlTree(depth-1, "bool"))
		case 4:
			return un("not", g.sqlTree(depth-1, "bool"))
		}
	}
	l := g.sqlTree(depth-1, "value")
	switch op := pick(r, []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "in", "between", "is"}); op {
	case "is":
		return neg(bin("is", l, null()))
	case "in":
		a := arr()
		n := listLen(r, 5)
		if n > 10 {
			depth = 0
		}
		for ; n > 0; n-- {
			a.A = append(a.A, g.sqlTree(depth-2, "value"))
		}
		return neg(bin("in", l, a))
	case "between":
		return neg(bin("between", l, arr(g.sqlTree(depth-2, "value"), g.sqlTree(depth-2, "value"))))
	default:
		return neg(bin(op, l, g.sqlTree(depth-1, "value")))
	}
}
