//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

func init() { props["C23"] = c23 }

// walkSQL runs the real walker and the query builder.
func walkSQL(c *C, n tsl.Node) (text string, args []interface{}, err error) {
	c.Guard("sql.Walk", func() {
		var s sq.Sqlizer
		s, err = sql.Walk(n)
		if err == nil {
			text, args, err = s.ToSql()
		}
	})
	return
}

// sqlCan tells whether SQL has the operators of a phrase.
func sqlCan(e *E) bool {
	ok := true
	e.walk(func(x *E) {
		if x.K == "bin" && (x.Op == "~=" || x.Op == "~!") {
			ok = false
		}
	})
	return ok
}

// sqlModel is the condition that a phrase is: literals of math are inline texts,
// the others are arguments, booleans are numbers, negations are NOT.
func sqlModel(e *E) *E {
	n := *e
	if e.L != nil {
		n.L = sqlModel(e.L)
	}
	if e.R != nil {
		n.R = sqlModel(e.R)
	}
	n.A = nil
	for _, a := range e.A {
		n.A = append(n.A, sqlModel(a))
	}
	n.Text = ""
	switch e.K {
	case "bool":
		if e.B {
			return num(1)
		}
		return num(0)
	case "un":
		switch e.Op {
		case "isnull":
			return bin("is", n.R, null())
		case "notnull":
			return un("not", bin("is", n.R, null()))
		}
	case "bin":
		switch e.Op {
		case "in", "nin":
			if len(e.R.A) == 0 {
				return boolean(e.Op == "nin")
			}
			if e.Op == "nin" {
				n.Op = "in"
				return un("not", &n)
			}
		case "nbetween":
			n.Op = "between"
			return un("not", &n)
		}
	}
	return &n
}

type sqlTok struct{ T, V string }

func sqlLex(s string) ([]sqlTok, error) {
	var out []sqlTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ':
			i++
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			e := i
			for e < len(s) && (s[e] >= 'a' && s[e] <= 'z' || s[e] >= 'A' && s[e] <= 'Z' || s[e] == '_' || s[e] == '.' || s[e] >= '0' && s[e] <= '9') {
				e++
			}
			switch u := strings.ToUpper(s[i:e]); u {
			case "AND", "OR", "NOT", "IN", "BETWEEN", "LIKE", "ILIKE", "IS", "NULL", "TRUE", "FALSE":
				out = append(out, sqlTok{"kw", u})
			default:
				out = append(out, sqlTok{"ident", s[i:e]})
			}
			i = e
		case c >= '0' && c <= '9' || c == '.':
			e := i
			for e < len(s) && (s[e] >= '0' && s[e] <= '9' || s[e] == '.' || s[e] == 'e' || s[e] == 'E' || (s[e] == '+' || s[e] == '-') && (s[e-1] == 'e' || s[e-1] == 'E')) {
				e++
			}
			out = append(out, sqlTok{"num", s[i:e]})
			i = e
		case c == '\'':
			e := strings.IndexByte(s[i+1:], '\'')
			if e < 0 {
				return nil, fmt.Errorf("an open quote at %d", i)
			}
			out = append(out, sqlTok{"text", s[i+1 : i+1+e]})
			i += e + 2
		default:
			found := false
			for _, op := range []string{"<=", ">=", "!=", "<>", "<", ">", "=", "(", ")", ",", "+", "-", "*", "/", "%", "?"} {
				if strings.HasPrefix(s[i:], op) {
					if strings.HasPrefix(s[i:], "--") || strings.HasPrefix(s[i:], "/*") {
						return nil, fmt.Errorf("an SQL comment at %d", i)
					}
					if op == "<>" {
						op = "!="
						i += 0
					}
					out = append(out, sqlTok{"op", op})
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				return nil, fmt.Errorf("unexpected character %q at %d", c, i)
			}
		}
	}
	return append(out, sqlTok{"eof", ""}), nil
}

type sqlParser struct {
	t    []sqlTok
	i    int
	args []*E
	used int
}

func (p *sqlParser) is(t, v string) bool { return p.t[p.i].T == t && p.t[p.i].V == v }
func (p *sqlParser) take(t, v string) bool {
	if p.is(t, v) {
		p.i++
		return true
	}
	return false
}

type sqlErr struct{ s string }

func (p *sqlParser) fail(what string) {
	panic(sqlErr{fmt.Sprintf("expected %s at token %d %q", what, p.i, p.t[p.i].V)})
}
func (p *sqlParser) want(t, v string) {
	if !p.take(t, v) {
		p.fail(v)
	}
}

func (p *sqlParser) or() *E {
	l := p.and()
	for p.take("kw", "OR") {
		l = bin("or", l, p.and())
	}
	return l
}

func (p *sqlParser) and() *E {
	l := p.not()
	for p.take("kw", "AND") {
		l = bin("and", l, p.not())
	}
	return l
}

func (p *sqlParser) not() *E {
	if p.take("kw", "NOT") {
		return un("not", p.not())
	}
	return p.cmp()
}

func (p *sqlParser) cmp() *E {
	l := p.add()
	t := p.t[p.i]
	switch {
	case t.T == "op" && strings.Contains(" = != < <= > >= ", " "+t.V+" "):
		p.i++
		r := p.add()
		if t.V == "=" && l.K == "num" && r.K == "num" && l.Text == "inline" && r.Text == "inline" {
			return boolean(l.Num == r.Num)
		}
		return bin(t.V, l, r)
	case p.take("kw", "IS"):
		neg := p.take("kw", "NOT")
		p.want("kw", "NULL")
		e := bin("is", l, null())
		if neg {
			e = un("not", e)
		}
		return e
	}
	neg := p.take("kw", "NOT")
	var e *E
	switch {
	case p.take("kw", "IN"):
		p.want("op", "(")
		a := arr()
		for !p.is("op", ")") {
			a.A = append(a.A, p.or())
			if !p.take("op", ",") {
				break
			}
		}
		p.want("op", ")")
		e = bin("in", l, a)
	case p.take("kw", "BETWEEN"):
		lo := p.add()
		p.want("kw", "AND")
		e = bin("between", l, arr(lo, p.add()))
	case p.take("kw", "LIKE"):
		e = bin("like", l, p.add())
	case p.take("kw", "ILIKE"):
		e = bin("ilike", l, p.add())
	default:
		if neg {
			p.fail("an operator")
		}
		return l
	}
	if neg {
		e = un("not", e)
	}
	return e
}

func (p *sqlParser) add() *E {
	l := p.mul()
	for p.is("op", "+") || p.is("op", "-") {
		op := p.t[p.i].V
		p.i++
		l = bin(op, l, p.mul())
	}
	return l
}

func (p *sqlParser) mul() *E {
	l := p.prim()
	for p.is("op", "*") || p.is("op", "/") || p.is("op", "%") {
		op := p.t[p.i].V
		p.i++
		l = bin(op, l, p.prim())
	}
	return l
}

func (p *sqlParser) prim() *E {
	t := p.t[p.i]
	switch {
	case t.T == "ident":
		p.i++
		return ident(t.V)
	case t.T == "num":
		p.i++
		f, err := strconv.ParseFloat(t.V, 64)
		if err != nil {
			p.fail("a number")
		}
		n := num(f)
		n.Text = "inline"
		return n
	case t.T == "text":
		p.i++
		if _, err := time.Parse(time.RFC3339Nano, t.V); err == nil {
			return ts(t.V)
		}
		return str("inline text " + t.V)
	case p.take("kw", "TRUE"):
		return boolean(true)
	case p.take("kw", "FALSE"):
		return boolean(false)
	case p.take("op", "?"):
		if p.used >= len(p.args) {
			panic(sqlErr{"more placeholders than arguments"})
		}
		p.used++
		return p.args[p.used-1]
	case p.take("op", "-"):
		e := p.prim()
		if e.K != "num" {
			p.fail("a number")
		}
		n := num(-e.Num)
		n.Text = "inline"
		return n
	case p.take("op", "+"):
		return p.prim()
	case p.take("op", "("):
		e := p.or()
		p.want("op", ")")
		return e
	}
	p.fail("a value")
	return nil
}

// argModel is an argument. A text that is spelled like a timestamp is the text or
// the timestamp, both are the same to a database.
func argModel(a interface{}) (*E, error) {
	switch v := a.(type) {
	case string:
		return str(v), nil
	case float64:
		return num(v), nil
	case int:
		return num(float64(v)), nil
	case int64:
		return num(float64(v)), nil
	case bool:
		if v {
			return num(1), nil
		}
		return num(0), nil
	case time.Time:
		return str(v.Format(time.RFC3339Nano)), nil
	}
	return nil, fmt.Errorf("argument %v of type %T", a, a)
}

func parseSQL(text string, args []interface{}) (e *E, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(sqlErr); ok {
				e, err = nil, fmt.Errorf("%s", x.s)
				return
			}
			panic(r)
		}
	}()
	t, err := sqlLex(text)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{t: t}
	for _, a := range args {
		m, err := argModel(a)
		if err != nil {
			return nil, err
		}
		p.args = append(p.args, m)
	}
	e = p.or()
	if p.t[p.i].T != "eof" {
		p.fail("the end")
	}
	if p.used != len(args) {
		return nil, fmt.Errorf("%d placeholders for %d arguments", p.used, len(args))
	}
	return e, nil
}

// sqlKey is the canonical form of a condition: a text that is spelled like a
// timestamp is its instant.
func sqlKey(e *E) string {
	n := sortedIn(e)
	n.walk(func(x *E) {
		x.Text = ""
		if x.K == "str" {
			if _, err := time.Parse(time.RFC3339Nano, x.S); err == nil {
				x.K = "ts"
			}
		}
	})
	n = sortedIn(n)
	return n.dump()
}

// relit is the phrase with other literals of the same types.
func (g *G) relit(e *E) *E {
	n := e.clone()
	n.walk(func(x *E) {
		x.Text = ""
		switch x.K {
		case "str":
			*x = *g.str()
		case "num":
			*x = *num(float64(g.r.Intn(1000)))
		case "bool":
			x.B = oneIn(g.r, 2)
		case "ts":
			*x = *g.date()
		}
	})
	return n
}

// mathLits are the literals inside math expressions, whose text is inline.
func mathLits(e *E) string {
	var b strings.Builder
	var in func(x *E)
	in = func(x *E) {
		if x == nil {
			return
		}
		if isLit(x) {
			b.WriteString(x.dump() + ";")
		}
		if x.K == "bin" && isMath(x.Op) {
			in(x.L)
			in(x.R)
		}
	}
	e.walk(func(x *E) {
		if x.K == "bin" && isMath(x.Op) {
			in(x.L)
			in(x.R)
		}
	})
	return b.String()
}

func c23(c *C) {
	g := newG(c.R)
	g.idents = []string{"a", "b", "c", "name", "spec.pages", "db.tbl.col", "_x", "A", "Zz_9", "a1", "android", "orx", "inn", "e5"}
	for n := c.N(100000, 2000000); n > 0; n-- {
		e := g.near(g.cond(c.R.Intn(5)))
		skip := false
		e.walk(func(x *E) {
			// the text of a huge number is not a matter of this walker
			skip = skip || x.K == "num" && math.Abs(x.Num) > 1e300
		})
		if skip {
			continue
		}
		s := g.phrase(e)
		c.Begin("%s", s)
		node := mustParse(c, s)
		before := rawTree(node)
		text, args, err := walkSQL(c, node)
		if after := rawTree(node); after != before {
			c.Fail("the walk does not change the tree", "%s: %s became %s", s, before, after)
		}
		if !sqlCan(e) {
			if err == nil {
				c.Fail("what SQL can not express is an error", "%q gave %q %v", s, text, args)
			}
			c.Count("errors")
			continue
		}
		if err != nil {
			c.Fail("the phrase is an SQL condition", "%q: %v", s, err)
		}
		m, err := parseSQL(text, args)
		if err != nil {
			c.Fail("the text is an SQL condition of names, operators and placeholders", "%q gave %q %#v: %v", s, text, args, err)
		}
		if got, want := sqlKey(m), sqlKey(sqlModel(e)); got != want {
			c.Fail("the condition is the phrase, with its literals as arguments", "%q gave %q %#v\n which is %s\n instead of  %s", s, text, args, got, want)
		}
		// Other literals, the same text.
		o := g.relit(e)
		keep := mathLits(e) == ""
		if keep {
			s2 := g.phrase(o)
			c.Begin("%s\n and %s", s, s2)
			t2, a2, err := walkSQL(c, mustParse(c, s2))
			if err != nil || t2 != text || len(a2) != len(args) {
				c.Fail("the text does not depend on the literals", "%q gave %q %#v\n%q gave %q %#v %v", s, text, args, s2, t2, a2, err)
			}
			c.Count("same text for other literals")
		}
		c.Count("conditions")
		c.Add("arguments", len(args))
		if e.size() > 3 {
			c.Distinct(canon(e))
			c.Sample("%s => %s %v", s, text, args)
		}
	}
}
