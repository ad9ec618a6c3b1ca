//go:build go1.21

package main

import (
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

func init() { props["C10"] = c10 }

var dbCols = []sqlCol{{"n", "num"}, {"m", "num"}, {"price", "num"}, {"i", "int"}, {"b", "bool"}, {"active", "bool"}, {"s", "text"}, {"name", "text"}, {"code", "code"}, {"spec", "code"},
	{"d", "date"}, {"born", "date"}, {"t", "time"}, {"updated", "time"}}

// dbG generates typed expressions over the columns of the table.
type dbG struct{ *G }

func (g *dbG) col(kind string) *E {
	var l []string
	for _, c := range dbCols {
		if c.kind == kind {
			l = append(l, c.name)
		}
	}
	return ident(pick(g.r, l))
}

func (g *dbG) lit(kind string) *E {
	switch kind {
	case "num":
		return num(pick(g.r, sqlNums))
	case "int":
		return num(pick(g.r, sqlInts))
	case "bool":
		return boolean(oneIn(g.r, 2))
	case "text", "code":
		return str(pick(g.r, sqlTexts))
	case "date":
		return date(pick(g.r, sqlDates))
	}
	return ts(pick(g.r, sqlTimes))
}

// value is an expression of a kind.
func (g *dbG) value(kind string, depth int) *E {
	if depth > 0 && oneIn(g.r, 2) {
		switch kind {
		case "num":
			if oneIn(g.r, 5) {
				return un("neg", g.value("num", depth-1))
			}
			return bin(pick(g.r, []string{"+", "-", "*", "/", "%", "-", "/"}), g.value("num", depth-1), g.value("num", depth-1))
		case "bool":
			return g.cond(depth - 1)
		}
	}
	if oneIn(g.r, 3) {
		return g.lit(kind)
	}
	return g.col(kind)
}

func (g *dbG) cond(depth int) *E {
	r := g.r
	if depth > 2 && oneIn(r, 60) {
		// the parser of SQLite has a stack of 100
		return tower(r, 24, func() *E { return g.cond(0) }, []string{"and", "or"}, []string{"not"})
	}
	if depth > 0 {
		switch r.Intn(8) {
		case 0, 1:
			return bin("and", g.cond(depth-1), g.cond(depth-1))
		case 2, 3:
			return bin("or", g.cond(depth-1), g.cond(depth-1))
		case 4, 5:
			return un("not", g.cond(depth-1))
		}
	}
	if oneIn(r, 12) {
		return g.col("bool")
	}
	kind := pick(r, []string{"num", "num", "int", "bool", "text", "text", "code", "date", "time"})
	l := g.value(kind, depth-1)
	switch op := pick(r, []string{"=", "!=", "<", "<=", ">", ">=", "=", "in", "in", "between", "between", "is", "match", "match"}); {
	case op == "is":
		return bin("is", l, null())
	case op == "in":
		a := arr()
		n := listLen(r, 5)
		if n > 10 {
			depth = 0
		}
		for ; n > 0; n-- {
			a.A = append(a.A, g.value(kind, depth-2))
		}
		return bin("in", l, a)
	case op == "between":
		return bin("between", l, arr(g.value(kind, depth-2), g.value(kind, depth-2)))
	case op == "match":
		if oneIn(r, 2) {
			return bin("like", g.col(pick(r, []string{"text", "code"})), str(sqlPattern(r)))
		}
		// columns that are not null: the functions that are registered for these two do not take nulls
		l = g.col("code")
		switch r.Intn(2) {
		case 0:
			return bin("ilike", l, str(sqlPattern(r)))
		}
		return bin(pick(r, []string{"~=", "~!"}), l, str(pick(r, []string{"^j", "o", "[0-9]+", "e$", "^$", "J|a", "(?i)JOE", "x.y", "é"})))
	default:
		return bin(op, l, g.value(kind, depth-1))
	}
}

// c10: the rows the database selects are the rows the phrase is true for.
func c10(c *C) {
	g := &dbG{newG(c.R)}
	var t *sqlTable
	n := c.N(240000, 6000000)
	for i := 0; i < n; i++ {
		if i%4000 == 0 {
			if t != nil {
				t.db.Close()
			}
			t = newTable(c.R, "t", dbCols, 24, pick(c.R, []int{0, 4, 4, 8}))
		}
		e := g.cond(c.R.Intn(5))
		s := g.phrase(e, oneIn(c.R, 6))
		want, unknown, ok := sqlSelect(e, t.rows)
		if !ok {
			c.Count("not decided")
			continue
		}
		c.Begin("%s", s)
		node := mustParse(c, s)
		var text string
		var args []interface{}
		var err error
		c.Guard("sql.Walk", func() {
			var f sq.Sqlizer
			if f, err = sql.Walk(node); err == nil {
				text, args, err = sq.Select("id").From("t").Where(f).OrderBy("id").ToSql()
			}
		})
		if err != nil {
			c.Fail("the phrase is an SQL condition", "%s: %v", s, err)
		}
		got, err := t.query(text, args)
		if err != nil && strings.Count(s, ",") > 900 && strings.Contains(err.Error(), "too many SQL variables") {
			// The phrase has more literals than this SQLite takes arguments.
			c.Count("more literals than the database takes")
			continue
		}
		if err != nil {
			c.Fail("the database accepts the condition", "%s gave %q %s: %v", s, text, showArgs(args), err)
		}
		if !sameInts(got, want) {
			for id, row := range t.rows {
				a, b := false, false
				for _, x := range got {
					a = a || x == id
				}
				for _, x := range want {
					b = b || x == id
				}
				if a != b {
					c.Fail("the database selects the rows the phrase is true for", "%s\ngave %q %s\nfor the row %v selected is %v, the phrase is %v", s, text, showArgs(args), row, a, sql3(e, row))
				}
			}
		}
		c.Count("queries")
		c.Add("rows selected", len(got))
		c.Add("rows of unknown truth", unknown)
		// The two engines agree where both are defined: no null, no order of strings.
		if oneIn(c.R, 3) {
			id := c.R.Intn(len(t.rows))
			vals, ok := dbRecord(e, t.rows[id])
			if ok {
				var v interface{}
				var err error
				c.Guard("semantics.Walk", func() {
					v, err = semantics.Walk(node, func(k string) (interface{}, bool) { x, ok := vals[k]; return x, ok })
				})
				in := false
				for _, x := range got {
					in = in || x == id
				}
				if err == nil {
					if b, isBool := v.(bool); !isBool || b != in {
						c.Fail("the database and the evaluator agree", "%s\ngave %q %s\nfor the row %v selected is %v, the evaluator gave %v", s, text, showArgs(args), t.rows[id], in, v)
					}
					c.Count("agreements of the engines")
				}
			}
		}
		node.Free()
		if len(want) > 0 && len(want) < len(t.rows) {
			c.Distinct(e.dump())
			c.Sample("%s => %s %s: %d of %d rows", s, text, showArgs(args), len(got), len(t.rows))
		}
	}
	t.db.Close()
}

// dbRecord is the row as a record of the evaluator.
func dbRecord(e *E, row map[string]interface{}) (map[string]interface{}, bool) {
	vals := map[string]interface{}{}
	ok := true
	kind := map[string]string{}
	for _, c := range dbCols {
		kind[c.name] = c.kind
	}
	e.walk(func(x *E) {
		switch {
		case x.K == "bin" && x.Op == "between", x.K == "bin" && (x.Op == "<" || x.Op == ">" || x.Op == "<=" || x.Op == ">="):
			// strings and booleans have no order in the language
			x.walk(func(y *E) {
				if y.K == "str" || y.K == "bool" || y.K == "ident" && (kind[y.S] == "text" || kind[y.S] == "code" || kind[y.S] == "bool") || y.K == "bin" && y != x && !(y.Op == "+" || y.Op == "-" || y.Op == "*" || y.Op == "/" || y.Op == "%") || y.K == "un" && y.Op == "not" {
					ok = false
				}
			})
		case x.K == "ident":
			v := row[x.S]
			if v == nil {
				ok = false
				return
			}
			switch kind[x.S] {
			case "bool":
				v = v.(float64) == 1
			case "time":
				t, err := time.Parse("2006-01-02 15:04:05.999999999", v.(string))
				if err != nil {
					panic(err)
				}
				v = t
			}
			vals[x.S] = v
		}
	})
	return vals, ok
}
