//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

func init() { props["C31"] = c31 }

// A real database: the rows it selects are the rows the phrase is true for.

var dbCols = []sqlCol{{"n", "num"}, {"m", "num"}, {"price", "num"}, {"i", "int"}, {"s", "text"}, {"name", "text"}, {"code", "code"}, {"t.spec", "code"}}

func dbTable(c *C) *sqlTable {
	if V == 5 && len(dbCols) == 8 {
		dbCols = append(dbCols, []sqlCol{{"b", "bool"}, {"active", "bool"}, {"at", "time"}, {"updated", "time"}}...)
	}
	cols := append([]sqlCol{}, dbCols...)
	for i := range cols {
		if cols[i].name == "t.spec" {
			cols[i].name = "spec"
		}
	}
	t := newTable(c.R, "t", cols, 24, pick(c.R, []int{0, 4, 4, 8}))
	for _, r := range t.rows {
		r["t.spec"] = r["spec"]
	}
	return t
}

type dbG struct{ *G }

func (g *dbG) col(kind string) *E {
	var l []string
	for _, c := range dbCols {
		if c.kind == kind {
			l = append(l, c.name)
		}
	}
	return ident(pick(g.r, l))
}

func (g *dbG) lit(kind string) *E {
	switch kind {
	case "num":
		return num(pick(g.r, sqlNums))
	case "int":
		return num(pick(g.r, sqlInts))
	case "bool":
		return boolean(oneIn(g.r, 2))
	case "text", "code":
		return str(pick(g.r, sqlTexts))
	}
	// the times of the database are texts, their order is the one of the times
	// if all have the same form
	return ts(pick(g.r, []string{"2019-12-31T23:59:59Z", "2020-01-01T00:00:00Z", "2020-01-01T00:00:01Z", "2020-02-29T10:00:00Z", "2019-01-01T00:00:00Z"}))
}

// math is a math expression of columns of real numbers, a division of two
// integers is not the same for all databases.
func (g *dbG) math(depth int) *E {
	if depth <= 0 || oneIn(g.r, 3) {
		return g.col("num")
	}
	op := pick(g.r, []string{"+", "-", "*", "/", "%", "-", "/"})
	l := g.math(depth - 1)
	switch g.r.Intn(6) {
	case 0, 1, 2:
		return bin(op, l, g.lit("num"))
	case 3:
		return bin(pick(g.r, addOps), l, bin(pick(g.r, mulOps), g.lit("num"), g.math(depth-2)))
	}
	return bin(op, l, g.math(depth-1))
}

func (g *dbG) left(kind string) *E {
	if kind == "num" && oneIn(g.r, 2) {
		return g.math(1 + g.r.Intn(3))
	}
	return g.col(kind)
}

func (g *dbG) cond(depth int) *E {
	r := g.r
	if depth > 2 && oneIn(r, 60) {
		// the parser of SQLite has a stack of 100
		return tower(r, 24, func() *E { return g.cond(0) }, []string{"and", "or"}, []string{"not"})
	}
	if depth > 0 {
		switch r.Intn(8) {
		case 0, 1:
			return bin("and", g.cond(depth-1), g.cond(depth-1))
		case 2, 3:
			return bin("or", g.cond(depth-1), g.cond(depth-1))
		case 4, 5:
			return un("not", g.cond(depth-1))
		}
	}
	kinds := []string{"num", "num", "int", "text", "text", "code"}
	if V == 5 {
		kinds = append(kinds, "bool", "time", "time")
	}
	kind := pick(r, kinds)
	switch op := pick(r, []string{"=", "!=", "<", "<=", ">", ">=", "=", "in", "nin", "in", "between", "nbetween", "isnull", "notnull", "match", "match"}); op {
	case "isnull", "notnull":
		return un(op, g.left(kind))
	case "in", "nin":
		a := arr()
		for n := listLen(r, 5); n > 0; n-- {
			a.A = append(a.A, g.lit(kind))
		}
		return bin(op, g.left(kind), a)
	case "between", "nbetween":
		return bin(op, g.left(kind), arr(g.lit(kind), g.lit(kind)))
	case "match":
		if oneIn(r, 2) {
			return bin("like", g.col(pick(r, []string{"text", "code"})), str(sqlPattern(r)))
		}
		return bin("ilike", g.col("code"), str(sqlPattern(r)))
	default:
		l := g.left(kind)
		if V == 5 && oneIn(r, 3) {
			return bin(op, l, g.left(kind))
		}
		return bin(op, l, g.lit(kind))
	}
}

func c31(c *C) {
	// the walker writes times with the offset they have, here it is UTC
	sqlTimeText = func(t time.Time) string { return t.UTC().Format(time.RFC3339) }
	sqlTimes = []string{"2019-12-31T23:59:59Z", "2020-01-01T00:00:00Z", "2020-01-01T00:00:01Z", "2020-02-29T10:00:00Z", "2020-01-01T01:00:00Z"}
	g := &dbG{newG(c.R)}
	var t *sqlTable
	n := c.N(120000, 4000000)
	for i := 0; i < n; i++ {
		if i%4000 == 0 {
			if t != nil {
				t.db.Close()
			}
			t = dbTable(c)
		}
		e := g.cond(c.R.Intn(5))
		s := g.phrase(e)
		want, unknown, ok := sqlSelect(sqlModel(e), t.rows)
		if !ok {
			c.Count("not decided")
			continue
		}
		c.Begin("%s", s)
		node := mustParse(c, s)
		var text string
		var args []interface{}
		var err error
		c.Guard("sql.Walk", func() {
			var f sq.Sqlizer
			if f, err = sql.Walk(node); err == nil {
				text, args, err = sq.Select("id").From("t").Where(f).OrderBy("id").ToSql()
			}
		})
		if err != nil {
			c.Fail("the phrase is an SQL condition", "%s: %v", s, err)
		}
		got, err := t.query(text, args)
		if err != nil && strings.Count(s, ",") > 900 && strings.Contains(err.Error(), "too many SQL variables") {
			// The phrase has more literals than this SQLite takes arguments.
			c.Count("more literals than the database takes")
			continue
		}
		if err != nil {
			c.Fail("the database accepts the condition", "%s gave %q %v: %v", s, text, args, err)
		}
		has := func(l []int, id int) bool {
			for _, x := range l {
				if x == id {
					return true
				}
			}
			return false
		}
		if !sameInts(got, want) {
			for id, row := range t.rows {
				if a, b := has(got, id), has(want, id); a != b {
					c.Fail("the database selects the rows the phrase is true for", "%s\ngave %q %v\nfor the row %v selected is %v, the phrase is %v", s, text, args, row, a, sql3(sqlModel(e), row))
				}
			}
		}
		c.Count("queries")
		c.Add("rows selected", len(got))
		c.Add("rows of unknown truth", unknown)
		// The two engines agree where both are defined.
		if oneIn(c.R, 2) {
			id := c.R.Intn(len(t.rows))
			if vals, ok := dbRecord(e, t.rows[id]); ok {
				var v bool
				c.Guard("semantics.Walk", func() {
					v, err = semantics.Walk(node, func(k string) (interface{}, bool) { x, ok := vals[k]; return x, ok })
				})
				if err != nil || v != has(got, id) {
					c.Fail("the database and the evaluator agree", "%s\ngave %q %v\nfor the row %v selected is %v, the evaluator gave %v %v", s, text, args, t.rows[id], has(got, id), v, err)
				}
				c.Count("agreements of the engines")
			}
		}
		if len(want) > 0 && len(want) < len(t.rows) {
			c.Distinct(canon(e))
			c.Sample("%s => %s %v: %d of %d rows", s, text, args, len(got), len(t.rows))
		}
	}
	if t != nil {
		t.db.Close()
	}
}

// dbRecord is the row as a record of the evaluator, if it is defined for it:
// no nulls but for their tests, no arithmetic that the two have in different ways.
func dbRecord(e *E, row map[string]interface{}) (map[string]interface{}, bool) {
	vals := map[string]interface{}{}
	kind := map[string]string{}
	for _, c := range dbCols {
		kind[c.name] = c.kind
	}
	ok := true
	e.walk(func(x *E) {
		switch {
		case x.K == "bin" && (isMath(x.Op) || x.Op == "ilike"):
			ok = false
		case x.K == "bin" && kind[x.L.S] == "bool" && x.L.K == "ident" && (x.Op != "=" && x.Op != "!=" || x.R.K != "bool"):
			ok = false
		case x.K == "ident":
			v := row[x.S]
			switch {
			case v == nil:
				ok = false
			case kind[x.S] == "bool":
				v = v.(float64) == 1
			case kind[x.S] == "time":
				t, err := time.Parse(time.RFC3339, v.(string))
				if err != nil {
					panic(fmt.Sprint(v))
				}
				v = t
			}
			vals[x.S] = v
		}
	})
	return vals, ok
}
