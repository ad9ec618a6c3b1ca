//go:build go1.21

package main

import (
	"database/sql"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// A real database and the three valued logic of SQL.

func init() {
	sql.Register("verif", &sqlite3.SQLiteDriver{ConnectHook: func(conn *sqlite3.SQLiteConn) error {
		// X REGEXP Y is regexp(Y, X)
		if err := conn.RegisterFunc("regexp", func(p, s string) bool { return regexp.MustCompile(p).MatchString(s) }, true); err != nil {
			return err
		}
		// X MATCH Y is match(Y, X), it stands for ILIKE, which SQLite does not have
		return conn.RegisterFunc("match", func(p, s string) bool {
			return refLike([]rune(strings.ToLower(s)), []rune(strings.ToLower(p)))
		}, true)
	}})
}

type sqlCol struct{ name, kind string }

// sqlTable is a table of a database in the memory.
type sqlTable struct {
	db   *sql.DB
	cols []sqlCol
	rows []map[string]interface{}
}

var sqlTexts = []string{"joe", "Joe", "JOE", "joel", "it's", "100%", "100", "a_b", "aXb", "", "é", "É", "line\nbreak", "' OR 1=1 --", "?", "x y", "null", "true", "5"}
var sqlNums = []float64{0, 1, 2, 3, -1, -2, 0.5, 2.5, -0.5, 10, 100, 1000, 1024, 7}
var sqlInts = []float64{0, 1, 2, 3, -1, 5, 10}
var sqlDates = []string{"2019-12-31", "2020-01-01", "2020-01-02", "2020-02-29", "2021-01-01"}
var sqlTimes = []string{"2019-12-31T23:59:59Z", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.25Z", "2020-01-01T02:00:00+02:00",
	"2020-01-01T00:00:01Z", "2019-12-31T20:00:00-05:00", "2020-01-01T00:00:00.123456789Z", "2020-01-01T00:00:00.123456788Z"}

// sqlTimeText is the text of an instant in the database.
var sqlTimeText = func(t time.Time) string { return t.UTC().Format("2006-01-02 15:04:05.999999999") }

func sqlTimeOf(s string) string {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		panic(err)
	}
	return sqlTimeText(t)
}

var sqlDecl = map[string]string{"num": "REAL", "int": "INTEGER", "bool": "INTEGER", "text": "TEXT", "code": "TEXT", "date": "TEXT", "time": "TEXT"}

func newTable(r *rand.Rand, name string, cols []sqlCol, n int, nulls int) *sqlTable {
	t := &sqlTable{cols: cols}
	var err error
	t.db, err = sql.Open("verif", ":memory:")
	if err != nil {
		panic(err)
	}
	t.db.SetMaxOpenConns(1)
	t.exec("PRAGMA case_sensitive_like=1")
	decl, qs := []string{"id INTEGER PRIMARY KEY"}, []string{"?"}
	for _, c := range cols {
		decl = append(decl, c.name+" "+sqlDecl[c.kind])
		qs = append(qs, "?")
	}
	t.exec("CREATE TABLE " + name + " (" + strings.Join(decl, ", ") + ")")
	for i := 0; i < n; i++ {
		row := map[string]interface{}{}
		args := []interface{}{i}
		for _, c := range cols {
			var v interface{}
			switch c.kind {
			case "num":
				v = pick(r, sqlNums)
			case "int":
				v = pick(r, sqlInts)
			case "bool":
				v = float64(r.Intn(2))
			case "text", "code":
				v = pick(r, sqlTexts)
			case "date":
				v = pick(r, sqlDates)
			case "time":
				v = sqlTimeOf(pick(r, sqlTimes))
			}
			if nulls > 0 && c.kind != "code" && oneIn(r, nulls) {
				v = nil
			}
			row[c.name] = v
			args = append(args, v)
		}
		t.rows = append(t.rows, row)
		t.exec("INSERT INTO "+name+" VALUES ("+strings.Join(qs, ", ")+")", args...)
	}
	return t
}

func (t *sqlTable) exec(q string, args ...interface{}) {
	if _, err := t.db.Exec(q, args...); err != nil {
		panic(fmt.Errorf("%s: %v", q, err))
	}
}

// query returns the ids of the rows, as a text.
func (t *sqlTable) query(q string, args []interface{}) (ids []int, err error) {
	rows, err := t.db.Query(strings.ReplaceAll(q, " ILIKE ", " MATCH "), args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	for rows.Next() {
		var id int
		if err := rows.Scan(&id); err != nil {
			return nil, err
		}
		ids = append(ids, id)
	}
	return ids, rows.Err()
}

// errUndecided is for what databases do in different ways.
type errUndecided struct{}

// sql3 is the meaning of an expression for a row: nil, a number or a text.
func sql3(e *E, row map[string]interface{}) interface{} {
	b2f := func(b bool) interface{} {
		if b {
			return 1.0
		}
		return 0.0
	}
	switch e.K {
	case "num":
		return e.Num
	case "str":
		return e.S
	case "bool":
		return b2f(e.B)
	case "date":
		return e.S
	case "ts":
		return sqlTimeOf(e.S)
	case "null":
		return nil
	case "ident":
		v, ok := row[e.S]
		if !ok {
			panic("no column " + e.S)
		}
		return v
	case "un":
		v := sql3(e.R, row)
		if v == nil {
			return nil
		}
		if e.Op == "neg" {
			return -v.(float64)
		}
		return b2f(v.(float64) == 0)
	}
	l := sql3(e.L, row)
	switch e.Op {
	case "and", "or":
		r := sql3(e.R, row)
		stop := 0.0
		if e.Op == "or" {
			stop = 1
		}
		is := func(v interface{}, w float64) bool { return v != nil && (v.(float64) != 0) == (w != 0) }
		switch {
		case is(l, stop) || is(r, stop):
			return stop
		case l == nil || r == nil:
			return nil
		}
		return 1 - stop
	case "is":
		return b2f(l == nil)
	case "in":
		if len(e.R.A) == 0 {
			return 0.0
		}
		unknown := false
		for _, a := range e.R.A {
			v := sqlCompare("=", l, sql3(a, row))
			if v == nil {
				unknown = true
			} else if v.(float64) == 1 {
				return 1.0
			}
		}
		if unknown {
			return nil
		}
		return 0.0
	case "between":
		a := sqlCompare(">=", l, sql3(e.R.A[0], row))
		b := sqlCompare("<=", l, sql3(e.R.A[1], row))
		switch {
		case a != nil && a.(float64) == 0 || b != nil && b.(float64) == 0:
			return 0.0
		case a == nil || b == nil:
			return nil
		}
		return 1.0
	}
	r := sql3(e.R, row)
	if l == nil || r == nil {
		return nil
	}
	switch e.Op {
	case "+", "-", "*", "/", "%":
		x, y := l.(float64), r.(float64)
		var v float64
		switch e.Op {
		case "+":
			v = x + y
		case "-":
			v = x - y
		case "*":
			v = x * y
		case "/":
			if y == 0 {
				return nil
			}
			v = x / y
		case "%":
			if math.Abs(x) > 1<<52 || math.Abs(y) > 1<<52 {
				panic(errUndecided{})
			}
			x, y = math.Trunc(x), math.Trunc(y)
			if y == 0 {
				return nil
			}
			v = math.Mod(x, y)
		}
		if math.IsNaN(v) {
			return nil
		}
		if math.IsInf(v, 0) {
			panic(errUndecided{})
		}
		return v
	case "like":
		return b2f(refLike([]rune(l.(string)), []rune(r.(string))))
	case "ilike":
		return b2f(refLike([]rune(strings.ToLower(l.(string))), []rune(strings.ToLower(r.(string)))))
	case "~=":
		return b2f(regexp.MustCompile(r.(string)).MatchString(l.(string)))
	case "~!":
		return b2f(!regexp.MustCompile(r.(string)).MatchString(l.(string)))
	}
	return sqlCompare(e.Op, l, r)
}

func sqlCompare(op string, l, r interface{}) interface{} {
	if l == nil || r == nil {
		return nil
	}
	c := 0
	switch x := l.(type) {
	case float64:
		y := r.(float64)
		if x < y {
			c = -1
		} else if x > y {
			c = 1
		}
	case string:
		c = strings.Compare(x, r.(string))
	}
	ok := false
	switch op {
	case "=":
		ok = c == 0
	case "!=":
		ok = c != 0
	case "<":
		ok = c < 0
	case "<=":
		ok = c <= 0
	case ">":
		ok = c > 0
	case ">=":
		ok = c >= 0
	default:
		panic(op)
	}
	if ok {
		return 1.0
	}
	return 0.0
}

// sqlSelect are the rows an expression is true for.
func sqlSelect(e *E, rows []map[string]interface{}) (ids []int, unknown int, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(errUndecided); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for i, row := range rows {
		v := sql3(e, row)
		if v == nil {
			unknown++
		} else if v.(float64) != 0 {
			ids = append(ids, i)
		}
	}
	return ids, unknown, true
}

// sqlPattern makes a LIKE pattern that matches often.
func sqlPattern(r *rand.Rand) string {
	s := []rune(pick(r, sqlTexts))
	var b strings.Builder
	for _, c := range s {
		switch r.Intn(6) {
		case 0:
			b.WriteByte('_')
		case 1:
			b.WriteByte('%')
		case 2:
			b.WriteString("%" + string(c))
		default:
			b.WriteRune(c)
		}
	}
	if oneIn(r, 2) {
		b.WriteByte('%')
	}
	return b.String()
}

func sqlNumText(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
