//go:build go1.21

package main

import (
	dbsql "database/sql"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	sq "github.com/Masterminds/squirrel"
	"gopkg.in/yaml.v2"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

func init() { props["C27"] = c27 }

// The books of the demo, as the README has them.
type book struct {
	title, author string
	pages, rating float64
	onLoan        bool
}

var books = []book{
	{"Book", "Joe", 100, 4, true}, {"Other Book", "Jane", 200, 3, true}, {"Some Book", "Jane", 50, 5, true}, {"Some Other Book", "Jane", 50, 0, false},
	{"Good Book", "Joe", 150, 4, true}, {"Some Great Book", "Jane", 550, 2, true}, {"Other Great Book", "Jane", 250, 0, false}, {"My Big Book", "Joe", 15, 5, false},
}

// mem is the book for tsl_mem: what is zero is not there.
func (b book) mem() map[string]interface{} {
	m := map[string]interface{}{"title": b.title, "author": b.author, "on_loan": b.onLoan}
	if b.pages > 0 {
		m["spec.pages"] = b.pages
	}
	if b.rating > 0 {
		m["spec.rating"] = b.rating
	}
	return m
}

// row is the book for the databases.
func (b book) row() map[string]interface{} {
	on := 0.0
	if b.onLoan {
		on = 1
	}
	return map[string]interface{}{"title": b.title, "author": b.author, "on_loan": on, "spec.pages": b.pages, "spec.rating": b.rating}
}

// memDoc and rowDoc are the documents that are printed for a book.
func (b book) memDoc() map[string]interface{} {
	m := b.mem()
	on := m["on_loan"]
	delete(m, "on_loan")
	if V == 5 {
		m["onloan"] = on
	}
	return m
}

func (b book) rowDoc() map[string]interface{} {
	spec := map[string]interface{}{}
	if b.pages > 0 {
		spec["pages"] = b.pages
	}
	if b.rating > 0 {
		spec["rating"] = b.rating
	}
	m := map[string]interface{}{"title": b.title, "author": b.author, "spec": spec}
	if V == 5 {
		m["on-loan"] = b.onLoan
	}
	return m
}

func (g *G) bookCond(depth int) *E {
	r := g.r
	if depth > 2 && oneIn(r, 30) {
		return tower(r, 24, func() *E { return g.bookCond(0) }, []string{"and", "or"}, []string{"not"})
	}
	if depth > 0 {
		switch r.Intn(7) {
		case 0, 1:
			return bin("and", g.bookCond(depth-1), g.bookCond(depth-1))
		case 2, 3:
			return bin("or", g.bookCond(depth-1), g.bookCond(depth-1))
		case 4:
			return un("not", g.bookCond(depth-1))
		}
	}
	strs := []string{"Joe", "Jane", "Book", "Other Book", "Good Book", "joe", "", "My Big Book", "' OR 1=1 --", "It's"}
	nums := []float64{15, 50, 100, 150, 200, 250, 550, 0, 2, 3, 4, 5, 1000, 2.5}
	text := func() *E { return ident(pick(r, []string{"title", "author"})) }
	number := func() *E { return ident(pick(r, []string{"spec.pages", "spec.rating", "spec.pages"})) }
	if oneIn(r, 50) {
		return bin("=", ident(pick(r, []string{"missing", "pages", "Title", "rating", "id"})), num(1))
	}
	switch r.Intn(9) {
	case 0:
		return bin(pick(r, cmpOps), text(), str(pick(r, strs)))
	case 1:
		// upper case only where SQLite, for which LIKE is not case sensitive, is the same
		return bin(pick(r, []string{"like", "ilike", "like"}), text(), str(pick(r, []string{"J%", "%Book", "%Great%", "J_ne", "%O%", "Some %", "____"})))
	case 2:
		return bin(pick(r, []string{"~=", "~!"}), ident("title"), str(pick(r, []string{"^Some", "Book$", "(Big|Great)", "^.{4}$", "o+"})))
	case 3:
		return bin(pick(r, []string{"in", "nin"}), text(), arr(str(pick(r, strs)), str(pick(r, strs))))
	case 4:
		return un(pick(r, []string{"isnull", "notnull"}), ident(pick(r, []string{"spec.rating", "title", "spec.pages"})))
	case 5:
		if V == 5 {
			return bin(pick(r, []string{"=", "!="}), ident("on_loan"), boolean(oneIn(r, 2)))
		}
	case 6:
		a := arr()
		for n := r.Intn(4); n > 0; n-- {
			a.A = append(a.A, num(pick(r, nums)))
		}
		return bin(pick(r, []string{"in", "nin"}), number(), a)
	case 7:
		return bin(pick(r, []string{"between", "nbetween"}), number(), arr(num(pick(r, nums)), num(pick(r, nums))))
	}
	l := number()
	switch r.Intn(8) {
	case 0, 1:
		l = bin(pick(r, []string{"+", "-", "*"}), l, num(pick(r, nums)))
		if V == 5 && oneIn(r, 3) {
			l = bin(pick(r, []string{"+", "-", "*"}), l, number())
		}
	case 2:
		if oneIn(r, 3) {
			l = bin(pick(r, []string{"+", "-"}), l, num(pick(r, []float64{1, 2, 20, 200})))
		}
		l = bin("%", l, num(pick(r, []float64{2, 3, 4, 7, 50, 100})))
		return bin(pick(r, cmpOps), l, num(pick(r, []float64{0, 1, 2, 3, 50, -1})))
	}
	if V == 5 && oneIn(r, 6) {
		return bin(pick(r, cmpOps), l, number())
	}
	return bin(pick(r, cmpOps), l, num(pick(r, nums)))
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// plainJSON is the canonical text of documents.
func plainJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func unyaml(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			m[fmt.Sprint(k)] = unyaml(y)
		}
		return m
	case []interface{}:
		for i := range x {
			x[i] = unyaml(x[i])
		}
	}
	return v
}

func noCtl(e *E) bool {
	ok := true
	e.walk(func(x *E) {
		if x.K == "str" || x.K == "ident" {
			for _, r := range x.S {
				ok = ok && (r >= 32 && r < 127 || r > 0xa0) && r != 0x2028
			}
		}
	})
	return ok
}

// fillBooks makes l the books of a database that a command prepared.
func fillBooks(c *C, file, tool string, l []book) error {
	db, err := dbsql.Open("verif", file)
	if err != nil {
		panic(err)
	}
	defer db.Close()
	tx, err := db.Begin()
	exec := func(q string, a ...interface{}) {
		if err == nil {
			_, err = tx.Exec(q, a...)
		}
	}
	exec("delete from books")
	on := "onloan"
	if tool == "tsl_gorm" {
		on = "on_loan"
	}
	id := 0
	for _, b := range l {
		// not in the order of the numbers of the rows
		if id += 1 + c.R.Intn(3); V == 5 {
			exec("insert into books(id, title, author, pages, rating, "+on+") values(?, ?, ?, ?, ?, ?)", 1000000-id, b.title, b.author, int(b.pages), int(b.rating), b.onLoan)
		} else {
			exec("insert into books(id, title, author, pages, rating) values(?, ?, ?, ?, ?)", 1000000-id, b.title, b.author, int(b.pages), int(b.rating))
		}
	}
	if err == nil {
		err = tx.Commit()
	}
	return err
}

func c27(c *C) {
	g := newG(c.R)
	there := map[string][]book{"tsl_sqlite": books, "tsl_gorm": books}
	db := map[string]string{}
	fill := func(name string) {
		if err := fillBooks(c, db[name], name, there[name]); err != nil {
			c.Fail("the database can be changed after the command ended", "%v", err)
		}
	}
	tool := func(name string, args ...string) (int, string, string) {
		p, ok := c.args[name]
		if !ok {
			panic("no tool " + name)
		}
		return runTool(c, p, args...)
	}
	for _, t := range []string{"tsl_sqlite", "tsl_gorm"} {
		f := fmt.Sprintf("%s-%d-%d.db", t, V, c.Shard)
		db[t] = f
		defer os.Remove(f)
	}
	noNul := func(s string) bool { return !strings.Contains(s, "\x00") }
	for _, t := range []string{"tsl_sqlite", "tsl_gorm"} {
		c.Begin("%s -p", t)
		code, out, errs := tool(t, "-p", "-f", db[t])
		if code != 0 || strings.Count(out, "\n") != len(books) {
			c.Fail("the command prepares the books and prints all of them", "%s -p: exit %d %s%s", t, code, out, errs)
		}
	}
	for n := c.N(6400, 60000); n > 0; n-- {
		switch c.R.Intn(8) {
		case 0, 1: // the parser
			e := g.cond(c.R.Intn(4))
			s := g.phrase(e)
			f := pick(c.R, []string{"json", "yaml", "dot", "prettyjson", ""})
			if !noNul(s) || f == "yaml" && !yamlKeeps(e) || f == "prettyjson" && !noCtl(e) {
				continue
			}
			args := []string{"-i", s}
			if f != "" {
				args = append(args, "-o", f)
			}
			c.Begin("tsl_parser %q", args)
			code, out, errs := tool("tsl_parser", args...)
			if code != 0 {
				c.Fail("the command accepts the phrases the library accepts", "%q: exit %d %s", args, code, errs)
			}
			var got *E
			var err error
			switch f {
			case "yaml":
				got, err = readYAML([]byte(out))
			case "dot":
				got, err = readDot(out, "root")
			default:
				got, err = readJSON([]byte(ansi.ReplaceAllString(out, "")))
			}
			if err != nil || utc(got) != utc(e) {
				c.Fail("the document is the tree", "%q printed\n%s\n%v\ninstead of %s", args, out, err, utc(e))
			}
			c.Count("tsl_parser documents " + f)
			c.Distinct(f + utc(e))
		case 2: // SQL
			e := g.cond(c.R.Intn(4))
			s := g.phrase(e)
			if !noNul(s) {
				continue
			}
			c.Begin("tsl_parser -o sql -i %q", s)
			code, out, errs := tool("tsl_parser", "-o", "sql", "-i", s)
			if !sqlCan(e) {
				if code == 0 {
					c.Fail("what SQL can not express is an error", "%q printed %s", s, out)
				}
				c.Count("SQL errors")
				continue
			}
			var want string
			node := mustParse(c, s)
			f, err := sql.Walk(node)
			if err == nil {
				var text string
				var a []interface{}
				text, a, err = sq.Select("*").Where(f).From("table_name").ToSql()
				want = fmt.Sprintf("sql:  %s\nargs: %v\n", text, a)
			}
			if code != 0 || err != nil || out != want {
				c.Fail("the command prints the SQL of the library", "%q printed %q (%d %s)\ninstead of %q (%v)", s, out, code, errs, want, err)
			}
			c.Count("SQL texts")
			c.Distinct("sql" + utc(e))
		case 3, 4: // books in the memory
			e := g.bookCond(c.R.Intn(4))
			s := g.phrase(e)
			f := pick(c.R, []string{"json", "yaml", "prettyjson"})
			c.Begin("tsl_mem -o %s -i %q", f, s)
			code, out, errs := tool("tsl_mem", "-o", f, "-i", s)
			want := []interface{}{}
			bad := unknownBook(e)
			for _, b := range books {
				v, err := refEval(e, b.mem())
				if err != "" {
					bad = true
				}
				if v {
					want = append(want, b.memDoc())
				}
			}
			if bad {
				if code == 0 {
					c.Fail("what has no value is an error", "%q printed %s", s, out)
				}
				c.Count("tsl_mem errors")
				continue
			}
			var got interface{}
			var err error
			if f == "yaml" {
				err = yaml.Unmarshal([]byte(out), &got)
				got = unyaml(got)
			} else {
				err = json.Unmarshal([]byte(ansi.ReplaceAllString(out, "")), &got)
			}
			if code != 0 || err != nil || plainJSON(got) != plainJSON(want) {
				c.Fail("the command prints the books the phrase is true for", "%q printed\n%s\n%s (%d %v) instead of\n%s", s, out, errs, code, err, plainJSON(want))
			}
			c.Count("tsl_mem queries")
			c.Add("books found", len(want))
			if len(want) > 0 && len(want) < len(books) {
				c.Distinct("mem" + canon(e))
				c.Sample("tsl_mem -i %q => %s", s, plainJSON(want))
			}
		case 5, 6: // books in databases
			name := pick(c.R, []string{"tsl_sqlite", "tsl_gorm"})
			e := g.bookCond(c.R.Intn(4))
			s := g.phrase(e)
			args := []string{"-i", s, "-f", db[name]}
			if oneIn(c.R, 10) {
				there[name] = g.books()
				fill(name)
				c.Count(name + " databases")
			}
			if oneIn(c.R, 120) {
				// SQLite takes no patterns like this, and says so when it reads the rows
				p := strings.Repeat("%", pick(c.R, []int{49000, 50001, 60000}))
				e := bin("like", ident("title"), str(p))
				if oneIn(c.R, 2) {
					e = bin("or", bin("=", ident("author"), str("Joe")), e)
				}
				args := []string{"-i", g.phrasePlain(e), "-f", db[name]}
				c.Begin("%s, a pattern of %d %%, %d books", name, len(p), len(there[name]))
				code, out, errs := tool(name, args...)
				if n := strings.Count(out, "\n"); code == 0 && n != len(there[name]) || code != 0 && errs == "" {
					c.Fail("the command prints all of the books the phrase is true for, or reports an error", "%s -i %s...: exit %d, %d of %d books %s", name, args[1][:40], code, n, len(there[name]), clip(errs, 500))
				}
				c.Count(name + " long patterns")
				continue
			}
			prepare := oneIn(c.R, 12)
			if prepare {
				args = append(args, "-p")
				there[name] = books
			}
			c.Begin("%s %q, %d books", name, args, len(there[name]))
			code, out, errs := tool(name, args...)
			bad := unknownBook(e) || !sqlCan(e)
			e.walk(func(x *E) {
				// SQLite has no ILIKE
				bad = bad || x.K == "bin" && x.Op == "ilike"
			})
			if bad {
				if code == 0 {
					c.Fail("what the database can not do is an error", "%q printed %s", args, out)
				}
				if strings.Contains(errs, "panic:") {
					c.Fail("the command reports errors", "%q: %s", args, errs)
				}
				c.Count(name + " errors")
				if prepare {
					fill(name)
				}
				continue
			}
			want := []string{}
			for _, b := range there[name] {
				if v := sql3(bookSQL(sqlModel(e)), b.row()); v != nil && v.(float64) != 0 {
					want = append(want, plainJSON(b.mongoDoc()))
				}
			}
			got := []string{}
			var err error
			for _, l := range strings.Split(out, "\n") {
				if l == "" {
					continue
				}
				var v interface{}
				if err = json.Unmarshal([]byte(l), &v); err != nil {
					break
				}
				got = append(got, plainJSON(v))
			}
			sort.Strings(got)
			sort.Strings(want)
			if code != 0 || err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
				c.Fail("the command prints the books the phrase is true for", "%s %q printed\n%s\n%s (%d %v) instead of\n%s", name, args, out, errs, code, err, strings.Join(want, "\n"))
			}
			c.Count(name + " queries")
			c.Add("books found", len(want))
			if len(want) > 0 && len(want) < len(there[name]) {
				c.Distinct(name + canon(e))
				c.Sample("%s -i %q => %d books", name, s, len(want))
			}
		case 7: // what is not a phrase
			s, _ := g.hostile()
			if !noNul(s) || s == "" {
				continue
			}
			_, perr := tsl.ParseTSL(s)
			name := pick(c.R, []string{"tsl_parser", "tsl_mem", "tsl_sqlite", "tsl_gorm"})
			args := []string{"-i", s}
			if db[name] != "" {
				args = append(args, "-f", db[name])
			}
			c.Begin("%s %q", name, args)
			code, out, errs := tool(name, args...)
			if strings.Contains(errs, "panic:") || strings.Contains(errs, "goroutine ") || code < 0 {
				c.Fail("the command reports errors", "%s %q: exit %d %s", name, args, code, errs)
			}
			if perr != nil {
				if code == 0 || errs == "" {
					c.Fail("what is not a phrase is an error", "%s %q: exit %d %s%s", name, args, code, out, errs)
				}
				c.Count("phrases rejected")
				c.Distinct("bad" + s)
			} else {
				c.Count("phrases of other columns")
			}
		}
	}
	if c.Shard == 0 {
		for _, a := range [][]string{{"tsl_parser"}, {"tsl_mem"}, {"tsl_mem", "-i", "title = 'Book'", "-o", "xml"}, {"tsl_mem", "-i", ""}, {"tsl_parser", "-i", "a=1", "-z"}, {"tsl_sqlite", "-i", ""}} {
			c.Begin("%q", a)
			args := a[1:]
			if db[a[0]] != "" {
				args = append(args, "-p", "-f", db[a[0]])
			}
			if code, out, _ := tool(a[0], args...); code == 0 {
				c.Fail("wrong usage is an error", "%q printed %s", a, out)
			}
			c.Count("wrong usages")
		}
	}
}

func unknownBook(e *E) bool {
	bad := false
	e.walk(func(x *E) {
		if x.K == "ident" {
			switch x.S {
			case "title", "author", "spec.pages", "spec.rating":
			case "on_loan":
				bad = bad || V == 4
			default:
				bad = true
			}
		}
	})
	return bad
}

// bookSQL: LIKE of SQLite does not see the case of ASCII letters.
func bookSQL(e *E) *E {
	n := e.clone()
	n.walk(func(x *E) {
		if x.K == "bin" && x.Op == "like" {
			x.Op = "ilike"
		}
	})
	return n
}
