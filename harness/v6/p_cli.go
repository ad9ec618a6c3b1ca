//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/yaacov/tree-search-language/v6/cmd/model"
)

func init() { props["C17"] = c17 }

// fromPrint reads the tree the tsl command prints, a node in a line, the
// children are below it with two more spaces.
func fromPrint(lines []string) (e *E, err error) {
	i := 0
	var node func(level int) (*E, error)
	node = func(level int) (*E, error) {
		if i >= len(lines) {
			return nil, fmt.Errorf("a node is missing after line %d", i)
		}
		l := lines[i]
		pad := strings.Repeat("  ", level)
		if !strings.HasPrefix(l, pad+"[") {
			return nil, fmt.Errorf("line %d %q is not at level %d", i, l, level)
		}
		l = l[len(pad)+1:]
		end := strings.IndexByte(l, ']')
		if end < 0 {
			return nil, fmt.Errorf("line %d %q", i, l)
		}
		name, rest := l[:end], l[end+1:]
		i++
		deeper := func() bool { return i < len(lines) && strings.HasPrefix(lines[i], pad+"  [") }
		if name == "ARRAY" {
			if rest != ":" {
				return nil, fmt.Errorf("array line %q", l)
			}
			a := arr()
			for deeper() {
				x, err := node(level + 1)
				if err != nil {
					return nil, err
				}
				a.A = append(a.A, x)
			}
			return a, nil
		}
		if op, ok := opText[name]; ok && rest == "" {
			x, err := node(level + 1)
			if err != nil {
				return nil, err
			}
			if !deeper() {
				return un(op, x), nil
			}
			y, err := node(level + 1)
			if err != nil {
				return nil, err
			}
			return bin(op, x, y), nil
		}
		if !strings.HasPrefix(rest, ": ") {
			return nil, fmt.Errorf("line %q", l)
		}
		v := rest[2:]
		switch name {
		case "STRING":
			s, err := strconv.Unquote(`"` + v + `"`)
			return str(s), err
		case "NUMBER":
			f, err := strconv.ParseFloat(v, 64)
			return num(f), err
		case "BOOLEAN":
			b, err := strconv.ParseBool(v)
			return boolean(b), err
		case "IDENTIFIER":
			return ident(v), nil
		case "DATE":
			return date(v), nil
		case "TIMESTAMP":
			return ts(v), nil
		case "NULL":
			return null(), nil
		}
		return nil, fmt.Errorf("line %q", l)
	}
	e, err = node(0)
	if err == nil && i != len(lines) {
		err = fmt.Errorf("line %d %q is after the end of the tree", i, lines[i])
	}
	return
}

// seconds drops the fraction of the timestamps, which the tree printer does not print.
func seconds(e *E) *E {
	n := e.clone()
	n.walk(func(x *E) {
		if x.K == "ts" {
			if t, err := time.Parse(time.RFC3339, x.S); err == nil {
				x.S = t.Truncate(time.Second).Format(time.RFC3339)
			}
		}
	})
	return n
}

// offsets are the time zones of the timestamps.
func offsets(e *E) string {
	s := ""
	e.walk(func(x *E) {
		if x.K == "ts" {
			if t, err := time.Parse(time.RFC3339, x.S); err == nil {
				_, o := t.Zone()
				s += fmt.Sprint(o, " ")
			}
		}
	})
	return s
}

// bookCond generates conditions over the books of the demo.
func (g *G) bookCond(depth int) *E {
	r := g.r
	if depth > 2 && oneIn(r, 30) {
		return tower(r, 24, func() *E { return g.bookCond(0) }, []string{"and", "or"}, []string{"not"})
	}
	if depth > 0 {
		switch r.Intn(7) {
		case 0, 1:
			return bin("and", g.bookCond(depth-1), g.bookCond(depth-1))
		case 2, 3:
			return bin("or", g.bookCond(depth-1), g.bookCond(depth-1))
		case 4:
			return un("not", g.bookCond(depth-1))
		}
	}
	if oneIn(r, 40) {
		return bin("=", ident(pick(r, []string{"missing", "spec.pages", "Title", "onloan"})), num(1))
	}
	strs := []string{"Joe", "Jane", "Book", "Other Book", "Good Book", "joe", "", "My Big Book"}
	nums := []float64{15, 50, 100, 150, 200, 250, 550, 0, 2, 3, 4, 5, 1000}
	switch r.Intn(9) {
	case 0:
		return bin(pick(r, []string{"=", "!="}), ident(pick(r, []string{"title", "author"})), str(pick(r, strs)))
	case 1:
		return bin(pick(r, []string{"like", "ilike"}), ident(pick(r, []string{"title", "author"})), str(pick(r, []string{"J%", "%Book", "%great%", "j_ne", "%o%", "Some %", "____"})))
	case 2:
		return bin(pick(r, []string{"~=", "~!"}), ident("title"), str(pick(r, []string{"^Some", "Book$", "(Big|Great)", "^.{4}$", "o+"})))
	case 3:
		return bin("in", ident("author"), arr(str(pick(r, strs)), str(pick(r, strs))))
	case 4:
		return bin("is", ident(pick(r, []string{"rating", "pages", "title"})), null())
	case 5:
		return bin(pick(r, []string{"=", "!="}), ident("on_loan"), boolean(oneIn(r, 2)))
	case 6:
		a := arr()
		for n := r.Intn(4); n > 0; n-- {
			a.A = append(a.A, num(pick(r, nums)))
		}
		return bin("in", ident(pick(r, []string{"pages", "rating"})), a)
	case 7:
		return bin("between", ident(pick(r, []string{"pages", "rating"})), arr(num(pick(r, nums)), num(pick(r, nums))))
	}
	if oneIn(r, 6) {
		switch r.Intn(6) {
		case 0:
			return ident("on_loan")
		case 1: // has a value for books of some types only
			return bin("like", ident(pick(r, []string{"rating", "title", "pages"})), str("%o%"))
		case 2:
			return bin(pick(r, []string{"<", ">=", "between"}), ident("title"), arr(num(1), num(2)))
		case 3:
			return un(pick(r, []string{"any", "all"}), bin("=", arr(ident("pages"), ident("rating")), num(pick(r, nums))))
		case 4:
			return bin("in", num(pick(r, nums)), arr(ident("pages"), ident("rating")))
		default:
			return bin(">", un("neg", ident(pick(r, []string{"rating", "pages"}))), num(-pick(r, nums)))
		}
	}
	l := ident(pick(r, []string{"pages", "rating", "pages"}))
	if oneIn(r, 4) {
		l = bin(pick(r, []string{"+", "-", "*", "/", "%"}), ident(pick(r, []string{"pages", "pages", "rating"})), num(pick(r, nums)))
	}
	return bin(pick(r, []string{"=", "!=", "<", "<=", ">", ">="}), l, num(pick(r, nums)))
}

func c17(c *C) {
	g := newG(c.R)
	tool := func(name string, args ...string) (int, string, string) {
		p, ok := c.args[name]
		if !ok {
			panic("no tool " + name)
		}
		return runTool(c, p, args...)
	}
	noNul := func(s string) bool { return !strings.Contains(s, "\x00") }
	for n := c.N(16000, 100000); n > 0; n-- {
		switch c.R.Intn(8) {
		case 0: // the tree printer
			e := g.any(c.R.Intn(6))
			s := g.phrase(e, false)
			if !noNul(s) || strings.Contains(s, "\n") && false {
				continue
			}
			c.Begin("tsl -- %q", s)
			code, out, errs := tool("tsl", "--", s)
			if code != 0 {
				c.Fail("the command accepts the phrases the library accepts", "tsl %q: exit %d %s", s, code, errs)
			}
			head := "Parsing: " + s + "\n"
			if !strings.HasPrefix(out, head) {
				c.Fail("the command prints the phrase", "tsl %q: %s", s, out)
			}
			got, err := fromPrint(strings.Split(strings.TrimSuffix(out[len(head):], "\n"), "\n"))
			if err != nil {
				c.Fail("the printed tree is the tree", "tsl %q printed\n%s\n%v", s, out, err)
			}
			if want := seconds(e).dump(); got.dump() != want {
				c.Fail("the printed tree is the tree", "tsl %q printed\n%s\nwhich is %s\ninstead of %s", s, out, got.dump(), want)
			}
			if a, b := offsets(got), offsets(seconds(e)); a != b {
				c.Fail("the printed tree is the tree", "tsl %q printed\n%s\nthe time zones are %s instead of %s", s, out, a, b)
			}
			c.Count("trees printed")
			c.Distinct("tsl " + e.dump())
		case 1: // json and yaml
			e := g.any(c.R.Intn(6))
			yml := oneIn(c.R, 2)
			if !printable(e) || yml && !yamlSafe(e) {
				continue
			}
			s := g.phrase(e, false)
			f := "json"
			if yml {
				f = "yaml"
			}
			if !noNul(s) {
				continue
			}
			c.Begin("tsl_parser -o %s -i %q", f, s)
			code, out, errs := tool("tsl_parser", "-o", f, "-i", s)
			if code != 0 {
				c.Fail("the command accepts the phrases the library accepts", "exit %d %s", code, errs)
			}
			var v interface{}
			var err error
			if yml {
				err = yaml.Unmarshal([]byte(out), &v)
			} else {
				v, err = decodeJSON([]byte(out))
			}
			var got *E
			if err == nil {
				got, err = fromDoc(v)
			}
			if err != nil || zero(got).dump() != zero(e).dump() {
				c.Fail("the document is the tree", "printed\n%s\n%v instead of %s", out, err, e.dump())
			}
			c.Count("documents printed")
			c.Distinct(f + e.dump())
		case 2: // dot
			e := g.any(c.R.Intn(5))
			s := g.phrase(e, false)
			if !noNul(s) || !printable(e) {
				continue
			}
			c.Begin("tsl_parser -o dot -i %q", s)
			code, out, errs := tool("tsl_parser", "-o", "dot", "-i", s)
			if code != 0 {
				c.Fail("the command accepts the phrases the library accepts", "exit %d %s", code, errs)
			}
			dg, err := parseDot(out)
			var got string
			if err == nil {
				if err = dg.isTree("root"); err == nil {
					got, err = dotTree(dg, dg.root(), 0)
				}
			}
			if err != nil || got != dotWant(e) {
				c.Fail("the graph is the tree", "printed\n%s\n%v\nwhich is %s instead of %s", out, err, got, dotWant(e))
			}
			c.Count("graphs printed")
			c.Distinct("dot" + e.dump())
		case 3: // sql
			e := g.sqlTree(c.R.Intn(5), "bool")
			if oneIn(c.R, 5) {
				e = g.any(c.R.Intn(5))
			}
			bad := false
			e.walk(func(x *E) {
				bad = bad || x.K == "ident" && strings.EqualFold(x.S, "regexp")
			})
			s := g.phrase(e, false)
			if bad || !noNul(s) {
				continue
			}
			table := pick(c.R, []string{"", "books", "db.t"})
			args := []string{"-o", "sql", "-i", s}
			want := "table_name"
			if table != "" {
				args = append(args, "-t", table)
				want = table
			}
			c.Begin("tsl_parser %q", args)
			code, out, errs := tool("tsl_parser", args...)
			if !sqlSupported(e) {
				if code == 0 || out != "" {
					c.Fail("what SQL can not express is an error", "exit %d, printed %s", code, out)
				}
				c.Count("sql errors")
				continue
			}
			if code != 0 {
				c.Fail("what SQL can express is not an error", "exit %d %s", code, errs)
			}
			n := mustParse(c, s)
			text, sargs, err := walkSQL(c, n)
			n.Free()
			full := "sql:  SELECT * FROM " + want
			if text != "" {
				full += " WHERE " + text
			}
			full += fmt.Sprintf("\nargs: %v\n", sargs)
			if err != nil || out != full {
				c.Fail("the command prints the SQL of the library", "printed %q\ninstead of %q %v", out, full, err)
			}
			c.Count("sql printed")
			c.Distinct("sql" + e.dump())
		case 4, 5, 6: // the books
			e := g.bookCond(c.R.Intn(4))
			s := g.phrase(e, false)
			yml := oneIn(c.R, 3)
			f := "json"
			if yml {
				f = "yaml"
			}
			c.Begin("tsl_mem -o %s -i %q", f, s)
			code, out, errs := tool("tsl_mem", "-o", f, "-i", s)
			want := []interface{}{}
			isErr, unsp := false, false
			for _, b := range model.Books {
				bk := b.(model.Book)
				vals := map[string]interface{}{"title": bk.Title, "author": bk.Author, "on_loan": bk.OnLoan, "pages": nil, "rating": nil}
				doc := map[string]interface{}{"title": bk.Title, "author": bk.Author, "onloan": bk.OnLoan}
				if bk.Spec.Pages > 0 {
					vals["pages"], doc["spec.pages"] = bk.Spec.Pages, float64(bk.Spec.Pages)
				}
				if bk.Spec.Rating > 0 {
					vals["rating"], doc["spec.rating"] = bk.Spec.Rating, float64(bk.Spec.Rating)
				}
				o := (&refEnv{vals: vals}).eval(e)
				isErr, unsp = isErr || o.errs != nil, unsp || o.unsp
				if m, ok := o.v.(bool); ok && m {
					want = append(want, doc)
				}
			}
			if unsp {
				continue
			}
			if isErr {
				if code == 0 || out != "" {
					c.Fail("an expression that has no value is an error", "exit %d, printed %s", code, out)
				}
				c.Count("book errors")
				continue
			}
			if code != 0 {
				c.Fail("the command evaluates what the library evaluates", "exit %d %s", code, errs)
			}
			var got []interface{}
			var err error
			if yml {
				if err = yaml.Unmarshal([]byte(out), &got); err == nil {
					var b []byte
					b, err = json.Marshal(got)
					got = nil
					if err == nil {
						err = json.Unmarshal(b, &got)
					}
				}
			} else {
				err = json.Unmarshal([]byte(out), &got)
			}
			a, _ := json.Marshal(got)
			b, _ := json.Marshal(want)
			if err != nil || string(a) != string(b) {
				c.Fail("the command prints the books the phrase is true for", "printed\n%s\ninstead of %s (%v)", out, b, err)
			}
			c.Count("book queries")
			c.Add("books found", len(want))
			if len(want) > 0 && len(want) < len(model.Books) {
				c.Distinct("mem" + e.dump())
				c.Sample("tsl_mem -i %q => %s", s, b)
			}
		case 7: // what is not a phrase
			s := g.soup()
			if oneIn(c.R, 2) {
				s = g.mutate(g.phrase(g.any(3), false))
			}
			if !noNul(s) || unspecified(s) {
				continue
			}
			_, perr := parse(c, s)
			name, args := "tsl", []string{"--", s}
			switch c.R.Intn(3) {
			case 1:
				name, args = "tsl_parser", []string{"-i", s, "-o", pick(c.R, []string{"json", "dot", "sql", "yaml"})}
			case 2:
				name, args = "tsl_mem", []string{"-i", s}
			}
			c.Begin("%s %q", name, args)
			code, out, errs := tool(name, args...)
			if perr != nil && s != "" {
				if code == 0 || out != "" && name != "tsl" {
					c.Fail("what is not a phrase is an error", "exit %d, printed %s", code, out)
				}
				if strings.Contains(errs, "panic:") || strings.Contains(errs, "goroutine ") || code < 0 {
					c.Fail("the command reports errors", "exit %d %s", code, errs)
				}
				c.Count("phrases rejected")
				c.Distinct("bad" + s)
			} else if strings.Contains(errs, "panic:") || code < 0 {
				c.Fail("the command reports errors", "exit %d %s", code, errs)
			}
		}
	}
	if c.Shard == 0 {
		for _, a := range [][]string{{"tsl"}, {"tsl", "a = 1", "b = 2"}, {"tsl_parser"}, {"tsl_mem"}, {"tsl_parser", "-i", "a=1", "-o", "xml"}, {"tsl_mem", "-i", "pages=1", "-o", "xml"}, {"tsl_mem", "-i", ""}, {"tsl_parser", "-i", "a=1", "-z"}} {
			c.Begin("%q", a)
			if code, out, _ := tool(a[0], a[1:]...); code == 0 {
				c.Fail("wrong usage is an error", "%q printed %s", a, out)
			}
			c.Count("wrong usages")
		}
	}
}
