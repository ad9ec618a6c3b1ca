//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

func init() {
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
}

func (rc *rec) String() string {
	var names []string
	for n := range rc.vals {
		names = append(names, n)
	}
	sort.Strings(names)
	var l []string
	for _, n := range names {
		l = append(l, fmt.Sprintf("%s=(%T)%+v", n, rc.vals[n], rc.vals[n]))
	}
	return "{" + strings.Join(l, ", ") + "}"
}

func (rc *rec) lookup(name string) (interface{}, bool) {
	v, ok := rc.vals[name]
	return v, ok
}

// used shows the fields of the record that e uses.
func (rc *rec) used(e *E) string {
	seen := map[string]bool{}
	var l []string
	e.walk(func(x *E) {
		if x.K == "ident" && !seen[x.S] {
			seen[x.S] = true
			if v, ok := rc.vals[x.S]; ok {
				l = append(l, fmt.Sprintf("%s=(%T)%#v", x.S, v, v))
			} else {
				l = append(l, x.S+"=<missing>")
			}
		}
	})
	return strings.Join(l, ", ")
}

// errKind classifies an error of the evaluation.
func errKind(err error) string {
	var k tsl.KeyNotFoundError
	var kp *tsl.KeyNotFoundError
	var t tsl.TypeMismatchError
	var tp *tsl.TypeMismatchError
	var z tsl.DivisionByZeroError
	var zp *tsl.DivisionByZeroError
	var o tsl.UnexpectedOperatorError
	var op *tsl.UnexpectedOperatorError
	switch {
	case errors.As(err, &k), errors.As(err, &kp):
		return eKey
	case errors.As(err, &t), errors.As(err, &tp):
		return eType
	case errors.As(err, &z), errors.As(err, &zp):
		return eZero
	case errors.As(err, &o), errors.As(err, &op):
		return eOp
	}
	return "other"
}

// errText checks that an error names what it is about.
func errText(c *C, s string, e *E, rc *rec, err error) {
	var k tsl.KeyNotFoundError
	var t tsl.TypeMismatchError
	var z tsl.DivisionByZeroError
	text := err.Error()
	switch {
	case errors.As(err, &k):
		found := false
		e.walk(func(x *E) { found = found || x.K == "ident" && x.S == k.Key })
		if _, have := rc.vals[k.Key]; have || !found {
			c.Fail("the error names the key that is missing", "%s\nrecord: %s\nkey %q", s, rc.used(e), k.Key)
		}
		if !strings.Contains(text, k.Key) {
			c.Fail("the text of the error names the key that is missing", "%s\nrecord: %s\nkey %q, error %q", s, rc.used(e), k.Key, text)
		}
	case errors.As(err, &t):
		if t.Expected == "" || !strings.Contains(text, t.Expected) {
			c.Fail("the text of the error tells what type is expected", "%s\nrecord: %s\nexpected %q, error %q", s, rc.used(e), t.Expected, text)
		}
	case errors.As(err, &z):
		if !strings.Contains(text, "zero") {
			c.Fail("the text of the error tells what is wrong", "%s\nrecord: %s\nerror %q", s, rc.used(e), text)
		}
	}
}

// evalCase evaluates e for a record and compares with the reference.
func evalCase(c *C, g *G, e *E, rc *rec, tag string) {
	s := g.phrase(e, oneIn(c.R, 6))
	c.Begin("%s\nrecord: %s", s, rc.used(e))
	evalPhrase(c, s, e, rc, tag)
	if !oneIn(c.R, 20) {
		return
	}
	// a phrase that is nearly the same, and this one once more
	if x := g.sibling(e); x != nil {
		t := g.phrase(x, oneIn(c.R, 6))
		c.Begin("%s\nafter %s\nrecord: %s", t, s, rc.used(e))
		evalPhrase(c, t, x, rc, tag)
		evalPhrase(c, s, e, rc, tag)
		c.Count("phrases next to nearly the same")
	}
}

// sibling is a phrase that is nearly e.
func (g *G) sibling(e *E) *E {
	x := sibling(g.r, e, func(op string) bool { return op != "nin" && op != "nbetween" })
	x.walk(func(y *E) {
		if y.K == "str" && strLiteral(y.S).K != "str" {
			x = nil
		}
	})
	return x
}

func evalPhrase(c *C, s string, e *E, rc *rec, tag string) {
	ref := &refEnv{vals: rc.vals}
	want := ref.eval(e)
	n := mustParse(c, s)
	defer n.Free()
	var got interface{}
	var err error
	c.Guard("semantics.Walk", func() { got, err = semantics.Walk(n, rc.lookup) })
	if want.unsp {
		c.Count("not specified")
		return
	}
	if want.errs != nil {
		if err == nil {
			c.Fail("an expression that has no value is an error", "%s\nrecord: %s\nvalue %s instead of an error: %s", s, rc.used(e), show(got), want.errs)
		}
		k := errKind(err)
		if k == "other" && want.errs[eRe] {
			k = eRe
		}
		// which one of the operands is reported is not specified
		if (k == eKey || k == eZero || k == eType) && !want.errs[k] && !(k == eType && (want.errs[eOp] || want.errs[eRe])) {
			c.Fail("the error tells what is wrong", "%s\nrecord: %s\nerror %v instead of: %s", s, rc.used(e), err, want.errs)
		}
		if len(want.errs) == 1 && (want.errs[eKey] || want.errs[eZero]) && k != "other" && !want.errs[k] {
			c.Fail("the error tells what is wrong", "%s\nrecord: %s\nerror %v instead of: %s", s, rc.used(e), err, want.errs)
		}
		errText(c, s, e, rc, err)
		c.Count("errors: " + want.errs.String())
		return
	}
	if err != nil {
		c.Fail("an expression that has a value is not an error", "%s\nrecord: %s\nerror %v instead of value %s", s, rc.used(e), err, show(want.v))
	}
	if !sameValue(got, want.v) {
		c.Fail("the value is the one the language defines", "%s\nrecord: %s\nvalue %s instead of %s", s, rc.used(e), show(got), show(want.v))
	}
	switch v := want.v.(type) {
	case bool:
		c.Count(fmt.Sprintf("%s: %v", tag, v))
	case []interface{}:
		c.Count(tag + ": array")
		for _, x := range v {
			if b, ok := x.(bool); ok {
				c.Count(fmt.Sprintf("elements: %v", b))
			}
		}
	default:
		c.Count(fmt.Sprintf("%s: %T", tag, v))
	}
	if e.size() >= 3 {
		c.Distinct(s + "\x00" + rc.used(e))
		c.Sample("%s with %s => %v", s, rc.used(e), want.v)
	}
	e.walk(func(x *E) {
		if x.K == "bin" || x.K == "un" {
			c.Count("op " + x.Op)
		}
	})
}

// scalarOnly tells that no array takes part, other than the list of IN and BETWEEN.
func scalarOnly(e *E, rc *rec) bool {
	ok := true
	var f func(e *E, list bool)
	f = func(e *E, list bool) {
		if e == nil {
			return
		}
		switch e.K {
		case "array":
			if !list {
				ok = false
			}
			for _, a := range e.A {
				f(a, false)
			}
		case "ident":
			if _, isArr := rc.vals[e.S].([]interface{}); isArr && !list {
				ok = false
			}
		case "un":
			f(e.R, false)
		case "bin":
			f(e.L, false)
			f(e.R, e.Op == "in" || e.Op == "between")
		}
	}
	f(e, false)
	return ok
}

// c11: scalar evaluation.
func c11(c *C) {
	g := newG(c.R)
	// Every operator for every pair of small values.
	vals := []interface{}{nil, true, false, 0, 1, 2, -1, 0.5, int8(3), uint16(3), float32(2), "a", "b", "", "1", "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-02T00:00:00Z",
		time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2020, 1, 1, 2, 0, 0, 0, time.FixedZone("e", 7200)), math.Inf(1), math.NaN(), map[string]interface{}{"a": 1}, "2020-13-01"}
	ops := []string{"=", "!=", "<", "<=", ">", ">=", "like", "ilike", "~=", "~!", "in", "between", "is", "+", "-", "*", "/", "%", "and", "or"}
	i := 0
	for _, x := range vals {
		for _, y := range vals {
			if i++; !c.Mine(i) {
				continue
			}
			for _, op := range ops {
				rc := &rec{vals: map[string]interface{}{"x": x, "y": y, "z": pick(c.R, vals)}}
				r := ident("y")
				switch op {
				case "in":
					r = arr(ident("z"), ident("y"))
				case "between":
					r = arr(ident("y"), ident("z"))
				case "is":
					r = null()
				}
				e := bin(op, ident("x"), r)
				evalCase(c, g, e, rc, "value pairs")
				evalCase(c, g, un("not", e), rc, "value pairs")
			}
			evalCase(c, g, un("neg", ident("x")), &rec{vals: map[string]interface{}{"x": x}}, "value pairs")
		}
	}
	var rc *rec
	for n := c.N(2400000, 20000000); n > 0; n-- {
		if rc == nil || oneIn(c.R, 20) {
			rc = g.record()
		}
		e := g.typed(rc, pick(c.R, []string{"bool", "bool", "bool", "num", "date", "str"}), 1+c.R.Intn(4))
		if oneIn(c.R, 8) {
			e = g.wild(rc, 1+c.R.Intn(3))
		}
		if !scalarOnly(e, rc) {
			continue
		}
		evalCase(c, g, e, rc, "typed")
	}
}

// c12: arrays.
func c12(c *C) {
	g := newG(c.R)
	var rc *rec
	for n := c.N(1800000, 20000000); n > 0; n-- {
		if rc == nil || oneIn(c.R, 20) {
			rc = g.record()
		}
		var e *E
		switch c.R.Intn(8) {
		case 0, 1:
			e = un(pick(c.R, []string{"any", "all"}), g.typed(rc, "abool", 3))
		case 2:
			e = un("sum", g.typed(rc, "anum", 3))
		case 3:
			e = un("len", g.typed(rc, pick(c.R, []string{"anum", "astr", "abool", "adate", "mixed"}), 3))
		case 4:
			e = g.condition(rc, pick(c.R, []string{"anum", "astr", "adate", "abool", "mixed"}), 2)
		case 5:
			e = un(pick(c.R, unOps), g.field(rc, pick(c.R, []string{"mixed", "anum", "abool", "num", "str", "bool", "null"})))
		case 6:
			e = g.typed(rc, "anum", 3)
		case 7:
			e = g.typed(rc, "bool", 3)
		}
		if oneIn(c.R, 6) {
			e = g.wild(rc, 1+c.R.Intn(3))
		}
		if scalarOnly(e, rc) && c.R.Intn(20) > 0 {
			continue
		}
		evalCase(c, g, e, rc, "arrays")
	}
	// Fields with more elements than fit into any fixed place, the last of which counts.
	for n := c.N(24, 400); n > 0; n-- {
		a := make([]interface{}, 1<<(9+c.R.Intn(8))+c.R.Intn(5000))
		for k := range a {
			a[k] = g.goNum(1 + k%7)
		}
		last := 100 + c.R.Intn(100)
		switch c.R.Intn(4) {
		case 0:
			a[len(a)-1] = float64(last)
		case 1:
			a[len(a)-1] = "x"
		case 2:
			a[len(a)-1] = []interface{}{last}
		}
		rc := &rec{vals: map[string]interface{}{"a": a, "n": last}}
		x := ident("a")
		for _, e := range []*E{
			bin(">", un("len", x), num(float64(len(a)-1))),
			un("len", bin("+", x, num(1))),
			un("sum", x),
			un("any", bin(">", x, num(99))),
			un("any", bin("=", x, ident("n"))),
			un("all", bin("<", x, num(99))),
			un("all", un("not", bin("=", x, ident("n")))),
			un("any", bin("in", x, arr(num(float64(last)), num(-1)))),
			un("any", bin("between", x, arr(num(100), num(300)))),
		} {
			s := g.phrase(e, false)
			c.Begin("%s for %d elements, the last is %v", s, len(a), a[len(a)-1])
			evalPhrase(c, s, e, rc, "long arrays")
		}
	}
}

// c13: patterns.
func c13(c *C) {
	g := newG(c.R)
	alpha := []rune{'a', 'b', 'A', 'B', '%', '_', '.', '*', '\n', 'é', 'É', '(', '[', '\\', '^', '$', '+', '?', '|', '{', '日', '-', ']', ')', '"', '\''}
	small := []rune{'a', 'b', 'A', '\n', 'é'}
	rs := func(al []rune, n int) string {
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteRune(pick(c.R, al))
		}
		return b.String()
	}
	one := func(op, v, p string) {
		rc := &rec{vals: map[string]interface{}{"name": v}}
		e := bin(op, ident("name"), str(p))
		if x := strLiteral(p); x.K != "str" {
			return
		}
		if _, isDate := refDate(v); isDate {
			return
		}
		if oneIn(c.R, 5) {
			e = un("not", e)
		}
		if oneIn(c.R, 8) {
			// a literal on the left
			if x := strLiteral(v); x.K == "str" {
				e = bin(op, str(v), str(p))
			}
		}
		evalCase(c, g, e, rc, op)
	}
	// All the short patterns and values over a small alphabet.
	var all func(al string, n int) []string
	all = func(al string, n int) []string {
		if n == 0 {
			return []string{""}
		}
		var out []string
		for _, s := range all(al, n-1) {
			out = append(out, s)
			if len([]rune(s)) == n-1 {
				for _, a := range al {
					out = append(out, s+string(a))
				}
			}
		}
		return out
	}
	i := 0
	for _, v := range all("aB.", 3) {
		for _, p := range all("a%_B.", 3) {
			if i++; c.Mine(i) {
				one("like", v, p)
				if oneIn(c.R, 3) {
					one("ilike", v, p)
				}
			}
		}
	}
	for n := c.N(1200000, 15000000); n > 0; n-- {
		v := rs(small, c.R.Intn(8))
		if oneIn(c.R, 3) {
			v = rs(alpha, c.R.Intn(8))
		}
		if oneIn(c.R, 4) {
			v = pick(c.R, words)
		}
		switch c.R.Intn(4) {
		case 0, 1, 2:
			// a pattern made of the value
			p := []rune(v)
			if oneIn(c.R, 5) {
				p = []rune(rs(alpha, c.R.Intn(8)))
			}
			for k := c.R.Intn(4); k > 0 && len(p) > 0; k-- {
				j := c.R.Intn(len(p))
				switch c.R.Intn(5) {
				case 0:
					p[j] = '_'
				case 1:
					p[j] = '%'
				case 2:
					l := c.R.Intn(len(p) - j)
					p = append(append(append([]rune{}, p[:j]...), '%'), p[j+l:]...)
				case 3:
					p[j] = []rune(strings.ToUpper(string(p[j])))[0]
				case 4:
					p = append(append(append([]rune{}, p[:j]...), pick(c.R, alpha)), p[j:]...)
				}
			}
			one(pick(c.R, []string{"like", "ilike"}), v, string(p))
		case 3:
			one(pick(c.R, []string{"~=", "~!"}), v, g.regex(c.R.Intn(5)))
		}
	}
}

func deepCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = deepCopy(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			out[k] = deepCopy(x[k])
		}
		return out
	}
	return v
}

func sameRecord(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !sameGo(a[k], b[k]) {
			return false
		}
	}
	return true
}

func sameGo(a, b interface{}) bool {
	if x, ok := a.([]interface{}); ok {
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameGo(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if x, ok := a.(float64); ok && math.IsNaN(x) {
		y, ok := b.(float64)
		return ok && math.IsNaN(y)
	}
	return reflect.DeepEqual(a, b)
}

func showRes(v interface{}, err error) string {
	if err != nil {
		return fmt.Sprintf("error %v", err)
	}
	return show(v)
}

// c14: evaluation never panics, changes nothing and depends on nothing else
// than the tree and the record.
func c14(c *C) {
	g := newG(c.R)
	odd := func() interface{} {
		switch c.R.Intn(16) {
		case 0:
			return nil
		case 1:
			return []interface{}(nil)
		case 2:
			return map[string]interface{}{"a": []interface{}{1}}
		case 3:
			return []string{"a", "b"}
		case 4:
			return func() {}
		case 5:
			return struct{ A []int }{[]int{1}}
		case 6:
			return &struct{ A int }{1}
		case 7:
			return make(chan int)
		case 8:
			return []byte("abc")
		case 9:
			return complex(1, 2)
		case 10:
			return time.Time{}
		case 11:
			return pick(c.R, []interface{}{math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), math.MaxFloat64, math.Inf(-1), math.NaN(), -0.5, 0.5, 1e-300})
		case 12:
			return []interface{}{nil, 1, "a", []interface{}{true, []interface{}{}}, map[string]int{"x": 1}, []int{1}}
		case 13:
			return [2]interface{}{[]int{1}, 2}
		case 14:
			return time.Second
		}
		return errors.New("x")
	}
	type treeRes struct {
		s   string
		n   *tsl.TSLNode
		rc  *rec
		res string
	}
	var kept []treeRes
	var rc *rec
	for n := c.N(400000, 12000000); n > 0; n-- {
		if rc == nil || oneIn(c.R, 10) {
			rc = g.record()
			for name := range rc.vals {
				_ = name
			}
			var names []string
			for name := range rc.vals {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				if oneIn(c.R, 4) {
					rc.vals[name] = odd()
				}
			}
		}
		var e *E
		if oneIn(c.R, 2) {
			// any operator on anything
			var all []string
			for _, t := range []string{"num", "str", "date", "bool", "null", "missing", "anum", "astr", "abool", "adate", "mixed", "opaque"} {
				all = append(all, rc.by[t]...)
			}
			g.idents = all
			e = g.any(1 + c.R.Intn(4))
		} else {
			e = g.typed(rc, "bool", 3)
		}
		s := g.phrase(e, false)
		c.Begin("%s\nrecord: %s", s, rc.used(e))
		node, err := parse(c, s)
		if err != nil {
			c.Count("phrases not parsed")
			continue
		}
		before := dumpNode(node)
		copyOf := map[string]interface{}{}
		for k, v := range rc.vals {
			copyOf[k] = deepCopy(v)
		}
		asked := map[string]bool{}
		// A lookup may use the library, for fields that are computed.
		nested := oneIn(c.R, 25)
		look := func(name string) (interface{}, bool) {
			asked[name] = true
			if nested {
				k := mustParse(c, "a + "+name+" > 1 or b.c = 's'")
				v, err := semantics.Walk(k, func(string) (interface{}, bool) { return 1, true })
				k.Free()
				_, _ = semantics.Walk(node, rc.lookup)
				if v != true || err != nil {
					c.Fail("evaluation inside of a lookup gives what it gives alone", "%s: %v %v", name, v, err)
				}
				c.Count("lookups that use the library")
			}
			return rc.lookup(name)
		}
		var v1, v2, v3 interface{}
		var e1, e2, e3 error
		c.Guard("semantics.Walk", func() { v1, e1 = semantics.Walk(node, look) })
		if e1 != nil {
			c.Guard("Error", func() { _ = e1.Error() })
		}
		if oneIn(c.R, 4) {
			// a phrase that is nearly the same, in between and later
			if x := g.sibling(e); x != nil {
				t := g.phrase(x, false)
				if near, err := parse(c, t); err == nil {
					c.Guard("semantics.Walk", func() { v3, e3 = semantics.Walk(near, rc.lookup) })
					if r := showRes(v3, e3); !strings.Contains(r, "0x") {
						i := c.R.Intn(len(kept) + 1)
						if i < len(kept) {
							kept[i].n.Free()
						} else {
							kept = append(kept, treeRes{})
						}
						kept[i] = treeRes{t, near, &rec{vals: copyOf}, r}
						c.Count("phrases next to nearly the same")
					} else {
						near.Free()
					}
				}
			}
		}
		c.Guard("semantics.Walk", func() { v2, e2 = semantics.Walk(node, rc.lookup) })
		r1, r2 := showRes(v1, e1), showRes(v2, e2)
		if r1 != r2 && !strings.Contains(r1, "0x") {
			c.Fail("evaluating again gives the same result", "%s\nrecord: %s\nfirst %s\nthen %s", s, rc.used(e), r1, r2)
		}
		if after := dumpNode(node); after != before {
			c.Fail("evaluation does not change the tree", "%s\nbefore %s\nafter %s", s, before, after)
		}
		if !noFuncSame(rc.vals, copyOf) {
			c.Fail("evaluation does not change the record", "%s\nbefore %v\nafter %v", s, copyOf, rc.vals)
		}
		inTree := map[string]bool{}
		e.walk(func(x *E) {
			if x.K == "ident" {
				inTree[x.S] = true
			}
		})
		for name := range asked {
			if !inTree[name] {
				c.Fail("only the identifiers of the phrase are looked up", "%s asked for %q", s, name)
			}
		}
		if e1 == nil {
			for name := range inTree {
				if !asked[name] {
					c.Fail("the identifiers of the phrase are looked up", "%s did not ask for %q", s, name)
				}
			}
			c.Count("values")
		} else {
			c.Count("errors: " + errKind(e1))
		}
		c.Distinct(s + "\x00" + rc.used(e))
		c.Sample("%s with %s => %s", s, rc.used(e), r1)
		// Trees are evaluated again after many others were.
		if strings.Contains(r1, "0x") {
			node.Free()
			continue
		}
		t := treeRes{s, node, &rec{vals: copyOf}, r1}
		if len(kept) < 100 {
			kept = append(kept, t)
			continue
		}
		i := c.R.Intn(len(kept))
		k := kept[i]
		var v interface{}
		c.Guard("semantics.Walk", func() { v, err = semantics.Walk(k.n, k.rc.lookup) })
		if r := showRes(v, err); r != k.res {
			c.Fail("the result depends only on the tree and the record", "%s\nfirst %s\nlater, after other evaluations, %s", k.s, k.res, r)
		}
		c.Count("evaluated again later")
		k.n.Free()
		kept[i] = t
	}
	for _, k := range kept {
		k.n.Free()
	}
}

func noFuncSame(a, b map[string]interface{}) bool {
	x, y := map[string]interface{}{}, map[string]interface{}{}
	for k, v := range a {
		if v != nil {
			switch reflect.TypeOf(v).Kind() {
			case reflect.Func, reflect.Chan:
				continue
			}
		}
		x[k] = v
		y[k] = b[k]
	}
	return sameRecord(x, y)
}
