//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"
	"time"
	"unicode"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
)

func init() {
	props["C22"] = c22
	props["C30"] = c30
}

// ----------------------------------------------------- the reference

type evalErr struct{ what string }

// either: whether a list with values of another kind is an error if one of the
// others is found depends on the order in which they are compared, which is
// not specified.
const either = "values of another kind next to the one that is found"

func bad(f string, a ...interface{}) { panic(evalErr{fmt.Sprintf(f, a...)}) }

// refValue is the value of a literal, a field or a math expression: nil, a
// float64, a string, a bool, a time or, v5 only, a list of strings.
func refValue(e *E, rec map[string]interface{}) interface{} {
	switch e.K {
	case "num":
		return e.Num
	case "str":
		return e.S
	case "bool":
		return e.B
	case "ts":
		t, err := time.Parse(time.RFC3339Nano, e.S)
		if err != nil {
			panic(err)
		}
		return t
	case "ident":
		v, ok := rec[e.S]
		if !ok || v == nil {
			return nil
		}
		switch x := v.(type) {
		case string, float64:
			return v
		case bool:
			if V == 4 {
				return fmt.Sprint(x)
			}
			return v
		case time.Time, []string:
			if V == 4 {
				bad("type")
			}
			return v
		case float32, int, int32, int64, uint, uint32, uint64:
			return reflect.ValueOf(v).Convert(reflect.TypeOf(1.0)).Float()
		}
		bad("type")
	}
	// math
	if V == 4 {
		bad("math")
	}
	l, r := refValue(e.L, rec), refValue(e.R, rec)
	if l == nil || r == nil {
		return nil
	}
	x, ok1 := l.(float64)
	y, ok2 := r.(float64)
	if !ok1 || !ok2 {
		bad("math")
	}
	switch e.Op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	}
	return math.Mod(x, y)
}

// order compares two values of one type, -2 is for not comparable (NaN).
func order(l, r interface{}) int {
	switch x := l.(type) {
	case float64:
		y := r.(float64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		case x == y:
			return 0
		}
		return -2
	case string:
		return strings.Compare(x, r.(string))
	case time.Time:
		return x.Compare(r.(time.Time))
	}
	panic("order")
}

func refTrue(op string, o int) bool {
	switch op {
	case "=":
		return o == 0
	case "!=":
		return o != 0
	case "<":
		return o == -1
	case "<=":
		return o == -1 || o == 0
	case ">":
		return o == 1
	case ">=":
		return o == 1 || o == 0
	}
	panic(op)
}

func sameKind(l, r interface{}) bool { return reflect.TypeOf(l) == reflect.TypeOf(r) }

func refCond(e *E, rec map[string]interface{}) bool {
	if e.K == "un" {
		switch e.Op {
		case "not":
			return !refCond(e.R, rec)
		case "isnull":
			return refValue(e.R, rec) == nil
		case "notnull":
			return refValue(e.R, rec) != nil
		}
	}
	switch e.Op {
	case "and":
		l, r := refCond(e.L, rec), refCond(e.R, rec)
		return l && r
	case "or":
		l, r := refCond(e.L, rec), refCond(e.R, rec)
		return l || r
	}
	l := refValue(e.L, rec)
	if e.R.K == "array" {
		var a []interface{}
		for _, x := range e.R.A {
			a = append(a, refValue(x, rec))
		}
		if l == nil {
			return false
		}
		if list, ok := l.([]string); ok {
			if e.Op != "in" && e.Op != "nin" {
				bad("list")
			}
			found, other := false, false
			for _, x := range a {
				s, ok := x.(string)
				other = other || !ok
				for _, y := range list {
					found = found || ok && y == s
				}
			}
			if other && found {
				bad(either)
			}
			if other {
				bad("list")
			}
			return found == (e.Op == "in")
		}
		if _, ok := l.(bool); ok {
			bad("boolean")
		}
		found, other := false, false
		for _, x := range a {
			if !sameKind(l, x) {
				other = true
			} else {
				found = found || order(l, x) == 0
			}
		}
		if other && found && (e.Op == "in" || e.Op == "nin") {
			bad(either)
		}
		if other {
			bad("kinds")
		}
		switch e.Op {
		case "in", "nin":
			return found == (e.Op == "in")
		case "between":
			return refTrue(">=", order(l, a[0])) && refTrue("<=", order(l, a[1]))
		}
		return refTrue("<", order(l, a[0])) || refTrue(">", order(l, a[1]))
	}
	r := refValue(e.R, rec)
	if r == nil {
		return false
	}
	if _, ok := r.([]string); ok && l != nil {
		bad("list")
	}
	if l == nil {
		return false
	}
	if b, ok := l.(bool); ok {
		t := false
		switch x := r.(type) {
		case bool:
			t = x
		case float64:
			t = x != 0
		case string:
			t = (len(x) == 1 || len(x) == 4) && (x[0] == 't' || x[0] == 'T')
		default:
			bad("boolean")
		}
		switch e.Op {
		case "=":
			return b == t
		case "!=":
			return b != t
		}
		bad("boolean")
	}
	if !sameKind(l, r) {
		bad("kinds")
	}
	if _, ok := l.([]string); ok {
		bad("list")
	}
	s, isStr := l.(string)
	switch e.Op {
	case "like", "ilike", "~=", "~!":
		if !isStr {
			bad("text")
		}
		p := r.(string)
		switch e.Op {
		case "like":
			return refLike([]rune(s), []rune(p))
		case "ilike":
			return refLike(fold(s), fold(p))
		}
		n, st := parseRe(p)
		switch st {
		case 0:
			return n.search(s) == (e.Op == "~=")
		case 1:
			bad("regular expression")
		}
		// outside of what the reference knows
		m, err := regexp.MatchString(p, s)
		if err != nil {
			bad("regular expression")
		}
		return m == (e.Op == "~=")
	}
	return refTrue(e.Op, order(l, r))
}

func fold(s string) []rune { return []rune(strings.ToLower(strings.ToUpper(s))) }

func refEval(e *E, rec map[string]interface{}) (v bool, err string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(evalErr); ok {
				v, err = false, x.what
				return
			}
			panic(r)
		}
	}()
	return refCond(e, rec), ""
}

// hasMathLeft is for v4, that has no arithmetic: it is an error of a comparison,
// IS NULL of it is not specified.
func unspecified(e *E) bool {
	out := false
	e.walk(func(x *E) {
		if V == 4 && x.K == "un" && x.R.K == "bin" && isMath(x.R.Op) {
			out = true
		}
	})
	return out
}

// sibling is a phrase that is nearly e.
func (g *G) sibling(e *E) *E {
	return sibling(g.r, e, func(op string) bool { return !isMath(op) })
}

// ------------------------------------------------------- typed phrases

var numFields = []string{"n1", "n2", "n3", "pages", "spec.rating"}
var strFields = []string{"s1", "s2", "name", "author.name"}
var boolFields = []string{"b1", "b2"}
var timeFields = []string{"t1", "t2"}
var listFields = []string{"l1", "l2"}
var nullFields = []string{"z1", "missing.field"}

var wildFields = append(append(append(append(append(append([]string{"p1"}, numFields...), strFields...), boolFields...), timeFields...), listFields...), nullFields...)

type evalG struct {
	*G
	nums                 []float64
	words, dates, stamps []string
	// odd: names with spaces at their ends are names of their own
	odd bool
}

// fresh makes new values for a phrase and its records.
func (g *evalG) fresh() { g.nums, g.words, g.dates, g.stamps = freshValues(g.r) }

func (g *evalG) someNum() float64 {
	if len(g.nums) > 0 && oneIn(g.r, 4) {
		return pick(g.r, g.nums)
	}
	return pick(g.r, evalNums)
}

func (g *evalG) someStr() string {
	if len(g.words) > 0 && oneIn(g.r, 4) {
		return pick(g.r, g.words)
	}
	return pick(g.r, evalStrs)
}

func (g *evalG) someTime() string {
	if len(g.stamps) > 0 && oneIn(g.r, 3) {
		return pick(g.r, g.stamps)
	}
	return pick(g.r, evalTimes)
}

var evalStrs = []string{"", "a", "joe", "Joe", "JOE", "it's", "100%", "a_b", "a.b", "axb", "line\nbreak", "é", "É", "日本", "t", "true", "TRUE", "tttt", "T", "f", "1", "false", "abc", "ab", "b", "a(b", "[x]", "\\", "ſ", "K", "k", "x*", "^a$",
	// dates and what is nearly one
	"2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01 00:00:00", "2020-1-1", "2020-01-01T00:00:00", "2020-01-01T02:00:00+02:00"}
var evalNums = []float64{0, 1, 2, 3, -1, -2, 0.5, 1.5, 100, 1024, 1e300, -1e300, 1e-300, 9007199254740992, 2.5, 7, 10}
var evalTimes = []string{"2020-01-01T00:00:00Z", "2020-01-01T02:00:00+02:00", "2019-12-31T19:00:00-05:00", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.000000001Z", "2020-02-29T00:00:00Z", "1970-01-01T00:00:00Z", "2020-01-01T00:00:01Z"}
var evalPatterns = []string{"a", "^j", "oe$", "[a-c]+", ".", "^$", "(", "a|b", "(?i)JOE", "x*", "\\d", "[", "a.b", "(a)(b)?", "^.*$", "o{2}", "\\.", "é"}

func (g *evalG) regex() string {
	if oneIn(g.r, 8) {
		// a text that is also used as a pattern of LIKE
		return g.someStr()
	}
	return pick(g.r, evalPatterns)
}

func (g *evalG) likePattern() string {
	if oneIn(g.r, 8) {
		// a text that is also used as a regular expression
		return pick(g.r, evalPatterns)
	}
	var b strings.Builder
	for _, x := range []rune(g.someStr()) {
		switch g.r.Intn(6) {
		case 0:
			b.WriteByte('_')
		case 1:
			b.WriteByte('%')
		case 2:
			b.WriteString(string(x) + "%")
		case 3:
			b.WriteString(strings.ToUpper(string(x)))
		default:
			b.WriteRune(x)
		}
	}
	if oneIn(g.r, 4) {
		b.WriteByte('%')
	}
	return b.String()
}

func (g *evalG) litOf(kind string) *E {
	switch kind {
	case "num":
		return num(g.someNum())
	case "str":
		return str(g.someStr())
	case "bool":
		return boolean(oneIn(g.r, 2))
	}
	return ts(g.someTime())
}

func (g *evalG) kind() string {
	if V == 4 {
		return pick(g.r, []string{"num", "str"})
	}
	return pick(g.r, []string{"num", "num", "str", "str", "bool", "time"})
}

func (g *evalG) fieldOf(kind string) *E {
	if oneIn(g.r, 12) {
		return ident(pick(g.r, nullFields))
	}
	if oneIn(g.r, 25) {
		kind = g.kind()
	}
	switch kind {
	case "num":
		if V == 5 && g.odd && oneIn(g.r, 6) {
			return ident("n1 ")
		}
		return ident(pick(g.r, numFields))
	case "str":
		if V == 5 && g.odd && oneIn(g.r, 6) {
			return ident(" s1")
		}
		return ident(pick(g.r, strFields))
	case "bool":
		return ident(pick(g.r, boolFields))
	case "list":
		return ident(pick(g.r, listFields))
	}
	return ident(pick(g.r, timeFields))
}

func (g *evalG) calc(depth int) *E {
	if depth <= 0 || V == 4 {
		return g.fieldOf("num")
	}
	ops := append(append([]string{}, mulOps...), addOps...)
	r := num(g.someNum())
	if oneIn(g.r, 2) {
		r = g.calc(depth - 1)
	}
	if oneIn(g.r, 30) {
		return bin(pick(g.r, ops), g.fieldOf(g.kind()), r)
	}
	return bin(pick(g.r, ops), g.calc(depth-1), r)
}

func (g *evalG) left(kind string) *E {
	if kind == "num" && V == 5 && oneIn(g.r, 2) || oneIn(g.r, 40) {
		return g.calc(1 + g.r.Intn(2))
	}
	return g.fieldOf(kind)
}

// test is a comparison, most of them of operands of the right types.
func (g *evalG) test() *E {
	r := g.r
	k := g.kind()
	lk := k
	if oneIn(r, 15) {
		lk = g.kind()
	}
	switch r.Intn(9) {
	case 0:
		return un(pick(r, []string{"isnull", "notnull"}), g.left(k))
	case 1, 2:
		if V == 5 && oneIn(r, 3) {
			k, lk = "str", "list"
		}
		a := arr()
		n := r.Intn(4)
		if oneIn(r, 8) {
			n = bigSize(r, 40)
		} else if oneIn(r, 4000) {
			n = bigSize(r, 5000)
		}
		for ; n > 0; n-- {
			a.A = append(a.A, g.litOf(k))
		}
		if oneIn(r, 12) {
			a.A = append(a.A, g.litOf(g.kind()))
		}
		return bin(pick(r, []string{"in", "nin"}), g.left(lk), a)
	case 3:
		return bin(pick(r, []string{"between", "nbetween"}), g.left(lk), arr(g.litOf(k), g.litOf(k)))
	case 4, 5:
		if !oneIn(r, 15) {
			lk = "str"
		}
		switch r.Intn(3) {
		case 0:
			return bin(pick(r, []string{"like", "ilike"}), g.left(lk), str(g.likePattern()))
		case 1:
			if V == 5 {
				return bin(pick(r, []string{"~=", "~!"}), g.left(lk), ident(pick(r, append(strFields, "p1"))))
			}
		}
		return bin(pick(r, []string{"~=", "~!"}), g.left(lk), str(g.regex()))
	}
	var right *E
	switch {
	case V == 5 && oneIn(r, 3):
		right = g.left(k)
	case V == 5 && k == "bool" && oneIn(r, 2):
		right = g.litOf(g.kind())
	default:
		right = g.litOf(k)
	}
	ops := cmpOps
	if k == "bool" && !oneIn(r, 6) {
		ops = cmpOps[:2]
	}
	return bin(pick(r, ops), g.left(lk), right)
}

func (g *evalG) logic(depth int) *E {
	if depth <= 0 || oneIn(g.r, 4) {
		return g.test()
	}
	if oneIn(g.r, 100) {
		return tower(g.r, 64, g.test, []string{"and", "or"}, []string{"not"})
	}
	switch g.r.Intn(4) {
	case 0:
		return un("not", g.logic(depth-1))
	case 1:
		return bin("or", g.logic(depth-1), g.logic(depth-1))
	}
	return bin("and", g.logic(depth-1), g.logic(depth-1))
}

func (g *evalG) goNum() interface{} {
	f := g.someNum()
	if f == math.Trunc(f) && math.Abs(f) < 1<<62 && oneIn(g.r, 4) {
		i := int64(f)
		if i > 1<<53 || i < -1<<53 {
			// integers that are no float64 too
			i += int64(g.r.Intn(3) - 1)
		}
		if i >= 0 && oneIn(g.r, 3) {
			return uint64(i)
		}
		return i
	}
	if oneIn(g.r, 40) {
		// integers that no smaller type holds
		switch g.r.Intn(4) {
		case 0:
			return uint32(1<<31 + g.r.Uint32()>>1)
		case 1:
			return int64(1)<<(31+g.r.Intn(20)) + int64(g.r.Intn(3)) - 1
		case 2:
			return -(int64(1)<<(31+g.r.Intn(20)) + int64(g.r.Intn(3)) - 1)
		case 3:
			return uint64(1)<<(31+g.r.Intn(20)) + uint64(g.r.Intn(3)) - 1
		}
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e6 {
		switch g.r.Intn(9) {
		case 0:
			return int(f)
		case 1:
			return int32(f)
		case 2:
			return int64(f)
		case 3:
			return uint(math.Abs(f))
		case 4:
			return uint32(math.Abs(f))
		case 5:
			return uint64(math.Abs(f))
		case 6:
			return float32(f)
		}
	}
	return f
}

func (g *evalG) record() map[string]interface{} {
	r := g.r
	rec := map[string]interface{}{"z1": nil}
	for _, f := range append([]string{"n1 "}, numFields...) {
		rec[f] = g.goNum()
	}
	for _, f := range append([]string{" s1"}, strFields...) {
		rec[f] = g.someStr()
	}
	rec["p1"] = pick(r, evalPatterns)
	for _, f := range boolFields {
		rec[f] = oneIn(r, 2)
	}
	for _, f := range timeFields {
		t, _ := time.Parse(time.RFC3339Nano, g.someTime())
		switch r.Intn(3) {
		case 0:
			t = t.In(time.FixedZone("x", 3600*r.Intn(12)))
		case 1:
			t = t.UTC()
		}
		rec[f] = t
	}
	for _, f := range listFields {
		l := []string{}
		n := r.Intn(4)
		if oneIn(r, 20) {
			n = bigSize(r, 100)
		} else if oneIn(r, 4000) {
			n = bigSize(r, 5000)
		}
		for ; n > 0; n-- {
			l = append(l, g.someStr())
		}
		rec[f] = l
	}
	for f := range rec {
		switch r.Intn(25) {
		case 0:
			rec[f] = nil
		case 1:
			delete(rec, f)
		}
	}
	return rec
}

func runEval(c *C, n tsl.Node, rec map[string]interface{}) (v bool, err error) {
	c.Guard("semantics.Walk", func() {
		v, err = semantics.Walk(n, func(k string) (interface{}, bool) {
			x, ok := rec[k]
			return x, ok
		})
	})
	return
}

func checkEval(c *C, e *E, s string, n tsl.Node, rec map[string]interface{}) {
	want, bad := refEval(e, rec)
	got, err := runEval(c, n, rec)
	show := func() string {
		m := map[string]interface{}{}
		e.walk(func(x *E) {
			if x.K == "ident" {
				if v, ok := rec[x.S]; ok {
					m[x.S] = v
				}
			}
		})
		return fmt.Sprintf("%q for %#v", s, m)
	}
	if bad == either {
		c.Count("not decided: " + bad)
		return
	}
	switch {
	case bad != "" && err == nil:
		c.Fail("what has no value is an error", "%s gave %v (%s)", show(), got, bad)
	case bad == "" && err != nil:
		c.Fail("a phrase that has a value is no error", "%s is %v and gave the error %v", show(), want, err)
	case bad == "" && got != want:
		c.Fail("the value is the one the language defines", "%s is %v and gave %v", show(), want, got)
	case bad != "" && err.Error() == "":
		c.Fail("an error has a message", "%s", show())
	}
	switch {
	case bad != "":
		c.Count("error: " + bad)
	case want:
		c.Count("true")
	default:
		c.Count("false")
	}
}

// c22: the value of phrases for records.
func c22(c *C) {
	g := &evalG{G: newG(c.R), odd: true}
	// Every operator on every pair of a pool of values.
	vals := []interface{}{nil, "", "a", "joe", "t", "true", "100%", 0.0, 1.0, -2.5, 1e300, int(1), int32(1), int64(1), uint(1), uint32(1), uint64(1), float32(0.5), true, false,
		math.NaN(), math.Inf(1), math.Inf(-1), []string{}, []string{"a"}, []string{"a", "joe"}, uint64(math.MaxUint64), int64(math.MinInt64),
		int8(1), uint16(1), []byte("a"), []interface{}{"a"}, []int{1}, map[string]string{}, struct{}{}, complex(1, 1), (*int)(nil), error(nil)}
	for _, t := range evalTimes[:5] {
		x, _ := time.Parse(time.RFC3339Nano, t)
		vals = append(vals, x)
	}
	lits := []*E{str(""), str("a"), str("joe"), str("t"), str("T"), str("true"), str("TRUE"), str("tx"), str("j%"), str("_"), str("("), num(0), num(1), num(-2.5), num(1e300)}
	if V == 5 {
		lits = append(lits, boolean(true), boolean(false))
		for _, t := range evalTimes[:4] {
			lits = append(lits, ts(t))
		}
	}
	i := 0
	one := func(e *E, rec map[string]interface{}) {
		if i++; !c.Mine(i) || unspecified(e) {
			return
		}
		s := g.phrasePlain(e)
		c.Begin("%s %#v", s, rec)
		n := mustParse(c, s)
		checkEval(c, e, s, n, rec)
		c.Count("value pairs")
		c.Distinct(fmt.Sprintf("%s %#v", canon(e), rec))
	}
	x, y := ident("x"), ident("y")
	for _, v := range vals {
		rec := map[string]interface{}{"x": v, "w": "w"}
		one(un("isnull", x), rec)
		one(un("notnull", x), rec)
		one(bin("in", x, arr()), rec)
		one(bin("nin", x, arr()), rec)
		for _, l := range lits {
			for _, op := range cmpOps {
				one(bin(op, x, l), rec)
				if V == 5 && isLit(l) && l.K != "str" {
					one(bin(op, bin("+", x, l), num(1)), rec)
				}
			}
			if l.K == "str" {
				for _, op := range []string{"like", "ilike", "~=", "~!"} {
					one(bin(op, x, l), rec)
				}
			}
			for _, op := range []string{"in", "nin", "between", "nbetween"} {
				for _, m := range lits {
					one(bin(op, x, arr(l, m)), rec)
				}
			}
		}
		if V == 5 {
			for _, w := range vals {
				rec := map[string]interface{}{"x": v, "y": w}
				for _, op := range cmpOps {
					one(bin(op, x, y), rec)
				}
				one(bin("~=", x, y), rec)
				for _, op := range []string{"+", "-", "*", "/", "%"} {
					one(bin("=", bin(op, x, y), num(1)), rec)
					one(bin("<", x, bin(op, y, x)), rec)
				}
			}
		}
	}
	// LIKE and ILIKE: all the short patterns and values, and long patterns made of the value.
	var all func(al string, n int) []string
	all = func(al string, n int) []string {
		if n == 0 {
			return []string{""}
		}
		var out []string
		for _, s := range all(al, n-1) {
			out = append(out, s)
			if len([]rune(s)) == n-1 {
				for _, a := range al {
					out = append(out, s+string(a))
				}
			}
		}
		return out
	}
	for _, v := range all("aB.ſ", 3) {
		for _, p := range all("As%_.", 3) {
			one(bin("ilike", x, str(p)), map[string]interface{}{"x": v})
			if !strings.ContainsAny(p, "As") || oneIn(g.r, 3) {
				one(bin("like", x, str(p)), map[string]interface{}{"x": v})
			}
		}
	}
	letters := []rune("aAbBkKsSKſéÉßẞµμΣσς.*+?()[]{}^$|\\\n %_'\"日iIDždžDŽ")
	for n := c.N(100000, 2000000); n > 0; n-- {
		var v, p []rune
		for k := g.r.Intn(7); k > 0; k-- {
			a := pick(g.r, letters)
			v = append(v, a)
			switch g.r.Intn(12) {
			case 0:
				p = append(p, '_')
			case 1:
				p = append(p, '%')
			case 2:
				p = append(p, a, '%')
			case 3:
				p = append(p, '%', a)
			case 4:
				p = append(p, unicode.SimpleFold(a))
			case 5:
				p = append(p, unicode.SimpleFold(unicode.SimpleFold(a)))
			case 6:
				if oneIn(g.r, 3) {
					p = append(p, pick(g.r, letters))
				}
			default:
				p = append(p, a)
			}
		}
		if oneIn(g.r, 5) {
			p = append(p, '%')
		}
		e := bin(pick(g.r, []string{"like", "ilike"}), x, str(string(p)))
		if oneIn(g.r, 6) {
			e = un("not", e)
		}
		s := g.phrase(e)
		c.Begin("%s for %q", s, string(v))
		checkEval(c, e, s, mustParse(c, s), map[string]interface{}{"x": string(v)})
		c.Count("patterns")
		c.Distinct(canon(e) + string(v))
	}
	for n := c.N(200000, 2000000); n > 0; n-- {
		if oneIn(g.r, 3) {
			g.fresh()
		}
		e := g.logic(g.r.Intn(4))
		if oneIn(g.r, 6) {
			// operands of any types
			h := newG(c.R)
			h.idents = wildFields
			h.plain = true
			e = h.cond(g.r.Intn(3))
		}
		if unspecified(e) {
			continue
		}
		s := g.phrase(e)
		c.Begin("%s", s)
		node := mustParse(c, s)
		for k := 0; k < 4; k++ {
			checkEval(c, e, s, node, g.record())
		}
		if oneIn(g.r, 4) {
			// a phrase that is nearly the same, and this one once more
			if x := g.sibling(e); x != nil && !unspecified(x) {
				rec := g.record()
				t := g.phrase(x)
				c.Begin("%s after %s", t, s)
				checkEval(c, e, s, node, rec)
				checkEval(c, x, t, mustParse(c, t), rec)
				checkEval(c, e, s, node, rec)
				c.Count("phrases next to nearly the same")
			}
		}
		if e.size() > 3 {
			c.Distinct(canon(e))
			c.Sample("%s", s)
		}
	}
}

// c30: evaluation is total, repeatable and changes nothing.
func c30(c *C) {
	g := &evalG{G: newG(c.R), odd: true}
	hostile := func() interface{} {
		switch c.R.Intn(14) {
		case 0:
			return nil
		case 1:
			return []interface{}{1, "a", nil}
		case 2:
			return map[string]interface{}{"a": 1}
		case 3:
			return func() {}
		case 4:
			return struct{ A int }{1}
		case 5:
			return (*string)(nil)
		case 6:
			return []string(nil)
		case 7:
			return math.NaN()
		case 8:
			return math.Inf(1)
		case 9:
			return []byte{1}
		case 10:
			return time.Time{}
		case 11:
			return make(chan int)
		case 12:
			return fmt.Errorf("x")
		}
		return g.goNum()
	}
	type evaluated struct {
		s    string
		node tsl.Node
		rec  map[string]interface{}
		out  string
	}
	var kept []evaluated
	plain := func(node tsl.Node, rec map[string]interface{}) (out string) {
		c.Guard("semantics.Walk", func() {
			v, err := semantics.Walk(node, func(k string) (interface{}, bool) { x, ok := rec[k]; return x, ok })
			out = fmt.Sprint(v)
			if err != nil {
				out = "error"
			}
		})
		return
	}
	names := append(append(append(append(append([]string{"p1"}, numFields...), strFields...), boolFields...), timeFields...), listFields...)
	for n := c.N(200000, 2000000); n > 0; n-- {
		var e *E
		if oneIn(c.R, 3) {
			g.fresh()
		}
		if oneIn(c.R, 2) {
			h := newG(c.R)
			h.idents = names
			if V == 4 {
				h.idents = []string{"n1", "s1", "name", "b1", "pages"}
			}
			e = h.cond(c.R.Intn(4))
		} else {
			e = g.logic(c.R.Intn(4))
		}
		s := g.phrase(e)
		rec := g.record()
		for k := range rec {
			if oneIn(c.R, 4) {
				rec[k] = hostile()
			}
		}
		c.Begin("%s %v", s, rec)
		node := mustParse(c, s)
		before := rawTree(node)
		recBefore := fmt.Sprintf("%#v", rec)
		asked := map[string]bool{}
		nested := oneIn(c.R, 25)
		run := func() (out string) {
			c.Guard("semantics.Walk", func() {
				v, err := semantics.Walk(node, func(k string) (interface{}, bool) {
					asked[k] = true
					if nested {
						// a lookup may use the library, for fields that are computed
						w, err := semantics.Walk(mustParse(c, "a = 1 or b > 's'"), func(string) (interface{}, bool) { return nil, false })
						_, _ = semantics.Walk(node, func(k string) (interface{}, bool) { x, ok := rec[k]; return x, ok })
						if w || err != nil {
							c.Fail("evaluation inside of a lookup gives what it gives alone", "%v %v", w, err)
						}
						c.Count("lookups that use the library")
					}
					x, ok := rec[k]
					return x, ok
				})
				if err != nil {
					if v {
						c.Fail("an error comes without a value", "%s gave true and %v", s, err)
					}
					out = "error"
					return
				}
				out = fmt.Sprint(v)
			})
			return
		}
		first := run()
		for k := 0; k < 2; k++ {
			if again := run(); again != first {
				c.Fail("the same phrase and record give the same value", "%s for %v gave %s and then %s", s, rec, first, again)
			}
		}
		// A phrase that is nearly the same, and again both of them after others.
		keep := []evaluated{{s, node, rec, first}}
		if oneIn(c.R, 2) {
			if x := g.sibling(e); x != nil {
				t := g.phrase(x)
				n := mustParse(c, t)
				keep = append(keep, evaluated{t, n, rec, plain(n, rec)})
				c.Count("phrases next to nearly the same")
			}
		}
		for _, k := range append(keep, kept...) {
			if len(keep) == 2 || oneIn(c.R, 32) {
				if again := plain(k.node, k.rec); again != k.out {
					c.Fail("the value depends on the phrase and record only", "%s for %v gave %s and after other phrases %s", k.s, k.rec, k.out, again)
				}
				c.Count("evaluated again after others")
			}
		}
		for _, k := range keep {
			if len(kept) < 8 {
				kept = append(kept, k)
			} else {
				kept[c.R.Intn(len(kept))] = k
			}
		}
		if after := rawTree(node); after != before {
			c.Fail("evaluation does not change the tree", "%s: %s became %s", s, before, after)
		}
		if after := fmt.Sprintf("%#v", rec); after != recBefore {
			c.Fail("evaluation does not change the record", "%s: %s became %s", s, recBefore, after)
		}
		inPhrase := map[string]bool{}
		e.walk(func(x *E) {
			if x.K == "ident" {
				inPhrase[x.S] = true
			}
		})
		for k := range asked {
			if !inPhrase[k] {
				c.Fail("only fields of the phrase are asked for", "%s: asked for %q", s, k)
			}
		}
		// a value that comes with not found is not a value
		if oneIn(c.R, 3) {
			k := pick(c.R, names)
			with := func(ok bool, v interface{}) (out string) {
				c.Guard("semantics.Walk", func() {
					b, err := semantics.Walk(node, func(f string) (interface{}, bool) {
						if f == k {
							return v, ok
						}
						x, ok := rec[f]
						return x, ok
					})
					out = fmt.Sprint(b, err != nil)
				})
				return
			}
			if a, b := with(false, ""), with(false, nil); a != b {
				c.Fail("a key that is not found is null", "%s: %q gave %s and %s", s, k, a, b)
			}
			c.Count("keys not found")
		}
		c.Count("outcome " + first)
		if e.size() > 3 {
			c.Distinct(canon(e) + recBefore)
			c.Sample("%s => %s", s, first)
		}
	}
}
