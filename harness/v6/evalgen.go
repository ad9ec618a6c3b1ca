//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strings"
	"time"
)

// Records and typed expressions.

type rec struct {
	vals map[string]interface{}
	by   map[string][]string // identifiers by type
}

// anyInt gives an integer as one of the Go numeric types.
func (g *G) goNum(i int) interface{} {
	r := g.r
	if i < 0 && (oneIn(r, 2) || i < -100) {
		switch r.Intn(5) {
		case 0:
			return i
		case 1:
			return int64(i)
		case 2:
			return int32(i)
		case 3:
			return float64(i)
		}
		return float32(i)
	}
	if i >= -100 && i <= 100 {
		switch r.Intn(14) {
		case 0:
			return int8(i)
		case 1:
			return int16(i)
		case 2:
			return int32(i)
		case 3:
			return int64(i)
		case 4, 5:
			return i
		case 6:
			return float32(i)
		case 7, 8:
			return float64(i)
		}
	}
	if i >= 0 {
		switch r.Intn(5) {
		case 0:
			if i < 256 {
				return uint8(i)
			}
			return uint(i)
		case 1:
			if i < 65536 {
				return uint16(i)
			}
			return uint(i)
		case 2:
			return uint32(i)
		case 3:
			return uint64(i)
		}
		return uint(i)
	}
	return i
}

var someNums = []int{0, 1, 2, 3, 4, 5, 7, 10, 42, 100, -1, -2, -3, -10, 200, 255, 1000, 4096}

func (g *G) someNum() int {
	if oneIn(g.r, 3) {
		return someNums[g.r.Intn(len(someNums))]
	}
	return g.r.Intn(12) - 3
}

// fresh makes new values for a record and the phrases about it.
func (g *G) fresh() { g.nums, g.words, g.dates, g.stamps = freshValues(g.r) }

func (g *G) someDate() string {
	if len(g.dates) > 0 && oneIn(g.r, 3) {
		return pick(g.r, g.dates)
	}
	return pick(g.r, someDates)
}

func (g *G) someStamp() string {
	if len(g.stamps) > 0 && oneIn(g.r, 3) {
		return pick(g.r, g.stamps)
	}
	return pick(g.r, someStamps)
}

func (g *G) someWord() string {
	if len(g.words) > 0 && oneIn(g.r, 4) {
		return pick(g.r, g.words)
	}
	return pick(g.r, words)
}

func (g *G) recNum() interface{} {
	r := g.r
	if len(g.nums) > 0 && oneIn(r, 4) {
		x := pick(r, g.nums)
		if i := int64(x); float64(i) == x && i > -1<<62 && i < 1<<62 && oneIn(r, 2) {
			// integers that are no float64 too
			return pick(r, []interface{}{i, i, i + int64(r.Intn(3)-1), x})
		}
		return x
	}
	switch r.Intn(8) {
	case 0:
		return float64(g.someNum()) + pick(r, []float64{.5, .25, .1, .75})
	case 1:
		if oneIn(r, 6) {
			return pick(r, []interface{}{math.Inf(1), math.Inf(-1), math.NaN(), 1e300, -1e300, 5e-324, int64(1) << 40, uint64(1) << 50, uint64(1)<<63 + 4096, ^uint64(0), int64(-1) << 63, uint32(3_000_000_000), uint(1)<<63 + 1<<62, math.Copysign(0, -1), float32(0.5)})
		}
	}
	return g.goNum(g.someNum())
}

var words = []string{"a", "ab", "abc", "b", "joe", "Joe", "JOE", "jane", "", "a%b", "a_b", "a.b", "axb", "a\nb", "é", "É", "日本", "x*y", "(x)", "[a]", "a+b", "ab ab", "aaa", "it's", "ДА", "да", "true", "1", "10", "9", "null", "^a$", "a\\b",
	// nearly dates
	"2020-01-01 00:00:00", "2020-1-1", "20200101", "2020-01-01T00:00:00", "2020-01-01T00:00Z", "2020-01-01t00:00:00z", " 2020-01-01", "2020-02-30", "01/02/2020", "2020-01"}

var someDates = []string{"2020-01-01", "2020-01-02", "2019-12-31", "2020-06-15", "1999-12-31", "2000-02-29"}
var someStamps = []string{"2020-01-01T00:00:00Z", "2020-01-01T12:00:00Z", "2020-01-01T02:00:00+02:00", "2020-01-01T00:00:00.5Z", "2019-12-31T23:59:59Z", "2019-12-31T19:00:00-05:00", "2020-01-02T00:00:00Z",
	"2020-01-01T00:00:00.000000001Z", "2020-06-15T10:30:00+05:30", "2020-06-15T05:00:00Z"}

// nearDate is a text that is nearly the one of a date.
func (g *G) nearDate() string {
	r := g.r
	d := g.someDate()
	if oneIn(r, 2) {
		d = g.someStamp()
	}
	i := r.Intn(len(d))
	switch r.Intn(9) {
	case 8:
		// digits of which a time has no place for
		return g.someDate() + "T10:20:30." + strings.Repeat(pick(r, []string{"0", "1", "98"}), 1+r.Intn(16)) + pick(r, []string{"Z", "+02:00", "-11:30"})
	case 0:
		return d + pick(r, []string{" ", "\n", "Z", "T", "0", ".", "\t"})
	case 1:
		return pick(r, []string{" ", "\n", "0", "+", "-", "\t"}) + d
	case 2:
		return d[:i] + d[i+1:]
	case 3:
		return d[:i] + pick(r, []string{" ", "-", ":", "0", "9", "T", "/", ",", "."}) + d[i+1:]
	case 4:
		return strings.ToLower(d)
	case 5:
		return strings.Replace(d, "T", " ", 1)
	case 6:
		return strings.Replace(d, ".", ",", 1)
	}
	return d[:len(d)-1]
}

func (g *G) recDate() interface{} {
	r := g.r
	if oneIn(r, 20) {
		return g.nearDate()
	}
	switch r.Intn(3) {
	case 0:
		return g.someDate()
	case 1:
		return g.someStamp()
	}
	t, err := time.Parse(time.RFC3339, g.someStamp())
	if err != nil {
		panic(err)
	}
	if oneIn(r, 2) {
		t = t.In(time.FixedZone("x", 3600*(r.Intn(20)-10)))
	}
	return t
}

// bothPatterns are regular expressions and patterns of LIKE.
var bothPatterns = []string{"a", "joe", "%", "_", "a%", "%o%", "j_e", ".", ".*", "a.b", "J%", "^joe$", "x*", "o", "[a]", "(a)", "%e$"}

// pattern is a LIKE pattern that is likely to match some word.
func (g *G) pattern() string {
	r := g.r
	if oneIn(r, 10) {
		// a text that is also used as a regular expression
		return pick(r, bothPatterns)
	}
	w := []rune(g.someWord())
	var out []rune
	for _, c := range w {
		switch r.Intn(6) {
		case 0:
			out = append(out, '_')
		case 1:
			out = append(out, '%')
		case 2:
			out = append(out, '%', c)
		default:
			out = append(out, c)
		}
	}
	if oneIn(r, 3) {
		out = append(out, '%')
	}
	if oneIn(r, 6) {
		out = append([]rune{'%'}, out...)
	}
	return string(out)
}

// regex is a regular expression that is likely to match some word.
func (g *G) regex(depth int) string {
	r := g.r
	if depth == 0 {
		switch r.Intn(6) {
		case 0:
			return "."
		case 1:
			return pick(r, []string{"[abc]", "[a-z]", "[^a]", "[A-Z0-9]", "[xyz]"})
		case 2:
			return pick(r, []string{`\.`, `\*`, `\(`, `\+`})
		}
		return pick(r, []string{"a", "b", "ab", "o", "J", "joe", "é", "1", "x", " "})
	}
	switch r.Intn(7) {
	case 0:
		return g.regex(depth-1) + pick(r, []string{"*", "+", "?"})
	case 1:
		return "(" + g.regex(depth-1) + "|" + g.regex(depth-1) + ")"
	case 2:
		return "^" + g.regex(depth-1)
	case 3:
		return g.regex(depth-1) + "$"
	case 4:
		return "(" + g.regex(depth-1) + ")" + pick(r, []string{"*", "+", "?"})
	case 5:
		if oneIn(r, 8) {
			return pick(r, []string{"(", "[a", "*", "a)", "+a", `a\`, "[z-a]"})
		}
	}
	return g.regex(depth-1) + g.regex(depth-1)
}

func (g *G) recStr() interface{} { return g.someWord() }

func (g *G) recArr(f func() interface{}) interface{} {
	n := g.r.Intn(5)
	if oneIn(g.r, 10) {
		n = bigSize(g.r, 40)
		if oneIn(g.r, 8) {
			n = bigSize(g.r, 400)
		}
	}
	a := make([]interface{}, n)
	for i := range a {
		a[i] = f()
	}
	return a
}

// record makes a record, the names of the fields tell nothing about the types.
func (g *G) record() *rec {
	r := g.r
	g.fresh()
	rc := &rec{vals: map[string]interface{}{}, by: map[string][]string{}}
	n := 0
	recNum := g.recNum
	if oneIn(r, 3) {
		// as JSON is read: all the numbers are float64
		recNum = func() interface{} {
			x := float64(g.someNum())
			if oneIn(r, 4) {
				x += .5
			}
			return x
		}
	}
	add := func(t string, v interface{}) {
		name := pick(r, []string{"f%d", "spec.f%d", "f%d[0]", "_f%d", "a[*].f%d", "F%d/x", "labels[f%d]"})
		name = fmt.Sprintf(name, n)
		n++
		if t != "missing" {
			rc.vals[name] = v
		}
		rc.by[t] = append(rc.by[t], name)
	}
	for i := 0; i < 3; i++ {
		add("num", recNum())
		add("str", g.recStr())
	}
	for i := 0; i < 2; i++ {
		add("date", g.recDate())
		add("bool", oneIn(r, 2))
		add("anum", g.recArr(recNum))
		add("astr", g.recArr(g.recStr))
	}
	add("null", nil)
	add("missing", nil)
	add("abool", g.recArr(func() interface{} { return oneIn(r, 2) }))
	add("adate", g.recArr(g.recDate))
	add("mixed", g.recArr(func() interface{} {
		switch r.Intn(8) {
		case 0:
			return nil
		case 1:
			return g.recDate()
		case 2:
			return g.recStr()
		case 3:
			return oneIn(r, 2)
		case 4:
			return g.recArr(recNum)
		}
		return recNum()
	}))
	add("opaque", pick(r, []interface{}{map[string]interface{}{"a": 1}, map[string]interface{}{"a": 1}, []string{"a"}, []int{1}, struct{ X int }{1}, []byte("a"), complex(1, 2), map[string]interface{}{"b": []interface{}{1}}}))
	return rc
}

func (g *G) field(rc *rec, t string) *E { return ident(pick(g.r, rc.by[t])) }

// lit spells a number literal.
func (g *G) smallNum() *E {
	r := g.r
	if len(g.nums) > 0 && oneIn(r, 4) {
		return num(pick(r, g.nums))
	}
	switch r.Intn(8) {
	case 0:
		f := float64(g.someNum()) + pick(r, []float64{.5, .25, .1, .75})
		return num(f)
	case 1:
		t := pick(r, []string{"1k", "1Ki", "2Mi", "0.5", "1e2", "100", "4.0", "2.5e-1", "1.5k"})
		return &E{K: "num", Num: numValue(t), Text: t}
	}
	return num(float64(g.someNum()))
}

// typed generates an expression of a type, an operand of another type is rare.
func (g *G) typed(rc *rec, t string, depth int) *E {
	r := g.r
	if oneIn(r, 60) {
		t = pick(r, []string{"num", "str", "date", "bool", "anum", "astr", "abool", "adate", "mixed", "null", "missing", "opaque"})
	}
	switch t {
	case "num":
		if depth <= 0 || oneIn(r, 4) {
			if oneIn(r, 2) {
				return g.smallNum()
			}
			return g.field(rc, "num")
		}
		switch r.Intn(9) {
		case 0:
			return un("neg", g.typed(rc, "num", depth-1))
		case 1:
			return un("sum", g.typed(rc, "anum", depth-1))
		case 2:
			return un("len", g.typed(rc, pick(r, []string{"anum", "astr", "abool", "adate", "mixed"}), depth-1))
		}
		return bin(pick(r, []string{"+", "-", "*", "/", "%"}), g.typed(rc, "num", depth-1), g.typed(rc, "num", depth-1))
	case "str":
		if oneIn(r, 2) {
			return strLiteral(g.someWord())
		}
		return g.field(rc, "str")
	case "date":
		switch r.Intn(5) {
		case 0:
			return date(g.someDate())
		case 1:
			return ts(g.someStamp())
		case 2:
			// the text of a date
			switch r.Intn(6) {
			case 0:
				return strLiteral(g.nearDate())
			case 1, 2:
				return strLiteral(g.someStamp())
			}
			return strLiteral(g.someDate())
		}
		return g.field(rc, "date")
	case "null", "missing", "opaque":
		if t == "missing" && r.Intn(4) > 0 {
			t = "null"
		}
		return g.field(rc, t)
	case "mixed":
		return g.field(rc, t)
	case "anum", "astr", "adate", "abool":
		switch {
		case t == "anum" && depth > 0 && oneIn(r, 2):
			if oneIn(r, 5) {
				return un("neg", g.typed(rc, "anum", depth-1))
			}
			return bin(pick(r, []string{"+", "-", "*", "/", "%"}), g.typed(rc, "anum", depth-1), g.typed(rc, "num", depth-1))
		case t == "abool" && depth > 0 && r.Intn(4) > 0:
			if oneIn(r, 5) {
				return un("not", g.typed(rc, "abool", depth-1))
			}
			if oneIn(r, 6) {
				return bin(pick(r, []string{"and", "or"}), g.typed(rc, "abool", depth-1), g.typed(rc, "bool", depth-1))
			}
			return g.condition(rc, pick(r, []string{"anum", "astr", "adate"}), depth-1)
		case oneIn(r, 3):
			a := arr()
			n := listLen(r, 5)
			if n > 10 {
				depth = 0
			}
			for ; n > 0; n-- {
				a.A = append(a.A, g.typed(rc, t[1:], depth-1))
			}
			return a
		}
		return g.field(rc, t)
	case "bool":
		if depth > 2 && oneIn(r, 60) {
			return tower(r, 200, func() *E { return g.typed(rc, t, r.Intn(2)) }, []string{"and", "or"}, []string{"not"})
		}
		if depth <= 0 {
			if oneIn(r, 3) {
				return boolean(oneIn(r, 2))
			}
			return g.field(rc, "bool")
		}
		switch r.Intn(12) {
		case 0:
			return un("not", g.typed(rc, "bool", depth-1))
		case 1, 2, 3:
			return bin("and", g.typed(rc, "bool", depth-1), g.typed(rc, "bool", depth-1))
		case 4, 5:
			return bin("or", g.typed(rc, "bool", depth-1), g.typed(rc, "bool", depth-1))
		case 6:
			return un(pick(r, []string{"any", "all"}), g.typed(rc, "abool", depth-1))
		case 7:
			return g.condition(rc, pick(r, []string{"bool", "null", "mixed", "opaque"}), depth-1)
		}
		return g.condition(rc, pick(r, []string{"num", "num", "num", "str", "str", "date", "date"}), depth-1)
	}
	panic(t)
}

// condition compares a value of a type.
func (g *G) condition(rc *rec, t string, depth int) *E {
	r := g.r
	l := g.typed(rc, t, depth)
	s := t
	if t[0] == 'a' {
		s = t[1:]
	}
	neg := func(e *E) *E {
		if oneIn(r, 3) {
			return un("not", e)
		}
		return e
	}
	other := func() *E {
		if oneIn(r, 12) {
			return g.typed(rc, "null", depth)
		}
		return g.typed(rc, s, depth-1)
	}
	if t == "null" || t == "mixed" || t == "opaque" {
		s = pick(r, []string{"num", "str", "date", "bool", "null"})
		if t == "opaque" && oneIn(r, 2) {
			s = "opaque"
		}
	}
	var ops []string
	switch s {
	case "num", "date":
		ops = []string{"=", "!=", "<", "<=", ">", ">=", "in", "between", "is"}
	case "str":
		ops = []string{"=", "!=", "like", "ilike", "~=", "~!", "in", "is", "like", "~="}
	default:
		ops = []string{"=", "!=", "in", "is"}
	}
	switch op := pick(r, ops); op {
	case "is":
		return neg(bin("is", l, null()))
	case "in":
		if oneIn(r, 4) && (s == "num" || s == "str" || s == "date" || s == "bool") {
			return neg(bin("in", l, g.field(rc, pick(r, []string{"a" + s, "mixed"}))))
		}
		a := arr()
		n := listLen(r, 6)
		if n > 10 {
			depth = 0
		}
		for ; n > 0; n-- {
			a.A = append(a.A, other())
		}
		return neg(bin("in", l, a))
	case "between":
		return neg(bin("between", l, arr(g.typed(rc, s, depth-1), g.typed(rc, s, depth-1))))
	case "like", "ilike":
		p := g.pattern()
		return neg(bin(op, l, strLiteral(p)))
	case "~=", "~!":
		if oneIn(r, 8) {
			return bin(op, l, other())
		}
		if oneIn(r, 6) {
			return bin(op, l, strLiteral(pick(r, bothPatterns)))
		}
		return bin(op, l, strLiteral(g.regex(r.Intn(4))))
	default:
		return bin(op, l, other())
	}
}

// wild generates an expression of any operators on operands of any types.
func (g *G) wild(rc *rec, depth int) *E {
	r := g.r
	if depth <= 0 || oneIn(r, 8) {
		return g.typed(rc, pick(r, []string{"num", "str", "date", "bool", "anum", "astr", "abool", "adate", "mixed", "null", "missing", "opaque", "num", "str", "bool"}), 0)
	}
	sub := func() *E { return g.wild(rc, depth-1-r.Intn(2)) }
	if oneIn(r, 5) {
		return un(pick(r, []string{"not", "neg", "len", "sum", "any", "all"}), sub())
	}
	switch op := pick(r, binOps); op {
	case "is":
		return bin("is", sub(), null())
	case "between":
		return bin("between", sub(), arr(sub(), sub()))
	case "in":
		if oneIn(r, 2) {
			return bin("in", sub(), arr(sub(), sub()))
		}
		return bin("in", sub(), sub())
	default:
		return bin(op, sub(), sub())
	}
}
