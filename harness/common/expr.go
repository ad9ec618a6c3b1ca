//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

// E is an expression of the reference model. Kinds: num str bool date ts ident
// null array un bin.
type E struct {
	K    string
	Op   string
	L, R *E
	A    []*E
	Num  float64
	S    string
	B    bool
	// Text overrides the spelling of a literal.
	Text string
}

func num(f float64) *E          { return &E{K: "num", Num: f} }
func str(s string) *E           { return &E{K: "str", S: s} }
func boolean(b bool) *E         { return &E{K: "bool", B: b} }
func ident(s string) *E         { return &E{K: "ident", S: s} }
func date(s string) *E          { return &E{K: "date", S: s} }
func ts(s string) *E            { return &E{K: "ts", S: s} }
func null() *E                  { return &E{K: "null"} }
func arr(a ...*E) *E            { return &E{K: "array", A: a} }
func un(op string, r *E) *E     { return &E{K: "un", Op: op, R: r} }
func bin(op string, l, r *E) *E { return &E{K: "bin", Op: op, L: l, R: r} }

func (e *E) clone() *E {
	if e == nil {
		return nil
	}
	n := *e
	n.L, n.R = e.L.clone(), e.R.clone()
	n.A = nil
	for _, a := range e.A {
		n.A = append(n.A, a.clone())
	}
	return &n
}

// tower is a tree of many levels, at most max: operators that are nested on
// the left, on the right, on both, or in one another.
func tower(r *rand.Rand, max int, leaf func() *E, bins, uns []string) *E {
	e, op, shape := leaf(), pick(r, bins), r.Intn(6)
	for n := bigSize(r, max); n > 0; n-- {
		if shape != 0 && oneIn(r, 8) || shape == 5 {
			op = pick(r, bins)
		}
		switch {
		case shape == 0 && len(uns) > 0 || shape > 3 && len(uns) > 0 && oneIn(r, 4):
			e = un(pick(r, uns), e)
		case shape == 1 || shape > 2 && oneIn(r, 2):
			e = bin(op, e, leaf())
		default:
			e = bin(op, leaf(), e)
		}
	}
	return e
}

func (e *E) size() int {
	if e == nil {
		return 0
	}
	n := 1 + e.L.size() + e.R.size()
	for _, a := range e.A {
		n += a.size()
	}
	return n
}

func (e *E) walk(f func(*E)) {
	if e == nil {
		return
	}
	f(e)
	e.L.walk(f)
	e.R.walk(f)
	for _, a := range e.A {
		a.walk(f)
	}
}

func numKey(f float64) string {
	if math.IsNaN(f) {
		return "nan"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// tsKey is the canonical spelling of a timestamp literal: the instant, if it is
// a valid one, or the text.
func tsKey(s string) string {
	if t, err := time.Parse(time.RFC3339, s); err == nil {
		return t.UTC().Format(time.RFC3339Nano)
	}
	return "raw:" + s
}

// dump writes the model in a canonical form.
func (e *E) dump() string {
	var b strings.Builder
	e.dumpTo(&b)
	return b.String()
}

func (e *E) dumpTo(b *strings.Builder) {
	switch e.K {
	case "num":
		b.WriteString("n:" + numKey(e.Num))
	case "str":
		b.WriteString("s:" + strconv.Quote(e.S))
	case "bool":
		fmt.Fprintf(b, "b:%v", e.B)
	case "date":
		b.WriteString("d:" + e.S)
	case "ts":
		b.WriteString("t:" + tsKey(e.S))
	case "ident":
		b.WriteString("i:" + e.S)
	case "null":
		b.WriteString("NULL")
	case "array":
		b.WriteString("[")
		for i, a := range e.A {
			if i > 0 {
				b.WriteString(" ")
			}
			a.dumpTo(b)
		}
		b.WriteString("]")
	case "un":
		b.WriteString("(" + e.Op + " ")
		e.R.dumpTo(b)
		b.WriteString(")")
	case "bin":
		b.WriteString("(" + e.Op + " ")
		e.L.dumpTo(b)
		b.WriteString(" ")
		e.R.dumpTo(b)
		b.WriteString(")")
	}
}

// opClasses are the operators that take operands of the same form.
var opClasses = [][]string{{"like", "ilike", "~=", "~!"}, {"=", "!=", "<", "<=", ">", ">="}, {"in", "nin"}, {"between", "nbetween"}, {"+", "-", "*", "/", "%"}, {"and", "or"}}

// sibling is a phrase that differs from e at one place only: it has another
// operator of the same form or a literal that is spelled nearly the same. It is
// used next to e, what is kept of one must not be taken for the other.
// The operators are those that known tells of. It is nil if there is no such place.
func sibling(r *rand.Rand, e *E, known func(op string) bool) *E {
	n := e.clone()
	var places []func()
	n.walk(func(x *E) {
		switch x.K {
		case "bin":
			for _, l := range opClasses {
				var other []string
				in := false
				for _, op := range l {
					if op == x.Op {
						in = true
					} else if known(op) && (l[0] != "like" || x.R.K == "str") {
						other = append(other, op)
					}
				}
				if in && len(other) > 0 {
					f := func() { x.Op = pick(r, other) }
					places = append(places, f)
					if x.Op == "like" || x.Op == "ilike" || x.Op == "~=" || x.Op == "~!" {
						places = append(places, f, f)
					}
				}
			}
		case "str":
			places = append(places, func() {
				switch r.Intn(4) {
				case 0:
					if up := strings.ToUpper(x.S); up != x.S {
						x.S = up
					} else {
						x.S = strings.ToLower(x.S)
					}
				case 1:
					x.S += " "
				case 2:
					x.S = " " + x.S
				default:
					x.S = strings.TrimRight(x.S, "x1%_")
				}
				x.Text = ""
			})
		case "num":
			places = append(places, func() {
				x.Num, x.Text = pick(r, []float64{-x.Num, x.Num + 1, x.Num / 2, math.Nextafter(x.Num, 1)}), ""
			})
		}
	})
	if len(places) == 0 {
		return nil
	}
	pick(r, places)()
	return n
}
