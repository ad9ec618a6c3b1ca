//go:build go1.21

package main

import (
	"math"
	"strconv"
	"strings"
	"time"
)

// An independent recognizer of the language: a longest match scanner and a
// recursive descent parser.

type tok struct {
	t string // "id" "num" "str" "date" "ts" "kw" "op"
	v string
}

func isDigit(r rune) bool { return r >= '0' && r <= '9' }
func isWord(r rune) bool  { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' }

var keywords = map[string]bool{"like": true, "ilike": true, "and": true, "or": true, "between": true, "in": true, "is": true, "null": true, "not": true}

// shape matches digits (d) and characters, it returns the end or -1.
func shape(s []rune, i int, p string) int {
	for _, c := range p {
		if i >= len(s) || c == 'd' && !isDigit(s[i]) || c != 'd' && s[i] != c {
			return -1
		}
		i++
	}
	return i
}

func digits(s []rune, i int) int {
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	return i
}

// quotedEnd is the end of a text in quotes, where two quotes are one, or -1.
func quotedEnd(s []rune, i int) int {
	q := s[i]
	for i++; i < len(s); i++ {
		if s[i] != q {
			continue
		}
		if i+1 < len(s) && s[i+1] == q {
			// it may also end here, but then the second quote opens a text that
			// is not closed
			i++
			continue
		}
		return i + 1
	}
	return -1
}

func numberEnd(s []rune, i int) int {
	exp := func(e int) int {
		if e < len(s) && (s[e] == 'e' || s[e] == 'E') {
			x := e + 1
			if x < len(s) && (s[x] == '+' || s[x] == '-') {
				x++
			}
			if y := digits(s, x); y > x {
				return y
			}
		}
		return e
	}
	if s[i] == '.' {
		e := digits(s, i+1)
		if e == i+1 {
			return -1
		}
		return exp(e)
	}
	e := digits(s, i)
	if e == i {
		return -1
	}
	if V == 5 && e < len(s) && strings.ContainsRune("KMGTP", s[e]) {
		if e+1 < len(s) && s[e+1] == 'i' {
			return e + 2
		}
		return e + 1
	}
	if e < len(s) && s[e] == '.' {
		e = digits(s, e+1)
	}
	return exp(e)
}

// badTokens are tokens no rule of the grammar has.
func timeEnd(s []rune, i int) int {
	e := shape(s, i, "dd:dd:dd")
	if e >= 0 && e < len(s) && s[e] == '.' {
		if x := digits(s, e+1); x > e+1 {
			return x
		}
	}
	return e
}

func tsEnd(s []rune, i int) int {
	e := shape(s, i, "dddd-dd-ddT")
	if e < 0 {
		return -1
	}
	try := func(e int) int {
		if e < 0 || e >= len(s) {
			return -1
		}
		if s[e] == 'Z' {
			return e + 1
		}
		if x := shape(s, e, "+dd:dd"); x >= 0 {
			return x
		}
		return shape(s, e, "-dd:dd")
	}
	return try(timeEnd(s, e))
}

func scan(s []rune) (out []tok, ok bool) {
	for i := 0; i < len(s); {
		c := s[i]
		end, t := -1, ""
		max := func(e int, k string) {
			if e > end {
				end, t = e, k
			}
		}
		switch {
		case c == ' ' || c == '\v' || c == '\t' || c == '\r' || c == '\n':
			i++
			continue
		case isWord(c):
			e := i + 1
			for e < len(s) && (isWord(s[e]) || isDigit(s[e]) || V == 5 && (s[e] == '.' || s[e] == '/')) {
				e++
			}
			w := strings.ToLower(string(s[i:e]))
			if keywords[w] || V == 5 && (w == "true" || w == "false") {
				out = append(out, tok{"kw", w})
			} else {
				out = append(out, tok{"id", string(s[i:e])})
			}
			i = e
			continue
		case c == '"' || c == '`':
			max(quotedEnd(s, i), "id")
		case c == '[':
			for e := i; e < len(s); e++ {
				if s[e] == ']' {
					max(e+1, "id")
					break
				}
			}
		case c == '\'':
			max(quotedEnd(s, i), "str")
		case isDigit(c) || c == '.':
			max(numberEnd(s, i), "num")
			if V == 5 && c != '.' {
				max(shape(s, i, "dddd-dd-dd"), "date")
				max(timeEnd(s, i), "bad")
				max(tsEnd(s, i), "ts")
			}
			if V == 4 && c == '.' {
				max(i+1, "op")
			}
		}
		if end < 0 || c == '+' || c == '-' {
			for _, op := range []string{"(", ")", ",", "<=", ">=", "<>", "!=", "<", ">", "=", "~=", "~!", "*", "/", "%", "+", "-"} {
				if strings.HasPrefix(string(s[i:min(len(s), i+2)]), op) {
					max(i+len(op), "op")
					break
				}
			}
			if V == 5 && (c == '+' || c == '-') {
				max(shape(s, i+1, "dd:dd"), "bad")
			}
		}
		if end < 0 || t == "bad" {
			return nil, false
		}
		out = append(out, tok{t, string(s[i:end])})
		i = end
	}
	return out, true
}

type recP struct {
	t    []tok
	i    int
	memo map[int]recM
	bad  bool // a literal that is not valid, or of the wrong type
}

type recM struct {
	e   *E
	end int
}

func (p *recP) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{}
}

func (p *recP) op(v string) bool {
	if x := p.peek(); x.t == "op" && x.v == v {
		p.i++
		return true
	}
	return false
}

func (p *recP) kw(v string) bool {
	if x := p.peek(); x.t == "kw" && x.v == v {
		p.i++
		return true
	}
	return false
}

// recognize returns the tree of a phrase, or nil if the text is not a phrase.
func recognize(text string) *E {
	t, ok := scan([]rune(text))
	if !ok {
		return nil
	}
	p := &recP{t: t, memo: map[int]recM{}}
	e := p.or()
	if e == nil || p.i != len(t) || p.bad {
		return nil
	}
	return e
}

func (p *recP) or() *E {
	l := p.and()
	for l != nil && p.kw("or") {
		r := p.and()
		if r == nil {
			return nil
		}
		l = bin("or", l, r)
	}
	return l
}

func (p *recP) and() *E {
	l := p.not()
	for l != nil && p.kw("and") {
		r := p.not()
		if r == nil {
			return nil
		}
		l = bin("and", l, r)
	}
	return l
}

func (p *recP) not() *E {
	if p.kw("not") {
		r := p.not()
		if r == nil {
			return nil
		}
		return un("not", r)
	}
	at := p.i
	if l := p.math(false); l != nil {
		if e := p.cmp(l); e != nil {
			return e
		}
	}
	p.i = at
	if p.op("(") {
		e := p.or()
		if e != nil && p.op(")") {
			return e
		}
	}
	p.i = at
	return nil
}

// lit is a literal, a number may have a sign.
func (p *recP) lit() *E {
	at := p.i
	sign := ""
	if p.op("-") {
		sign = "-"
	} else if p.op("+") {
		sign = "+"
	}
	x := p.peek()
	p.i++
	switch x.t {
	case "num":
		mul := 1.0
		v := x.v
		v = strings.TrimSuffix(v, "i")
		if k := strings.IndexByte("KMGTP", v[len(v)-1]); k >= 0 {
			mul = math.Pow(2, float64(10*(k+1)))
			v = v[:len(v)-1]
		}
		f, err := strconv.ParseFloat(sign+v, 64)
		if err != nil {
			p.bad = true
		}
		return num(f * mul)
	case "str":
		if sign == "" {
			return str(strings.ReplaceAll(x.v[1:len(x.v)-1], "''", "'"))
		}
	case "date", "ts":
		if sign == "" {
			v := x.v
			if x.t == "date" {
				v += "T00:00:00Z"
			}
			if _, err := time.Parse(time.RFC3339, v); err != nil {
				p.bad = true
			}
			return ts(v)
		}
	case "kw":
		if sign == "" && V == 5 && (x.v == "true" || x.v == "false") {
			return boolean(x.v == "true")
		}
	}
	p.i = at
	return nil
}

// column is a name, v4 has up to three parts.
func (p *recP) column() *E {
	x := p.peek()
	if x.t != "id" {
		return nil
	}
	p.i++
	if V == 5 {
		v := x.v
		if strings.IndexByte("\"`[", v[0]) >= 0 {
			v = v[1 : len(v)-1]
		}
		return ident(v)
	}
	name := x.v
	for n := 1; n < 3; n++ {
		at := p.i
		if !p.op(".") {
			break
		}
		if y := p.peek(); y.t == "id" {
			p.i++
			name += "." + y.v
			continue
		}
		p.i = at
		break
	}
	return ident(name)
}

// operand is a column, a math expression in parentheses, or a literal.
func (p *recP) operand(lit bool) *E {
	at := p.i
	if lit {
		if e := p.lit(); e != nil {
			return e
		}
	}
	if e := p.column(); e != nil {
		return e
	}
	if p.op("(") {
		if m, ok := p.memo[at]; ok {
			if m.e != nil {
				p.i = m.end
			} else {
				p.i = at
			}
			return m.e
		}
		e := p.math(false)
		if e != nil && !p.op(")") {
			e = nil
		}
		p.memo[at] = recM{e, p.i}
		if e != nil {
			return e
		}
	}
	p.i = at
	return nil
}

// math is a chain of operands, the first is not a literal.
func (p *recP) math(lit bool) *E {
	l := p.term(lit)
	for l != nil {
		at := p.i
		x := p.peek()
		if !(p.op("+") || p.op("-")) {
			break
		}
		r := p.term(true)
		if r == nil {
			p.i = at
			break
		}
		l = p.mathOp(x.v, l, r)
	}
	return l
}

func (p *recP) term(lit bool) *E {
	l := p.operand(lit)
	for l != nil {
		at := p.i
		x := p.peek()
		if !(p.op("*") || p.op("/") || p.op("%")) {
			break
		}
		r := p.operand(true)
		if r == nil {
			p.i = at
			break
		}
		l = p.mathOp(x.v, l, r)
	}
	return l
}

func (p *recP) mathOp(op string, l, r *E) *E {
	if l.K == "str" || r.K == "str" {
		p.bad = true
	}
	return bin(op, l, r)
}

func (p *recP) cmp(l *E) *E {
	x := p.peek()
	if x.t == "op" {
		p.i++
		switch x.v {
		case "<", "<=", ">", ">=", "=", "!=", "<>":
			op := x.v
			if op == "<>" {
				op = "!="
			}
			if r := p.right(); r != nil {
				return bin(op, l, r)
			}
		case "~=", "~!":
			if r := p.right(); r != nil {
				if r.K != "str" && !(V == 5 && r.K == "ident") {
					p.bad = true
				}
				return bin(x.v, l, r)
			}
		}
		return nil
	}
	if p.kw("is") {
		not := p.kw("not")
		if p.kw("null") {
			if not {
				return un("notnull", l)
			}
			return un("isnull", l)
		}
		r := p.lit()
		if r == nil {
			return nil
		}
		if not {
			return bin("!=", l, r)
		}
		return bin("=", l, r)
	}
	not := p.kw("not")
	switch {
	case p.kw("like"), p.kw("ilike"):
		op := p.t[p.i-1].v
		r := p.lit()
		if r == nil {
			return nil
		}
		if r.K != "str" {
			p.bad = true
		}
		e := bin(op, l, r)
		if not {
			e = un("not", e)
		}
		return e
	case p.kw("between"):
		a := p.lit()
		if a == nil || !p.kw("and") {
			return nil
		}
		b := p.lit()
		if b == nil {
			return nil
		}
		op := "between"
		if not {
			op = "nbetween"
		}
		return bin(op, l, arr(a, b))
	case p.kw("in"):
		if !p.op("(") {
			return nil
		}
		a := arr()
		if !p.op(")") {
			for {
				e := p.lit()
				if e == nil {
					return nil
				}
				a.A = append(a.A, e)
				if p.op(")") {
					break
				}
				if !p.op(",") {
					return nil
				}
			}
		}
		op := "in"
		if not {
			op = "nin"
		}
		return bin(op, l, a)
	}
	return nil
}

// right is the right side of a comparison.
func (p *recP) right() *E {
	if e := p.lit(); e != nil {
		return e
	}
	if V == 5 {
		return p.math(false)
	}
	return nil
}
