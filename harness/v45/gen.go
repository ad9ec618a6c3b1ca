//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

// G makes trees of the model and their phrases.
type G struct {
	last *E
	r    *rand.Rand
	// idents are the names to use, all kinds if there are none.
	idents []string
	// plain is for phrases without strange spelling.
	plain bool
}

func newG(r *rand.Rand) *G { return &G{r: r} }

var identPool = []string{"a", "b", "c", "name", "spec.pages", "db.tbl.col", "_x", "A", "Zz_9", "a1", "k8", "android", "orx", "inn", "nott", "istrue", "nullx", "likely", "e5", "K", "Ki", "x_y.z_1", "T", "z"}

var strPool = []string{"", "a", "joe", "it's", "'", "''", "100%", "a_b", "\"q\"", "back\\slash", "line\nbreak", "end\n", "line\nend\n\n", "\n", "tab\t", "é", "日本", "🙂", "null", "true", "2020-01-01", "2020-01-01T00:00:00Z", "and", " x ", "; DROP TABLE t; --", "' OR '1'='1", "?", "a?b", "%", "_", "(", ")", "[x]", "`", "{}|<>", "12", "1e3", "\r\n", "a\\nb", "$gt", "-- x", "/* x */", "\x01", "\u2028", "\x7f"}

var strRunes = []rune("aAbz019 _%'\"\\`.,;:?!()[]{}<>|/*-+=~#&^$@\n\r\té日🙂\u00a0\x00\x1b")

func (g *G) str() *E {
	if oneIn(g.r, 120) {
		// a long text whose end matters
		s := strings.Repeat(pick(g.r, []string{"x", "ab ", "é", "日", "%", "'"}), bigSize(g.r, 1100))
		return str(s + pick(g.r, []string{"", "y", "'", "%", "_z"}))
	}
	if oneIn(g.r, 2) {
		return str(pick(g.r, strPool))
	}
	var b strings.Builder
	for n := g.r.Intn(9); n > 0; n-- {
		b.WriteRune(pick(g.r, strRunes))
	}
	return str(b.String())
}

// quoted identifiers have any character but their quote
func (g *G) ident() *E {
	if len(g.idents) > 0 {
		return ident(pick(g.r, g.idents))
	}
	if !g.plain && oneIn(g.r, 150) {
		return ident(pick(g.r, []string{"a", "_", "spec.", "x"}) + strings.Repeat(pick(g.r, []string{"x", "bc", "Y", "Z_"}), bigSize(g.r, 600)))
	}
	if !g.plain && oneIn(g.r, 8) {
		if V == 5 {
			return ident(pick(g.r, []string{"a b", "1a", "and", "x'y", "é", "", "a-b", "tbl name.col", "a/b", "x,y", "(x)", "NULL", "a?", "!", "'", "lab.[0]", "日本", " a", "a ", "  ", "\ta\n", " a b  "}))
		}
		return ident(pick(g.r, []string{"`a b`", "\"x'y\"", "[1 a]", "`and`", "[x].y", "a.\"b c\"", "[a]", "`é`.`日本`.z", "[]", "` a`", "[a ]", "\"  \""}))
	}
	if !g.plain && oneIn(g.r, 5) {
		const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
		b := []byte{first[g.r.Intn(len(first))]}
		for n := g.r.Intn(12); n > 0; n-- {
			b = append(b, (first + "0123456789__")[g.r.Intn(len(first)+12)])
		}
		if w := strings.ToLower(string(b)); !keywords[w] && w != "true" && w != "false" {
			return ident(string(b))
		}
	}
	return ident(pick(g.r, identPool))
}

func (g *G) num() *E {
	r := g.r
	if oneIn(r, 12) {
		switch r.Intn(3) {
		case 0:
			return num(float64(r.Int63() >> uint(r.Intn(63))))
		case 1:
			return num(math.Ldexp(r.Float64(), r.Intn(200)-100))
		}
		// any number of digits
		e := num(0)
		e.Text = strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10) + "." + strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10) + pick(r, []string{"", "", "e5", "E-7", "e+12"})
		e.Num, _ = strconv.ParseFloat(e.Text, 64)
		return e
	}
	switch r.Intn(10) {
	case 0:
		return num(float64(r.Intn(3)))
	case 1:
		return num(float64(r.Int63n(1 << 53)))
	case 2:
		return num(-float64(r.Intn(1000)))
	case 3:
		return num(math.Float64frombits(uint64(r.Int63n(0x7fe0000000000000))))
	case 4:
		return num(float64(r.Intn(100000)) / 1000)
	case 5:
		if V == 5 {
			s := pick(r, []string{"K", "M", "G", "T", "P"})
			k := r.Int63n(2000)
			if oneIn(r, 3) {
				k = r.Int63() >> uint(r.Intn(63))
			}
			e := num(float64(k) * math.Pow(1024, float64(strings.Index("KMGTP", s)+1)))
			e.Text = fmt.Sprint(k) + s + pick(r, []string{"", "i"})
			return e
		}
	case 6:
		e := pick(r, []struct {
			t string
			v float64
		}{{"1.", 1}, {".5", .5}, {"007", 7}, {"1e3", 1000}, {"1E-2", .01}, {"2.5e+3", 2500}, {".5E1", 5}, {"0.1", .1}, {"1e400", math.Inf(1)}, {"5e-324", 5e-324}, {"1.7976931348623157e308", math.MaxFloat64}, {"00.10", .1}, {"1.e2", 100}, {"9007199254740993", 9007199254740992}, {"0.1e-400", 0}})
		if math.IsInf(e.v, 0) {
			break
		}
		n := num(e.v)
		n.Text = e.t
		return n
	}
	return num(float64(r.Intn(300) - 50))
}

func (g *G) date() *E {
	r := g.r
	y, m := 1900+r.Intn(200), 1+r.Intn(12)
	if oneIn(r, 10) {
		y = pick(r, []int{0, 1, 1969, 1970, 9999, 2000, r.Intn(10000)})
	}
	if oneIn(r, 10) {
		y, m = pick(r, []int{1900, 2000, 2020, 2024, 2023, 2400}), 2
	}
	d := 1 + r.Intn(time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day())
	if oneIn(r, 2) {
		day := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
		e := ts(day + "T00:00:00Z")
		e.Text = day
		return e
	}
	t := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, r.Intn(24), r.Intn(60), r.Intn(60))
	if oneIn(r, 3) {
		t += pick(r, []string{"." + strconv.Itoa(r.Intn(1000000000)), fmt.Sprintf(".%0*d", 1+r.Intn(9), r.Intn(10)), fmt.Sprintf(".%09d", r.Intn(1000000000))})
	}
	if oneIn(r, 2) || y < 1 || y > 9998 {
		t += "Z" // an offset could leave the years 0 to 9999
	} else {
		t += fmt.Sprintf("%s%02d:%02d", pick(r, []string{"+", "-"}), r.Intn(24), r.Intn(60))
	}
	e := ts(t)
	return e
}

func (g *G) lit() *E {
	if V == 4 {
		if oneIn(g.r, 2) {
			return g.str()
		}
		return g.num()
	}
	switch g.r.Intn(5) {
	case 0, 1:
		return g.str()
	case 2:
		return boolean(oneIn(g.r, 2))
	case 3:
		return g.date()
	}
	return g.num()
}

// mathLit is a literal that is an operand of a math operator.
func (g *G) mathLit() *E {
	if V == 5 && oneIn(g.r, 12) {
		if oneIn(g.r, 2) {
			return g.date()
		}
		return boolean(oneIn(g.r, 2))
	}
	return g.num()
}

var mulOps = []string{"*", "/", "%"}
var addOps = []string{"+", "-"}

func isMath(op string) bool { return len(op) == 1 && strings.Contains("+-*/%", op) }

func prec(op string) int {
	if op == "+" || op == "-" {
		return 1
	}
	return 2
}

// math is a math expression that starts with a column.
func (g *G) math(depth int) *E {
	if depth <= 0 || oneIn(g.r, 3) {
		return g.ident()
	}
	ops := append(append([]string{}, mulOps...), addOps...)
	if oneIn(g.r, 200) {
		e := g.ident()
		for n := bigSize(g.r, 64); n > 0; n-- {
			e = bin(pick(g.r, ops), e, g.mathLit())
		}
		return e
	}
	op := pick(g.r, ops)
	l := g.math(depth - 1)
	var r *E
	switch x := g.r.Intn(6); {
	case x < 2:
		r = g.mathLit()
	case x == 2 && prec(op) == 1:
		// a product that starts with a literal
		r = bin(pick(g.r, mulOps), g.mathLit(), g.operand(depth-2))
		for oneIn(g.r, 3) {
			r = bin(pick(g.r, mulOps), r, g.operand(depth-3))
		}
	default:
		r = g.math(depth - 1)
	}
	return bin(op, l, r)
}

func (g *G) operand(depth int) *E {
	if oneIn(g.r, 2) {
		return g.mathLit()
	}
	return g.math(depth)
}

var cmpOps = []string{"=", "!=", "<", "<=", ">", ">="}

// leaf is a condition without AND, OR and NOT.
func (g *G) leaf(depth int) *E {
	r := g.r
	var l *E
	if oneIn(r, 3) {
		l = g.math(depth)
	} else {
		l = g.ident()
	}
	switch r.Intn(10) {
	case 0:
		return un(pick(r, []string{"isnull", "notnull"}), l)
	case 1, 2:
		a := arr()
		for n := listLen(r, 5); n > 0; n-- {
			a.A = append(a.A, g.lit())
		}
		return bin(pick(r, []string{"in", "nin"}), l, a)
	case 3:
		return bin(pick(r, []string{"between", "nbetween"}), l, arr(g.lit(), g.lit()))
	case 4:
		e := bin(pick(r, []string{"like", "ilike"}), l, g.str())
		return e
	case 5:
		if V == 5 && oneIn(r, 3) {
			return bin(pick(r, []string{"~=", "~!"}), l, g.ident())
		}
		return bin(pick(r, []string{"~=", "~!"}), l, g.str())
	}
	if V == 5 && oneIn(r, 3) {
		return bin(pick(r, cmpOps), l, g.math(depth))
	}
	return bin(pick(r, cmpOps), l, g.lit())
}

func (g *G) cond(depth int) *E {
	if depth <= 0 || oneIn(g.r, 4) {
		return g.leaf(g.r.Intn(3))
	}
	if oneIn(g.r, 200) {
		return tower(g.r, 100, func() *E { return g.leaf(0) }, pick(g.r, [][]string{{"and", "or"}, {"and"}, {"or"}}), []string{"not"})
	}
	switch g.r.Intn(5) {
	case 0:
		return un("not", g.cond(depth-1))
	case 1, 2:
		return bin("and", g.cond(depth-1), g.cond(depth-1))
	}
	return bin("or", g.cond(depth-1), g.cond(depth-1))
}

// ------------------------------------------------------------- the phrase

type printer struct {
	g *G
	t []string
}

func (p *printer) tok(s ...string) { p.t = append(p.t, s...) }

func (p *printer) kw(s string) {
	if p.g.plain {
		p.tok(s)
		return
	}
	switch p.g.r.Intn(4) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if oneIn(p.g.r, 2) {
				b[i] -= 'a' - 'A'
			}
		}
		s = string(b)
	}
	p.tok(s)
}

func isPlainIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
		case i > 0 && (c >= '0' && c <= '9' || c == '.' || V == 5 && c == '/'):
		default:
			return false
		}
	}
	switch strings.ToLower(s) {
	case "like", "ilike", "and", "or", "between", "in", "is", "null", "not", "":
		return false
	case "true", "false":
		return V == 4
	}
	return true
}

func (p *printer) ident(s string) {
	if V == 4 {
		p.tok(s)
		return
	}
	var q []string
	if isPlainIdent(s) && !(strings.Contains(s, "/") && false) {
		q = append(q, s, s, s)
	}
	if !p.g.plain || len(q) == 0 {
		if !strings.Contains(s, "\"") {
			q = append(q, "\""+s+"\"")
		}
		if !strings.Contains(s, "`") {
			q = append(q, "`"+s+"`")
		}
		if !strings.Contains(s, "]") {
			q = append(q, "["+s+"]")
		}
	}
	p.tok(pick(p.g.r, q))
}

func (p *printer) lit(e *E) {
	r := p.g.r
	switch e.K {
	case "str":
		p.tok("'" + strings.ReplaceAll(e.S, "'", "''") + "'")
	case "bool":
		if e.B {
			p.kw("true")
		} else {
			p.kw("false")
		}
	case "ts":
		if e.Text != "" {
			p.tok(e.Text)
		} else {
			p.tok(e.S)
		}
	case "num":
		t := e.Text
		neg := math.Signbit(e.Num)
		if t == "" {
			f := math.Abs(e.Num)
			t = strconv.FormatFloat(f, 'g', -1, 64)
			if !p.g.plain {
				switch r.Intn(5) {
				case 0:
					t = strconv.FormatFloat(f, 'f', -1, 64)
				case 1:
					t = strconv.FormatFloat(f, 'e', -1, 64)
				case 2:
					t = strconv.FormatFloat(f, 'E', -1, 64)
				case 3:
					t = strings.TrimPrefix(t, "0.")
					if len(t) != len(strconv.FormatFloat(f, 'g', -1, 64)) {
						t = "." + t
					}
				}
			}
			if V == 4 && false {
				t = strings.ToLower(t)
			}
		}
		switch {
		case neg:
			p.tok("-", t)
		case !p.g.plain && oneIn(r, 8):
			p.tok("+", t)
		default:
			p.tok(t)
		}
	default:
		panic("not a literal: " + e.dump())
	}
}

func isLit(e *E) bool { return e.K == "num" || e.K == "str" || e.K == "bool" || e.K == "ts" }

func startsWithLit(e *E) bool {
	for e.K == "bin" && isMath(e.Op) {
		e = e.L
	}
	return isLit(e)
}

// math writes a math expression, outer is the precedence around it.
func (p *printer) math(e *E, need bool) {
	switch {
	case e.K == "ident":
		if need || !p.g.plain && oneIn(p.g.r, 12) {
			p.tok("(")
			p.math(e, false)
			p.tok(")")
			return
		}
		p.ident(e.S)
	case isLit(e):
		p.lit(e)
	default:
		par := need || !p.g.plain && !startsWithLit(e) && oneIn(p.g.r, 10)
		if par {
			p.tok("(")
		}
		p.math(e.L, e.L.K == "bin" && prec(e.L.Op) < prec(e.Op))
		p.tok(e.Op)
		p.math(e.R, e.R.K == "bin" && prec(e.R.Op) <= prec(e.Op))
		if par {
			p.tok(")")
		}
	}
}

// cond writes a condition, level is the lowest operator that needs no parentheses: 0 or, 1 and, 2 not.
func (p *printer) cond(e *E, level int) {
	mine := 2
	if e.K == "bin" && e.Op == "or" {
		mine = 0
	} else if e.K == "bin" && e.Op == "and" {
		mine = 1
	}
	par := mine < level || !p.g.plain && oneIn(p.g.r, 10)
	if par {
		p.tok("(")
		level = 0
	}
	switch {
	case mine < 2:
		p.cond(e.L, mine)
		p.kw(e.Op)
		p.cond(e.R, mine+1)
	case e.K == "un" && e.Op == "not":
		if x := e.R; x.K == "bin" && (x.Op == "like" || x.Op == "ilike") && oneIn(p.g.r, 2) {
			p.math(x.L, false)
			p.kw("not")
			p.kw(x.Op)
			p.lit(x.R)
			break
		}
		p.kw("not")
		p.cond(e.R, 2)
	case e.K == "un":
		p.math(e.R, false)
		p.kw("is")
		if e.Op == "notnull" {
			p.kw("not")
		}
		p.kw("null")
	default:
		p.math(e.L, false)
		op := e.Op
		switch op {
		case "in", "nin", "between", "nbetween":
			if op[0] == 'n' {
				p.kw("not")
				op = op[1:]
			}
			p.kw(op)
			if op == "in" {
				p.tok("(")
				for i, a := range e.R.A {
					if i > 0 {
						p.tok(",")
					}
					p.lit(a)
				}
				p.tok(")")
			} else {
				p.lit(e.R.A[0])
				p.kw("and")
				p.lit(e.R.A[1])
			}
		case "like", "ilike":
			p.kw(op)
			p.lit(e.R)
		case "=", "!=":
			if isLit(e.R) && !p.g.plain && oneIn(p.g.r, 4) {
				p.kw("is")
				if op == "!=" {
					p.kw("not")
				}
				p.lit(e.R)
				break
			}
			if op == "!=" && oneIn(p.g.r, 2) {
				op = "<>"
			}
			fallthrough
		default:
			p.tok(op)
			if isLit(e.R) {
				p.lit(e.R)
			} else {
				p.math(e.R, false)
			}
		}
	}
	if par {
		p.tok(")")
	}
}

// glued tells whether two tokens need no space between them.
func glued(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	sym := func(c byte) bool { return strings.IndexByte("(),", c) >= 0 }
	if sym(x) || sym(y) {
		return true
	}
	ops := "<>=!~"
	if strings.IndexByte(ops, x) >= 0 && strings.IndexByte("'\"`[", y) >= 0 {
		return true
	}
	if strings.IndexByte(ops, y) >= 0 && strings.IndexByte("'\"`]", x) >= 0 {
		return true
	}
	word := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
	if strings.IndexByte(ops, x) >= 0 && word(y) || word(x) && strings.IndexByte(ops, y) >= 0 {
		return true
	}
	// a sign and a number
	return (a == "+" || a == "-") && y >= '0' && y <= '9' && len(b) < 3
}

func (g *G) join(t []string) string {
	var b strings.Builder
	spaces := []string{" ", " ", " ", "  ", "\t", "\n", "\r\n", "\v"}
	space := func() string {
		if g.plain || oneIn(g.r, 2) {
			return " "
		}
		return pick(g.r, spaces)
	}
	for i, s := range t {
		if i > 0 {
			switch {
			case g.plain && (t[i-1] == "(" || s == ")" || s == ","):
			case !g.plain && glued(t[i-1], s) && oneIn(g.r, 2):
			default:
				b.WriteString(space())
			}
		}
		b.WriteString(s)
	}
	if !g.plain && oneIn(g.r, 8) {
		return space() + b.String() + space()
	}
	return b.String()
}

func (g *G) phrase(e *E) string {
	p := &printer{g: g}
	p.cond(e, 0)
	return g.join(p.t)
}

func (g *G) phrasePlain(e *E) string {
	was := g.plain
	g.plain = true
	defer func() { g.plain = was }()
	return g.phrase(e)
}

// near is e, or sometimes an expression that is nearly the one before, or that
// one again: what is kept of one must not be taken for the other.
func (g *G) near(e *E) *E {
	if g.last != nil && oneIn(g.r, 16) && g.last.size() < 1000 {
		x := g.sibling(g.last)
		if oneIn(g.r, 4) {
			x = g.last.clone()
		}
		if x != nil {
			e = x
		}
	}
	g.last = e
	return e
}
