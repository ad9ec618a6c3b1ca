//go:build go1.21

package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

// G generates expressions and phrases.
type G struct {
	last   *E
	r      *rand.Rand
	idents []string

	// values of the record
	nums                 []float64
	words, dates, stamps []string
}

func newG(r *rand.Rand) *G {
	return &G{r: r, idents: []string{"a", "b", "c", "name", "city", "spec.pages", "spec.rating", "_x", "A1", "tags[0]", "tags[*]",
		"labels[app.io/my-key]", "pods[*].spec.containers[0].name", "a/b", "x.y.z_9", "notes", "inner", "android", "order", "is_on",
		"nullable", "truth", "length", "anyone", "allot", "summary", "likely", "d2020", "e5", "k", "Ki"}}
}

func (g *G) ident() string {
	if oneIn(g.r, 150) {
		return pick(g.r, []string{"a", "_", "spec.", "x/"}) + strings.Repeat(pick(g.r, []string{"x", "b.", "y[0]", "Z_"}), bigSize(g.r, 1100)) + pick(g.r, []string{"", "1", "q"})
	}
	if oneIn(g.r, 6) {
		const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
		const rest = first + "0123456789_./"
		b := []byte{first[g.r.Intn(len(first))]}
		for n := g.r.Intn(8); n > 0; n-- {
			if oneIn(g.r, 10) {
				b = append(b, pick(g.r, []string{"[*]", "[0]", "[12]", "[a-b]", "[x.y/z]", "[_]"})...)
				continue
			}
			b = append(b, rest[g.r.Intn(len(rest))])
		}
		if !keywords[strings.ToLower(string(b))] {
			return string(b)
		}
	}
	return pick(g.r, g.idents)
}

func (g *G) numText() string {
	r := g.r
	var s string
	switch r.Intn(8) {
	case 0, 1:
		s = strconv.Itoa(r.Intn(20))
	case 2:
		s = strconv.Itoa(r.Intn(1000000))
	case 3:
		s = fmt.Sprintf("%d.%0*d", r.Intn(1000), 1+r.Intn(4), r.Intn(10))
	case 4:
		s = fmt.Sprintf("%d.", r.Intn(50))
	case 5:
		s = fmt.Sprintf("%d.%d%s%s%d", r.Intn(10), r.Intn(1000), pick(r, []string{"e", "E"}), pick(r, []string{"", "+", "-"}), r.Intn(20))
	case 6:
		s = fmt.Sprintf("%d%s", r.Intn(300), pick(r, []string{"k", "K", "m", "M", "g", "G", "t", "T", "p", "P", "ki", "Ki", "mi", "Mi", "gi", "Gi", "ti", "Ti", "pi", "Pi"}))
	case 7:
		s = fmt.Sprintf("%d.%d%s", r.Intn(30), r.Intn(100), pick(r, []string{"k", "K", "M", "G", "Ki", "Mi", "Gi", "T", "Ti", "P", "Pi"}))
		if oneIn(r, 2) {
			// any number of digits, the product can be more than an integer holds
			s = strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10) + pick(r, []string{"", "", ".", ".5"}) + pick(r, []string{"k", "M", "G", "T", "P", "Ki", "Mi", "Gi", "Ti", "Pi", "pi"})
		}
	}
	if oneIn(r, 6) {
		s = pick(r, []string{"-", "-", "+"}) + s
	}
	if oneIn(r, 10) {
		// any magnitude, any number of digits
		switch r.Intn(4) {
		case 0:
			s = strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10)
		case 1:
			s = strconv.FormatFloat(math.Ldexp(r.Float64(), r.Intn(400)-200), 'g', -1, 64)
		case 2:
			s = strconv.FormatFloat(math.Ldexp(r.Float64(), r.Intn(80)-20), 'f', r.Intn(20), 64)
		case 3:
			s = strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10) + "." + strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10) + pick(r, []string{"", "", "e5", "E-7", "Ki", "M"})
		}
	}
	if oneIn(r, 40) {
		// more digits than a float64 keeps, leading zeros
		s = pick(r, []string{"0.1", "123456789012345678901234567890", "00012", "9007199254740993", "0.30000000000000004", "1e308", "4.9e-324", "2.2250738585072011e-308", "-0", "1e-400", "000.5"})
	}
	return s
}

func (g *G) num() *E {
	t := g.numText()
	return &E{K: "num", Num: numValue(t), Text: t}
}

var strPool = []string{"", "joe", "Joe", "it's", `a "quoted" word`, "back`tick", `back\slash`, "100%", "a_b", "%", "_", "line1\nline2", "joe\n", "line\nend\n\n", "\n", "tab\there",
	"héllo", "日本語", "😀", "null", "true", "1", "1.5", "' OR 1=1 --", "x'; DROP TABLE books; --", `\`, `\\`, `\'`, "?", "??", "$1", ":x", "{}", "<a|b>", "a]b[c", "   ",
	"2020-01-0", "2020-1-01", "20200-01-01", "2020-01-01 ", "x2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00Z", "2020-13-45", "&amp;<b>", "\u2028", "a\rb", "\b\f", "- [x]: y", "#c", "yes", "~", "@", "%d%s", "0x10", ".inf"}

func (g *G) strVal() string {
	r := g.r
	if oneIn(r, 120) {
		// a long text whose end matters
		s := strings.Repeat(pick(r, []string{"x", "ab ", "é", "日", "%", "\\"}), bigSize(r, 1100))
		return s + pick(r, []string{"", "y", "'", "%", "_z"})
	}
	if r.Intn(3) > 0 {
		return pick(r, strPool)
	}
	const alpha = "abcXYZ 01'\"`\\%_-?.,()[]{}<>=!~*+/\n\t;:é日|&#$^"
	runes := []rune(alpha)
	var b strings.Builder
	for n := r.Intn(12); n > 0; n-- {
		b.WriteRune(runes[r.Intn(len(runes))])
	}
	return b.String()
}

func (g *G) str() *E { return strLiteral(g.strVal()) }

func (g *G) dateText() string {
	r := g.r
	if oneIn(r, 12) {
		return pick(r, []string{"2020-02-30", "0000-00-00", "2020-13-01", "9999-99-99"})
	}
	return g.ymd()
}

func (g *G) ymd() string {
	r := g.r
	y, m := 1900+r.Intn(200), 1+r.Intn(12)
	if oneIn(r, 6) {
		y = r.Intn(10000)
	}
	if oneIn(r, 10) {
		y, m = pick(r, []int{1900, 2000, 2020, 2024, 2023, 2400}), 2
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, m, 1+r.Intn(time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()))
}

func (g *G) tsText() string {
	r := g.r
	d := g.ymd()
	s := fmt.Sprintf("%sT%02d:%02d:%02d", d, r.Intn(24), r.Intn(60), r.Intn(60))
	if oneIn(r, 3) {
		s += pick(r, []string{".5", ".25", ".123", ".000001", ".123456789", ".100", fmt.Sprintf(".%0*d", 1+r.Intn(9), r.Intn(10)), fmt.Sprintf(".%09d", r.Intn(1000000000))})
	}
	if oneIn(r, 4) {
		return s + fmt.Sprintf("%s%02d:%02d", pick(r, []string{"+", "-"}), r.Intn(15), pick(r, []int{0, 0, 30, 45, 15, 59}))
	}
	return s + pick(r, []string{"Z", "Z", "Z", "+02:00", "-05:30", "+00:00", "-00:00", "+14:00"})
}

func (g *G) literal() *E {
	switch g.r.Intn(10) {
	case 0, 1, 2:
		return g.num()
	case 3, 4, 5:
		return g.str()
	case 6:
		return boolean(oneIn(g.r, 2))
	case 7:
		return date(g.dateText())
	case 8:
		return ts(g.tsText())
	}
	return ident(g.ident())
}

var binOps = []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "in", "between", "is", "+", "-", "*", "/", "%", "and", "or", "and", "or"}
var unOps = []string{"not", "len", "any", "all", "sum", "neg"}

// any generates any tree the language can express.
func (g *G) any(depth int) *E {
	r := g.r
	if depth <= 0 || oneIn(r, 6) {
		if oneIn(r, 2) {
			return ident(g.ident())
		}
		return g.literal()
	}
	switch r.Intn(12) {
	case 0, 1:
		return un(pick(r, unOps), g.any(depth-1))
	case 2:
		a := arr()
		n := listLen(r, 4)
		if n > 10 {
			depth = 0
		}
		for ; n > 0; n-- {
			a.A = append(a.A, g.any(depth-2))
		}
		return a
	case 3:
		if oneIn(r, 40) {
			leaf := func() *E { return g.any(0) }
			if oneIn(r, 3) {
				return tower(r, 200, leaf, []string{"=", "<", "in", "like", "and", "+", "/", "~="}, unOps)
			}
			return tower(r, 200, leaf, pick(r, [][]string{{"and", "or"}, {"+", "-", "*"}, {"and"}, {"or"}}), pick(r, [][]string{{"not"}, {"neg"}, {"not", "any", "len"}}))
		}
		// the NOT forms of the comparisons
		e := g.binary(pick(r, []string{"like", "ilike", "in", "between", "is"}), depth)
		return un("not", e)
	}
	return g.binary(pick(r, binOps), depth)
}

func (g *G) binary(op string, depth int) *E {
	l := g.any(depth - 1)
	switch op {
	case "is":
		return bin(op, l, null())
	case "between":
		return bin(op, l, arr(g.any(depth-2), g.any(depth-2)))
	case "in":
		if g.r.Intn(4) > 0 {
			a := arr()
			n := listLen(g.r, 5)
			if n > 10 {
				depth = 0
			}
			for ; n > 0; n-- {
				a.A = append(a.A, g.any(depth-2))
			}
			return bin(op, l, a)
		}
	}
	return bin(op, l, g.any(depth-1))
}

// ---------------------------------------------------------------- printer

type printer struct {
	g     *G
	toks  []string
	extra bool // redundant parentheses and unary plus
	infix bool
}

const (
	lOr = iota + 1
	lAnd
	lCmp
	lAdd
	lMul
	lNot
	lUn
	lPrim
)

func level(e *E) int {
	switch e.K {
	case "bin":
		switch e.Op {
		case "or":
			return lOr
		case "and":
			return lAnd
		case "+", "-":
			return lAdd
		case "*", "/", "%":
			return lMul
		}
		return lCmp
	case "un":
		if e.Op == "neg" {
			return lUn
		}
		return lNot
	}
	return lPrim
}

func hasInfixNot(e *E) bool {
	if e.K != "un" || e.Op != "not" || e.R.K != "bin" {
		return false
	}
	switch e.R.Op {
	case "like", "ilike", "in", "between", "is":
		return true
	}
	return false
}

func (p *printer) kw(s string) {
	r := p.g.r
	switch r.Intn(4) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if oneIn(r, 2) && isLetter(b[i]) {
				b[i] ^= 0x20
			}
		}
		s = string(b)
	}
	p.toks = append(p.toks, s)
}

func (p *printer) op(s string) {
	if s == "!=" && oneIn(p.g.r, 2) {
		s = "<>"
	}
	p.toks = append(p.toks, s)
}

func isWordOp(op string) bool { return isLetter(op[0]) }

// quote spells a string literal.
func (g *G) quote(s string) string {
	r := g.r
	q := pick(r, []byte{'\'', '"', '`'})
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == q || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n' && oneIn(r, 2):
			b.WriteString(`\n`)
		case c == '\t' && oneIn(r, 2):
			b.WriteString(`\t`)
		case c == '\r' && oneIn(r, 2):
			b.WriteString(`\r`)
		case c == '\b' && oneIn(r, 2):
			b.WriteString(`\b`)
		case c == '\f' && oneIn(r, 2):
			b.WriteString(`\f`)
		case (c == '\'' || c == '"' || c == '`') && oneIn(r, 3):
			b.WriteByte('\\')
			b.WriteByte(c)
		case c > ' ' && strings.IndexByte("ntrbf", c) < 0 && oneIn(r, 40):
			// an escape of any other character is the character
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

// print writes the tokens of e where an expression of at least this level is expected.
func (p *printer) print(e *E, min int) {
	r := p.g.r
	infix := hasInfixNot(e) && (p.infix || r.Intn(4) > 0)
	l := level(e)
	if infix {
		l = lCmp
	}
	if l < min || (p.extra && oneIn(r, 8)) {
		p.toks = append(p.toks, "(")
		n := 0
		if p.extra && oneIn(r, 6) {
			n = 1
			p.toks = append(p.toks, "(")
		}
		p.printAt(e, lOr, infix)
		if n == 1 {
			p.toks = append(p.toks, ")")
		}
		p.toks = append(p.toks, ")")
		return
	}
	p.printAt(e, min, infix)
}

func (p *printer) printAt(e *E, min int, infix bool) {
	r := p.g.r
	if p.extra && level(e) >= lUn && oneIn(r, 25) {
		p.toks = append(p.toks, "+")
	}
	switch e.K {
	case "num":
		if e.Text != "" {
			p.toks = append(p.toks, e.Text)
		} else {
			p.toks = append(p.toks, strconv.FormatFloat(e.Num, 'g', -1, 64))
		}
	case "str":
		p.toks = append(p.toks, p.g.quote(e.S))
	case "bool":
		p.kw(strconv.FormatBool(e.B))
	case "ident":
		p.toks = append(p.toks, e.S)
	case "date", "ts":
		if oneIn(r, 2) {
			p.toks = append(p.toks, p.g.quote(e.S))
		} else {
			p.toks = append(p.toks, e.S)
		}
	case "array":
		p.toks = append(p.toks, "[")
		for i, a := range e.A {
			if i > 0 {
				p.toks = append(p.toks, ",")
			}
			p.print(a, lOr)
		}
		if len(e.A) > 0 && oneIn(r, 5) {
			p.toks = append(p.toks, ",")
		}
		p.toks = append(p.toks, "]")
	case "un":
		if infix {
			p.printBin(e.R, true)
			return
		}
		if e.Op == "neg" {
			p.toks = append(p.toks, "-")
			p.print(e.R, lUn)
			return
		}
		p.kw(e.Op)
		p.print(e.R, lNot)
	case "bin":
		p.printBin(e, false)
	}
}

func (p *printer) printBin(e *E, neg bool) {
	l := level(e)
	p.print(e.L, l)
	switch e.Op {
	case "is":
		p.kw("is")
		if neg {
			p.kw("not")
		}
		p.kw("null")
		return
	case "between":
		if neg {
			p.kw("not")
		}
		p.kw("between")
		p.print(e.R.A[0], lAdd)
		p.kw("and")
		p.print(e.R.A[1], lAdd)
		return
	}
	if neg {
		p.kw("not")
	}
	if isWordOp(e.Op) {
		p.kw(e.Op)
	} else {
		p.op(e.Op)
	}
	p.print(e.R, l+1)
}

// phrase writes e as a phrase, with random spelling.
func (g *G) phrase(e *E, extra bool) string {
	p := &printer{g: g, extra: extra}
	p.print(e, lOr)
	return g.join(p.toks)
}

func (g *G) join(toks []string) string {
	r := g.r
	style := r.Intn(4)
	if style > 0 {
		var b strings.Builder
		if oneIn(r, 8) {
			b.WriteString(pick(r, []string{" ", "\n", "\t  ", "\r\n"}))
		}
		for i, t := range toks {
			if i > 0 {
				sep := " "
				if style == 1 && oneIn(r, 5) {
					sep = pick(r, []string{"  ", "\t", "\n", "\r\n", " \n ", "\f", "\v", "\r"})
				}
				if style >= 2 && r.Intn(4) > 0 && sameToks(toks[i-1]+t, toks[i-1:i+1]) {
					sep = ""
				}
				b.WriteString(sep)
			}
			b.WriteString(t)
		}
		if oneIn(r, 8) {
			b.WriteString(pick(r, []string{" ", "\n", "\t  "}))
		}
		if s := b.String(); sameToks(s, toks) {
			return s
		}
	}
	return strings.Join(toks, " ")
}

func sameToks(s string, toks []string) bool {
	l := refLex(s)
	if len(l) != len(toks)+1 || l[len(toks)].T != "eof" {
		return false
	}
	for i, t := range toks {
		if s[l[i].Start:l[i].End] != t {
			return false
		}
	}
	return true
}

// mutate makes a hostile phrase from a valid one.
func (g *G) mutate(s string) string {
	r := g.r
	b := []byte(s)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(8) {
		case 7: // insert a character that looks like none, often at an end
			i := pick(r, []int{0, 0, len(b), r.Intn(len(b) + 1)})
			b = append(b[:i], append([]byte(pick(r, invisible)), b[i:]...)...)
		case 0: // delete
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		case 1: // insert a special character
			const sp = "()[],'\"`\\=<>!~+-*/%.:; \t\n#@$^&{}|?0a_e\x80\xff\x01"
			i := r.Intn(len(b) + 1)
			b = append(b[:i], append([]byte{sp[r.Intn(len(sp))]}, b[i:]...)...)
		case 2: // delete a range
			if len(b) > 1 {
				i := r.Intn(len(b))
				j := i + r.Intn(len(b)-i)
				b = append(b[:i], b[j:]...)
			}
		case 3: // duplicate a range
			if len(b) > 1 && len(b) < 400 {
				i := r.Intn(len(b))
				j := i + r.Intn(min(len(b)-i, 12))
				b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
			}
		case 4: // replace
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(1 + r.Intn(255))
			}
		case 5: // insert a word
			i := r.Intn(len(b) + 1)
			w := pick(r, soup)
			b = append(b[:i], append([]byte(w), b[i:]...)...)
		case 6: // truncate
			b = b[:r.Intn(len(b)+1)]
		}
	}
	return string(b)
}

var soup = []string{" and ", " or ", " not ", " is ", " null ", " in ", " between ", " like ", " ilike ", " len ", " any ", " all ", " sum ", " true ", " false ",
	"a", "b", "x.y", "x[0]", "x[*]", "'s'", `"d"`, "`t`", "1", "2.5", "-3", "5Ki", "1e5", "2020-01-01", "2020-01-01T00:00:00Z", "(", ")", "[", "]", ",",
	"=", "!=", "<>", "<", "<=", ">", ">=", "~=", "~!", "+", "-", "*", "/", "%", " ", " ", "=="}

func (g *G) soup() string {
	var b strings.Builder
	for n := 1 + g.r.Intn(9); n > 0; n-- {
		b.WriteString(pick(g.r, soup))
		if oneIn(g.r, 2) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// unspecified tells whether the meaning of a phrase depends on a detail that
// the language does not define: a backslash at the end of a line inside a
// string, an upper case I in a size suffix.
func unspecified(s string) bool {
	if strings.Contains(s, "\\\n") {
		return true
	}
	for _, t := range refLex(s) {
		if t.T == "num" && strings.HasSuffix(t.V, "I") {
			return true
		}
	}
	return false
}

// near is e, or sometimes an expression that is nearly the one before, or that
// one again: what is kept of one must not be taken for the other.
func (g *G) near(e *E) *E {
	if g.last != nil && oneIn(g.r, 16) && g.last.size() < 1000 {
		x := g.sibling(g.last)
		if oneIn(g.r, 4) {
			x = g.last.clone()
		}
		if x != nil {
			e = x
		}
	}
	g.last = e
	return e
}
