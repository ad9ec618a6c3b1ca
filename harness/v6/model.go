//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

var opNames = map[tsl.Operator]string{
	tsl.OpEQ: "=", tsl.OpNE: "!=", tsl.OpLT: "<", tsl.OpLE: "<=", tsl.OpGT: ">", tsl.OpGE: ">=",
	tsl.OpREQ: "~=", tsl.OpRNE: "~!", tsl.OpAnd: "and", tsl.OpOr: "or", tsl.OpNot: "not",
	tsl.OpLike: "like", tsl.OpILike: "ilike", tsl.OpIn: "in", tsl.OpBetween: "between", tsl.OpIs: "is",
	tsl.OpPlus: "+", tsl.OpMinus: "-", tsl.OpStar: "*", tsl.OpSlash: "/", tsl.OpPercent: "%",
	tsl.OpUMinus: "neg", tsl.OpLen: "len", tsl.OpAny: "any", tsl.OpAll: "all", tsl.OpSum: "sum",
}

// dumpNode writes a real tree in the same canonical form.
func dumpNode(n *tsl.TSLNode) string {
	var b strings.Builder
	dumpNodeTo(&b, n)
	return b.String()
}

func dumpNodeTo(b *strings.Builder, n *tsl.TSLNode) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	v := n.Value()
	bad := func() { fmt.Fprintf(b, "<bad %v %T %v>", n.Type(), v, v) }
	switch n.Type() {
	case tsl.KindNumericLiteral:
		f, ok := v.(float64)
		if !ok {
			bad()
			return
		}
		b.WriteString("n:" + numKey(f))
	case tsl.KindStringLiteral:
		s, ok := v.(string)
		if !ok {
			bad()
			return
		}
		b.WriteString("s:" + strconv.Quote(s))
	case tsl.KindIdentifier:
		s, ok := v.(string)
		if !ok {
			bad()
			return
		}
		b.WriteString("i:" + s)
	case tsl.KindBooleanLiteral:
		f, ok := v.(bool)
		if !ok {
			bad()
			return
		}
		fmt.Fprintf(b, "b:%v", f)
	case tsl.KindDateLiteral:
		s, ok := v.(string)
		if !ok {
			bad()
			return
		}
		b.WriteString("d:" + s)
	case tsl.KindTimestampLiteral:
		switch t := v.(type) {
		case time.Time:
			b.WriteString("t:" + t.UTC().Format(time.RFC3339Nano))
		case string:
			b.WriteString("t:raw:" + t)
		default:
			bad()
		}
	case tsl.KindNullLiteral:
		if v != "NULL" {
			bad()
			return
		}
		b.WriteString("NULL")
	case tsl.KindArrayLiteral:
		a, ok := v.(tsl.TSLArrayLiteral)
		if !ok {
			bad()
			return
		}
		b.WriteString("[")
		for i, e := range a.Values {
			if i > 0 {
				b.WriteString(" ")
			}
			dumpNodeTo(b, e)
		}
		b.WriteString("]")
	case tsl.KindUnaryExpr, tsl.KindBinaryExpr:
		o, ok := v.(tsl.TSLExpressionOp)
		if !ok {
			bad()
			return
		}
		name, ok := opNames[o.Operator]
		if !ok {
			fmt.Fprintf(b, "<op %d>", o.Operator)
			return
		}
		b.WriteString("(" + name + " ")
		if n.Type() == tsl.KindBinaryExpr {
			dumpNodeTo(b, o.Left)
			b.WriteString(" ")
		} else if o.Left != nil {
			b.WriteString("<left> ")
		}
		dumpNodeTo(b, o.Right)
		b.WriteString(")")
	default:
		bad()
	}
}

// ---------------------------------------------------------------- lexer

type tok struct {
	T          string // num str ident date ts kw op eof bad
	V          string // keyword or operator, lower case, or the text
	Start, End int
}

var keywords = map[string]bool{"like": true, "ilike": true, "and": true, "or": true, "between": true, "in": true, "is": true,
	"null": true, "not": true, "true": true, "false": true, "len": true, "any": true, "all": true, "sum": true}

func isDigit(c byte) bool  { return c >= '0' && c <= '9' }
func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func matchDigits(s string, i, n int) bool {
	if i+n > len(s) {
		return false
	}
	for k := 0; k < n; k++ {
		if !isDigit(s[i+k]) {
			return false
		}
	}
	return true
}

// matchDate matches YYYY-MM-DD at i, returns the end or -1.
func matchDate(s string, i int) int {
	if matchDigits(s, i, 4) && i+4 < len(s) && s[i+4] == '-' && matchDigits(s, i+5, 2) && i+7 < len(s) && s[i+7] == '-' && matchDigits(s, i+8, 2) {
		return i + 10
	}
	return -1
}

// matchTS matches an RFC3339 timestamp at i, returns the end or -1.
func matchTS(s string, i int) int {
	j := matchDate(s, i)
	if j < 0 || j >= len(s) || s[j] != 'T' {
		return -1
	}
	j++
	if !(matchDigits(s, j, 2) && j+2 < len(s) && s[j+2] == ':' && matchDigits(s, j+3, 2) && j+5 < len(s) && s[j+5] == ':' && matchDigits(s, j+6, 2)) {
		return -1
	}
	j += 8
	if j < len(s) && s[j] == '.' {
		k := j + 1
		for k < len(s) && isDigit(s[k]) {
			k++
		}
		if k > j+1 {
			j = k
		}
	}
	if j < len(s) && s[j] == 'Z' {
		return j + 1
	}
	if j < len(s) && (s[j] == '+' || s[j] == '-') && matchDigits(s, j+1, 2) && j+3 < len(s) && s[j+3] == ':' && matchDigits(s, j+4, 2) {
		return j + 6
	}
	return -1
}

// matchNum matches the longest number at i, returns the end or -1.
func matchNum(s string, i int) int {
	j := i
	if j < len(s) && (s[j] == '+' || s[j] == '-') {
		j++
	}
	k := j
	for k < len(s) && isDigit(s[k]) {
		k++
	}
	if k == j {
		return -1
	}
	if k < len(s) && s[k] == '.' {
		k++
		for k < len(s) && isDigit(s[k]) {
			k++
		}
	}
	if k < len(s) {
		switch s[k] {
		case 'e', 'E':
			m := k + 1
			if m < len(s) && (s[m] == '+' || s[m] == '-') {
				m++
			}
			if matchDigits(s, m, 1) {
				for m < len(s) && isDigit(s[m]) {
					m++
				}
				return m
			}
		case 'k', 'K', 'm', 'M', 'g', 'G', 't', 'T', 'p', 'P':
			k++
			if k < len(s) && (s[k] == 'i' || s[k] == 'I') {
				k++
			}
		}
	}
	return k
}

// matchIdent matches the longest identifier at i, returns the end or -1.
func matchIdent(s string, i int) int {
	if i >= len(s) || !(isLetter(s[i]) || s[i] == '_') {
		return -1
	}
	j := i + 1
	for j < len(s) {
		c := s[j]
		if isLetter(c) || isDigit(c) || c == '_' || c == '.' || c == '/' {
			j++
			continue
		}
		if c == '[' {
			k := j + 1
			if k < len(s) && s[k] == '*' {
				k++
			} else {
				for k < len(s) && (isLetter(s[k]) || isDigit(s[k]) || strings.IndexByte("_./-", s[k]) >= 0) {
					k++
				}
			}
			if k > j+1 && k < len(s) && s[k] == ']' {
				j = k + 1
				continue
			}
		}
		break
	}
	return j
}

// refLex splits a phrase into tokens, the last one is eof or bad.
func refLex(s string) []tok {
	var out []tok
	i := 0
	for {
		for i < len(s) && strings.IndexByte(" \t\r\n\f\v", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			return append(out, tok{"eof", "", i, i})
		}
		c := s[i]
		best, t := 0, ""
		try := func(end int, name string) {
			if end-i > best {
				best, t = end-i, name
			}
		}
		if end := matchIdent(s, i); end > 0 {
			w := strings.ToLower(s[i:end])
			if keywords[w] {
				try(end, "kw")
			} else {
				try(end, "ident")
			}
		}
		if end := matchTS(s, i); end > 0 {
			try(end, "ts")
		}
		if end := matchDate(s, i); end > 0 {
			try(end, "date")
		}
		if end := matchNum(s, i); end > 0 {
			try(end, "num")
		}
		if c == '\'' || c == '"' || c == '`' {
			for k := i + 1; k < len(s); k++ {
				if s[k] == '\\' {
					k++
					continue
				}
				if s[k] == c {
					try(k+1, "str")
					break
				}
			}
		}
		for _, op := range []string{"<=", ">=", "!=", "<>", "~=", "~!", "<", ">", "=", "(", ")", ",", "+", "-", "*", "/", "%", "[", "]"} {
			if strings.HasPrefix(s[i:], op) {
				try(i+len(op), "op")
			}
		}
		if best == 0 {
			return append(out, tok{"bad", string(c), i, i + 1})
		}
		v := s[i : i+best]
		if t == "kw" {
			v = strings.ToLower(v)
		}
		if v == "<>" {
			v = "!="
		}
		out = append(out, tok{t, v, i, i + best})
		i += best
	}
}

// numValue is the value of a number token.
func numValue(t string) float64 {
	mult := 1.0
	if n := len(t); n > 0 {
		base := 1000.0
		if t[n-1] == 'i' || t[n-1] == 'I' {
			base = 1024
			t = t[:n-1]
			n--
		}
		exp := strings.IndexByte("kmgtp", t[n-1]|0x20)
		if exp >= 0 && !isDigit(t[n-1]) {
			mult = math.Pow(base, float64(exp+1))
			t = t[:n-1]
		}
	}
	f, _ := strconv.ParseFloat(t, 64)
	return f * mult
}

// unquote is the value of a string token.
func unquote(t string) string {
	t = t[1 : len(t)-1]
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if t[i] != '\\' || i+1 >= len(t) {
			b.WriteByte(t[i])
			continue
		}
		i++
		switch t[i] {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

// strLiteral is a quoted string, it is a date or a timestamp if it looks like one.
func strLiteral(s string) *E {
	if len(s) == 10 && matchDate(s, 0) == 10 {
		return date(s)
	}
	if len(s) > 0 && matchTS(s, 0) == len(s) {
		return ts(s)
	}
	return str(s)
}

// ---------------------------------------------------------------- parser

type refParser struct {
	toks []tok
	i    int
}

type refErr struct{ t tok }

// refParse parses a phrase, it returns the tree, or the token that is not expected.
func refParse(s string) (e *E, bad *tok) {
	p := &refParser{toks: refLex(s)}
	defer func() {
		if r := recover(); r != nil {
			if re, ok := r.(refErr); ok {
				e, bad = nil, &re.t
				return
			}
			panic(r)
		}
	}()
	e = p.or()
	if p.peek().T != "eof" {
		p.fail()
	}
	return e, nil
}

func (p *refParser) peek() tok { return p.toks[p.i] }
func (p *refParser) fail()     { panic(refErr{p.peek()}) }
func (p *refParser) is(t, v string) bool {
	return p.toks[p.i].T == t && p.toks[p.i].V == v
}
func (p *refParser) take(t, v string) bool {
	if p.is(t, v) {
		p.i++
		return true
	}
	return false
}
func (p *refParser) want(t, v string) {
	if !p.take(t, v) {
		p.fail()
	}
}

func (p *refParser) or() *E {
	l := p.and()
	for p.take("kw", "or") {
		l = bin("or", l, p.and())
	}
	return l
}

func (p *refParser) and() *E {
	l := p.cmp()
	for p.take("kw", "and") {
		l = bin("and", l, p.cmp())
	}
	return l
}

func (p *refParser) cmp() *E {
	l := p.add()
	for {
		t := p.peek()
		switch {
		case t.T == "op" && strings.Contains(" = != < <= > >= ~= ~! ", " "+t.V+" "):
			p.i++
			l = bin(t.V, l, p.add())
			continue
		case t.T == "kw" && t.V == "is":
			p.i++
			neg := p.take("kw", "not")
			p.want("kw", "null")
			l = bin("is", l, null())
			if neg {
				l = un("not", l)
			}
			continue
		case t.T == "kw" && (t.V == "not" || t.V == "like" || t.V == "ilike" || t.V == "in" || t.V == "between"):
			neg := p.take("kw", "not")
			switch {
			case p.take("kw", "like"):
				l = bin("like", l, p.add())
			case p.take("kw", "ilike"):
				l = bin("ilike", l, p.add())
			case p.take("kw", "in"):
				l = bin("in", l, p.add())
			case p.take("kw", "between"):
				lo := p.add()
				p.want("kw", "and")
				l = bin("between", l, arr(lo, p.add()))
			default:
				p.fail()
			}
			if neg {
				l = un("not", l)
			}
			continue
		}
		return l
	}
}

func (p *refParser) add() *E {
	l := p.mul()
	for p.is("op", "+") || p.is("op", "-") {
		op := p.peek().V
		p.i++
		l = bin(op, l, p.mul())
	}
	return l
}

func (p *refParser) mul() *E {
	l := p.not()
	for p.is("op", "*") || p.is("op", "/") || p.is("op", "%") {
		op := p.peek().V
		p.i++
		l = bin(op, l, p.not())
	}
	return l
}

func (p *refParser) not() *E {
	for _, op := range []string{"not", "len", "any", "all", "sum"} {
		if p.take("kw", op) {
			return un(op, p.not())
		}
	}
	return p.unary()
}

func (p *refParser) unary() *E {
	t := p.peek()
	switch t.T {
	case "op":
		switch t.V {
		case "-":
			p.i++
			return un("neg", p.unary())
		case "+":
			p.i++
			return p.unary()
		case "(":
			p.i++
			e := p.or()
			p.want("op", ")")
			return e
		case "[":
			p.i++
			a := arr()
			for !p.is("op", "]") {
				a.A = append(a.A, p.or())
				if !p.take("op", ",") {
					break
				}
			}
			p.want("op", "]")
			return a
		}
	case "kw":
		if t.V == "true" || t.V == "false" {
			p.i++
			return boolean(t.V == "true")
		}
	case "num":
		p.i++
		return num(numValue(t.V))
	case "str":
		p.i++
		return strLiteral(unquote(t.V))
	case "ident":
		p.i++
		return ident(t.V)
	case "date":
		p.i++
		return date(t.V)
	case "ts":
		p.i++
		return ts(t.V)
	}
	p.fail()
	return nil
}
