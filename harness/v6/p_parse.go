//go:build go1.21

package main

import (
	"errors"
	"math"
	"strconv"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
}

// parse runs the real parser.
func parse(c *C, s string) (n *tsl.TSLNode, err error) {
	c.Guard("ParseTSL", func() { n, err = tsl.ParseTSL(s) })
	if (n == nil) == (err == nil) {
		c.Fail("a tree or an error", "ParseTSL(%q) returned tree %v and error %v", s, n != nil, err)
	}
	return
}

// mustParse runs the real parser on a phrase of the language.
func mustParse(c *C, s string) *tsl.TSLNode {
	n, err := parse(c, s)
	if err != nil {
		c.Fail("a valid phrase is accepted", "ParseTSL(%q) failed: %v", s, err)
	}
	return n
}

// c01: the tree has the documented structure.
func c01(c *C) {
	g := newG(c.R)
	shapes := func(e *E, tag string) {
		s := g.phrase(e, oneIn(c.R, 3))
		c.Begin("%s", s)
		n := mustParse(c, s)
		want, got := e.dump(), dumpNode(n)
		if want != got {
			c.Fail("the tree follows the precedence, associativity and parentheses of the phrase", "phrase %q\n parsed as  %s\n instead of %s", s, got, want)
		}
		n.Free()
		c.Count(tag)
		e.walk(func(x *E) {
			if x.K == "bin" || x.K == "un" {
				c.Count("op " + x.Op)
			}
		})
		if e.size() >= 4 {
			c.Distinct(want)
			c.Sample("%s  =>  %s", s, want)
		}
	}

	// Every pair of operators, nested both ways, with and without parentheses.
	leaf := func(s string) *E { return ident(s) }
	mk := func(op string, l, r *E) *E {
		switch op {
		case "is":
			return bin(op, l, null())
		case "between":
			return bin(op, l, arr(r, leaf("hi")))
		}
		return bin(op, l, r)
	}
	all := []string{"=", "!=", "<", "<=", ">", ">=", "~=", "~!", "like", "ilike", "in", "between", "is", "+", "-", "*", "/", "%", "and", "or"}
	i := 0
	for _, o1 := range all {
		for _, o2 := range all {
			for v := 0; v < 4; v++ {
				if i++; !c.Mine(i) {
					continue
				}
				var e *E
				switch v {
				case 0:
					e = mk(o1, mk(o2, leaf("a"), leaf("b")), leaf("c"))
				case 1:
					e = mk(o1, leaf("a"), mk(o2, leaf("b"), leaf("c")))
				case 2:
					e = un("not", mk(o1, mk(o2, leaf("a"), leaf("b")), leaf("c")))
				case 3:
					e = mk(o1, un("not", mk(o2, leaf("a"), leaf("b"))), leaf("c"))
				}
				shapes(e, "operator pairs")
			}
		}
		for _, u := range unOps {
			for v := 0; v < 3; v++ {
				if i++; !c.Mine(i) {
					continue
				}
				switch v {
				case 0:
					shapes(un(u, mk(o1, leaf("a"), leaf("b"))), "operator pairs")
				case 1:
					shapes(mk(o1, un(u, leaf("a")), leaf("b")), "operator pairs")
				case 2:
					shapes(mk(o1, leaf("a"), un(u, leaf("b"))), "operator pairs")
				}
			}
		}
	}
	for n := c.N(1200000, 40000000); n > 0; n-- {
		shapes(g.near(g.any(1+c.R.Intn(6))), "random trees")
	}
}

// phrases yields valid, mutated and hostile phrases.
func (g *G) hostile() (string, string) {
	r := g.r
	switch r.Intn(10) {
	case 0, 1:
		return g.phrase(g.any(1+r.Intn(5)), true), "valid"
	case 2, 3, 4:
		return g.mutate(g.phrase(g.any(1+r.Intn(4)), false)), "mutated"
	case 5, 6, 7:
		return g.soup(), "token soup"
	case 8:
		// token deletion, duplication and swap
		p := &printer{g: g}
		p.print(g.any(1+r.Intn(4)), lOr)
		t := p.toks
		switch r.Intn(3) {
		case 0:
			i := r.Intn(len(t))
			t = append(append([]string{}, t[:i]...), t[i+1:]...)
		case 1:
			i := r.Intn(len(t))
			t = append(append([]string{}, t[:i+1]...), t[i:]...)
		case 2:
			i, j := r.Intn(len(t)), r.Intn(len(t))
			t[i], t[j] = t[j], t[i]
		}
		return strings.Join(t, " "), "token edits"
	}
	b := make([]byte, r.Intn(24))
	for i := range b {
		if oneIn(r, 4) {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = byte(32 + r.Intn(95))
		}
	}
	return string(b), "random bytes"
}

// c02: accepts exactly the language of the reference grammar.
func c02(c *C) {
	g := newG(c.R)
	check := func(s, tag string) {
		if unspecified(s) || strings.IndexByte(s, 0) >= 0 {
			c.Count("skipped: not specified")
			return
		}
		c.Begin("%s", s)
		e, bad := refParse(s)
		n, err := parse(c, s)
		switch {
		case err == nil && e == nil:
			c.Fail("rejects what is not in the language", "ParseTSL accepted %q as %s, not expected: %q at %d", s, dumpNode(n), bad.V, bad.Start)
		case err != nil && e != nil:
			c.Fail("accepts what is in the language", "ParseTSL rejected %q, which means %s: %v", s, e.dump(), err)
		case err == nil:
			if want, got := e.dump(), dumpNode(n); want != got {
				c.Fail("the tree is the one of the grammar", "phrase %q\n parsed as  %s\n instead of %s", s, got, want)
			}
			n.Free()
			c.Count("accepted: " + tag)
			if e.size() > 1 {
				c.Distinct(s)
			}
		default:
			c.Count("rejected: " + tag)
			c.Distinct(s)
			if len(s) > 8 {
				c.Sample("rejected %q", s)
			}
		}
	}
	// All the short token sequences.
	short := []string{"and", "or", "not", "is", "null", "in", "between", "like", "len", "true", "a", "'s'", "1", "-3", "2020-01-01", "(", ")", "[", "]", ",", "=", "<", "+", "-", "*", "~="}
	i := 0
	for _, t1 := range short {
		for _, t2 := range append([]string{""}, short...) {
			for _, t3 := range append([]string{""}, short...) {
				if i++; c.Mine(i) {
					check(t1+" "+t2+" "+t3, "all sequences of 3 tokens")
				}
				if oneIn(c.R, 4) && c.Mine(i) {
					check(t1+" "+t2+" "+t3+" "+pick(c.R, short), "sequences of 4 tokens")
				}
			}
		}
	}
	for n := c.N(1600000, 60000000); n > 0; n-- {
		check(g.hostile())
	}
}

// c03: every input gives a tree or a well formed syntax error, and nothing else
// than the input has an effect on the result.
func c03(c *C) {
	g := newG(c.R)
	type seen struct{ s, res string }
	var history []seen
	outcome := func(s string) string {
		n, err := parse(c, s)
		if err == nil {
			d := dumpNode(n)
			if oneIn(c.R, 8) {
				// the same input once more, when the first tree lives on, edited
				if l := n.DetachLeft(); l != nil {
					n.AttachRight(l)
				} else if a, ok := n.Value().(tsl.TSLArrayLiteral); ok && len(a.Values) > 1 {
					n.AttachElement(0, a.Values[1].Clone())
				}
				n2, err := parse(c, s)
				if err != nil {
					c.Fail("the result depends only on the input", "ParseTSL(%q) gave a tree and the second time the error %v", s, err)
				}
				if d2 := dumpNode(n2); d2 != d {
					c.Fail("the result depends only on the input", "ParseTSL(%q) gave %s, and again, after the first tree was edited, %s", s, d, d2)
				}
				n.Free()
				if d2 := dumpNode(n2); d2 != d {
					c.Fail("the result depends only on the input", "ParseTSL(%q) gave %s, and it became %s when another tree was freed", s, d, d2)
				}
				n2.Free()
				c.Count("parsed twice")
				return "tree " + d
			}
			n.Free()
			return "tree " + d
		}
		var se *tsl.SyntaxError
		if !errors.As(err, &se) {
			c.Fail("the error is a syntax error", "ParseTSL(%q) error is %T: %v", s, err, err)
		}
		if se.Input != s {
			c.Fail("the error reports the input", "ParseTSL(%q) error reports input %q", s, se.Input)
		}
		if se.Message == "" {
			c.Fail("the error has a message", "ParseTSL(%q) error has an empty message", s)
		}
		if se.Position < 0 || se.Position > len(s) {
			c.Fail("the error position is inside the input", "ParseTSL(%q) error position is %d, input length %d", s, se.Position, len(s))
		}
		if !strings.Contains(s, se.Context) {
			c.Fail("the context of the error is a part of the input", "ParseTSL(%q) error at %d has the context %q", s, se.Position, se.Context)
		}
		// the word at the position
		if p := se.Position; p < len(s) && !strings.ContainsAny(s, "\x00'\"`") {
			isSpace := func(b byte) bool { return strings.IndexByte(" \t\n\v\f\r", b) >= 0 }
			lo, hi := p, p+1
			for lo > 0 && isSpace(s[lo]) {
				lo--
			}
			for lo > 0 && !isSpace(s[lo-1]) {
				lo--
			}
			for hi < len(s) && !isSpace(s[hi]) {
				hi++
			}
			want := s[lo:hi]
			if len(want) > 511 {
				want = want[:511]
			}
			if !isSpace(s[p]) && want != se.Context {
				c.Fail("the context of the error is the word at its position", "ParseTSL(%q) error at %d has the context %q instead of %q", s, p, se.Context, want)
			}
			c.Count("contexts checked")
		}
		var msg string
		c.Guard("SyntaxError.Error", func() { msg = err.Error() })
		if !strings.Contains(msg, se.Message) || !strings.Contains(msg, s) {
			c.Fail("the error text shows the message and the input", "ParseTSL(%q) error text is %q", s, msg)
		}
		if s != "" && !strings.Contains(strings.Replace(msg, s, "", 1), strconv.Itoa(se.Position)) {
			c.Fail("the error text shows the position", "ParseTSL(%q) error position is %d, its text %q", s, se.Position, msg)
		}
		if last := msg[strings.LastIndexByte(msg, '\n')+1:]; !strings.ContainsAny(s, "\n\r") && last != strings.Repeat(" ", se.Position)+"^" {
			c.Fail("the marker of the error text is at the position", "ParseTSL(%q) error position is %d, its text %q", s, se.Position, msg)
		}
		return "error " + msg
	}
	position := func(s string) {
		// The position points into the first token that can not continue the phrase.
		if unspecified(s) || strings.IndexByte(s, 0) >= 0 {
			return
		}
		e, bad := refParse(s)
		if e != nil {
			return
		}
		_, err := parse(c, s)
		se, ok := err.(*tsl.SyntaxError)
		if !ok {
			return // C02 decides this
		}
		lo, hi := bad.Start, bad.End-1
		if bad.T == "eof" {
			// The end of the input, the position is at or after the last token.
			lo, hi = 0, len(s)
			for _, t := range refLex(s) {
				if t.T != "eof" {
					lo = t.End - 1
				}
			}
		}
		if se.Position < lo || se.Position > hi {
			c.Fail("the error position points at the first token that is not expected", "ParseTSL(%q) error position is %d, the token %q is at [%d,%d]", s, se.Position, bad.V, lo, hi)
		}
		c.Count("error positions checked")
	}
	for n := c.N(1200000, 40000000); n > 0; n-- {
		s, tag := g.hostile()
		if oneIn(c.R, 30) {
			i := c.R.Intn(len(s) + 1)
			s = s[:i] + "\x00" + s[i:]
			tag = "NUL byte"
		}
		if oneIn(c.R, 2000) {
			s = strings.Repeat(pick(c.R, []string{"(", "[", "not ", "-", "a and ", "a,", "'", "x[", "1 + ", "a like ", " ", "\n", "((a)", "\xff"}), 1+c.R.Intn(3000)) + s
			tag = "long"
		}
		if len(history) == 200 && oneIn(c.R, 20000) {
			// A phrase much longer than any buffer, then phrases seen before.
			size := 60000 + c.R.Intn(300000)
			unit := pick(c.R, []string{"x", " ", "\n", "1 + ", "a,", "a and ", "\t", "12", "é", "x.", "'a' + ", "~", "(a) or "})
			s = pick(c.R, []string{"a = '", "", "a in [", "a = ", "((", "\""}) + strings.Repeat(unit, size/len(unit)) + pick(c.R, []string{"", "'", "1", "a]", "1 = = 2", "\""})
			c.Begin("a phrase of %d bytes of %q", len(s), unit)
			o := outcome(s)
			c.Count("huge phrases: " + strings.SplitN(o, " ", 2)[0])
			for i := range history {
				if again := outcome(history[i].s); again != history[i].res {
					c.Fail("the result depends only on the input", "ParseTSL(%q) gave %q, and later, after %d bytes of %q, %q", history[i].s, history[i].res, len(s), unit, again)
				}
			}
			continue
		}
		c.Begin("%s", s)
		o := outcome(s)
		c.Count(strings.SplitN(o, " ", 2)[0] + ": " + tag)
		c.Distinct(s)
		if tag == "NUL byte" && strings.HasPrefix(o, "tree") {
			c.Fail("every byte of the input counts", "ParseTSL(%q) accepted an input with a NUL byte as %s", s, o)
		}
		position(s)
		if strings.HasPrefix(o, "error") && len(o) < 200 {
			c.Sample("%q => %q", s, o)
		}
		// Parsing the same input again, after any other inputs, gives the same result.
		if len(s) < 500 {
			if len(history) < 200 {
				history = append(history, seen{s, o})
			} else {
				i := c.R.Intn(len(history))
				h := history[i]
				if again := outcome(h.s); again != h.res {
					c.Fail("the result depends only on the input", "ParseTSL(%q) gave %q, and later, after %q, %q", h.s, h.res, s, again)
				}
				c.Count("repeated parses compared")
				history[i] = seen{s, o}
			}
		}
	}
}

// c04: literal values are exact.
func c04(c *C) {
	g := newG(c.R)
	one := func(text string, want *E, tag string) {
		for _, form := range []string{"%s", "a = %s", "[%s]", "a in [1, %s, 2]", "not (%s)", "a between %s and 9"} {
			if form != "%s" && !oneIn(c.R, 3) {
				continue
			}
			s := strings.Replace(form, "%s", text, 1)
			c.Begin("%s", s)
			n := mustParse(c, s)
			e, _ := refParse(s)
			got := dumpNode(n)
			w := want.dump()
			if form != "%s" {
				if e == nil {
					c.Fail("literal values are exact", "reference parser rejects %q", s)
				}
				w = e.dump()
			}
			if got != w {
				c.Fail("literal values are exact", "%q parsed as %s instead of %s", s, got, w)
			}
			n.Free()
			c.Count(tag)
			c.Distinct(want.dump())
		}
	}
	for n := c.N(700000, 20000000); n > 0; n-- {
		switch c.R.Intn(5) {
		case 0, 1:
			e := g.num()
			one(e.Text, e, "numbers")
			c.Sample("%s => %v", e.Text, e.Num)
		case 2, 3:
			v := g.strVal()
			if oneIn(c.R, 8) {
				// any characters
				b := make([]byte, 1+c.R.Intn(8))
				for i := range b {
					b[i] = byte(1 + c.R.Intn(127))
				}
				v = string(b)
			}
			q := g.quote(v)
			if strings.Contains(q, "\\\n") {
				continue
			}
			one(q, strLiteral(v), "strings")
			c.Sample("%s => %q", q, v)
		case 4:
			t := g.dateText()
			w := date(t)
			tag := "dates"
			if oneIn(c.R, 2) {
				t = g.tsText()
				w = ts(t)
				tag = "timestamps"
			}
			if oneIn(c.R, 2) {
				t = g.quote(t)
			}
			one(t, w, tag)
		}
	}
	// Long ones, of the sizes at which buffers end.
	for n := c.N(160, 2000); n > 0; n-- {
		size := 1<<uint(6+c.R.Intn(12)) + c.R.Intn(5) - 3
		if oneIn(c.R, 16) {
			size = 1<<uint(18+c.R.Intn(4)) + c.R.Intn(5) - 3
		}
		b := make([]byte, size)
		for i := range b {
			b[i] = "abcdefgh XYZ01239_-.,%"[c.R.Intn(22)]
		}
		switch c.R.Intn(3) {
		case 0:
			v := string(b)
			if oneIn(c.R, 2) {
				// quotes and escapes at the end, and all over
				v = strings.ReplaceAll(v, pick(c.R, []string{"a", "X", "%"}), pick(c.R, []string{"'", "\\", "\"", "`", "é"})) + "'"
			}
			one(g.quote(v), strLiteral(v), "long strings")
		case 1:
			id := "f" + strings.Map(func(r rune) rune {
				if strings.ContainsRune(" -,%", r) {
					return '_'
				}
				return r
			}, string(b))
			one(id, ident(id), "long identifiers")
		case 2:
			t := strings.Map(func(r rune) rune { return '0' + r%10 }, string(b))
			if k := 1 + c.R.Intn(len(t)-1); oneIn(c.R, 2) {
				t = t[:k] + "." + t[k:]
			} else {
				t = "0." + t
			}
			if v := numValue(t); !math.IsInf(v, 0) {
				one(t, &E{K: "num", Num: v, Text: t}, "long numbers")
			}
		}
	}
	// Identifiers and keywords keep their case.
	for n := c.N(20000, 200000); n > 0; n-- {
		id := g.ident()
		one(id, ident(id), "identifiers")
		b := oneIn(c.R, 2)
		p := &printer{g: g}
		p.kw(map[bool]string{true: "true", false: "false"}[b])
		one(p.toks[0], boolean(b), "booleans")
	}
}
