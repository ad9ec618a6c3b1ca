//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

func init() {
	props["C20"] = c20
	props["C21"] = c21
}

// c20: the tree of a phrase.
func c20(c *C) {
	g := newG(c.R)
	try := func(e *E, tag string) {
		s := g.phrase(e)
		c.Begin("%s", s)
		n := mustParse(c, s)
		m, err := fromNode(n)
		if err != nil {
			c.Fail("the tree has the documented form", "%q: %v", s, err)
		}
		if got, want := canon(m), canon(e); got != want {
			c.Fail("the tree follows the precedence, associativity and parentheses of the phrase", "phrase %q\n parsed as  %s\n instead of %s", s, got, want)
		}
		c.Count(tag)
		e.walk(func(x *E) {
			if x.K == "bin" || x.K == "un" {
				c.Count("op " + x.Op)
			}
		})
		if e.size() > 3 {
			c.Distinct(canon(e))
			c.Sample("%s  =>  %s", s, canon(e))
		}
	}
	i := 0
	one := func(e *E, tag string) {
		if i++; c.Mine(i) {
			try(e, tag)
		}
	}
	// All the pairs and triples of math operators, nested in all ways.
	all := append(append([]string{}, mulOps...), addOps...)
	wrap := func(m *E) *E {
		if V == 5 && i%2 == 0 {
			return bin(pick(c.R, cmpOps), ident("z"), m)
		}
		return bin(pick(c.R, cmpOps), m, num(float64(i)))
	}
	for _, o1 := range all {
		for _, o2 := range all {
			for v := 0; v < 4; v++ {
				b, d := ident("b"), ident("c")
				if v&1 == 1 {
					b = num(2)
				}
				if v&2 == 2 {
					d = num(3)
				}
				one(wrap(bin(o2, bin(o1, ident("a"), b), d)), "math pairs")
				if b.K == "ident" || prec(o2) > prec(o1) {
					one(wrap(bin(o1, ident("a"), bin(o2, b, d))), "math pairs")
				}
			}
			for _, o3 := range all {
				w, x, y, z := ident("a"), ident("b"), ident("c"), ident("d")
				if oneIn(c.R, 2) {
					z = num(7)
				}
				one(wrap(bin(o3, bin(o2, bin(o1, w, x), y), z)), "math triples")
				one(wrap(bin(o2, bin(o1, w, x), bin(o3, y, z))), "math triples")
				one(wrap(bin(o1, w, bin(o2, x, bin(o3, y, z)))), "math triples")
				one(wrap(bin(o1, w, bin(o3, bin(o2, x, y), z))), "math triples")
				one(wrap(bin(o3, bin(o1, w, bin(o2, x, y)), z)), "math triples")
			}
		}
	}
	// All the pairs of logical operators over all the kinds of conditions.
	a, b, d := func() *E { return g.leaf(0) }, func() *E { return g.leaf(0) }, func() *E { return g.leaf(0) }
	for n := 0; n < 40; n++ {
		for _, o1 := range []string{"and", "or"} {
			one(un("not", un("not", a())), "logic pairs")
			one(un("not", bin(o1, a(), b())), "logic pairs")
			one(bin(o1, un("not", a()), b()), "logic pairs")
			one(bin(o1, a(), un("not", b())), "logic pairs")
			for _, o2 := range []string{"and", "or"} {
				one(bin(o2, bin(o1, a(), b()), d()), "logic pairs")
				one(bin(o1, a(), bin(o2, b(), d())), "logic pairs")
				one(bin(o1, a(), un("not", bin(o2, b(), d()))), "logic pairs")
			}
		}
	}
	for n := c.N(100000, 600000); n > 0; n-- {
		try(g.near(g.cond(c.R.Intn(5))), "random trees")
	}
}

// soupTokens are the tokens of the language and of its neighbourhood.
var soupTokens = []string{"a", "b.c", "x", "\"q r\"", "`q`", "[w]", "1", "2.5", "-3", "+", "-", "*", "/", "%", "(", ")", "(", ")", ",", "=", "!=", "<>", "<", "<=", ">", ">=", "~=", "~!", "'s'", "'it''s'", "''",
	"like", "ilike", "LIKE", "in", "not", "NOT", "and", "AND", "or", "between", "is", "null", "true", "false", "10Ki", "3M", "2020-01-01", "2020-01-01T10:00:00Z", "2020-02-31", "12:30:00", "+02:00", ".5", "1e3", "1e999", ".", "@", "$", "'", "\"", "[", "]", "`", "!", "~", ":", ";", "&", "a.b.c.d", "é", "5x", "x5"}

func (g *G) tokens() []string {
	p := &printer{g: g}
	p.cond(g.cond(g.r.Intn(3)), 0)
	return p.t
}

// hostile is any text: a phrase, one that is damaged, tokens, or bytes.
func (g *G) hostile() (string, string) {
	r := g.r
	switch r.Intn(10) {
	case 0, 1:
		return g.phrase(g.cond(r.Intn(4))), "phrases"
	case 2, 3:
		s := []byte(g.phrase(g.cond(r.Intn(3))))
		for n := 1 + r.Intn(3); n > 0 && len(s) > 0; n-- {
			i := r.Intn(len(s))
			switch r.Intn(5) {
			case 4:
				i = pick(r, []int{0, 0, len(s), i})
				s = append(s[:i], append([]byte(pick(r, invisible)), s[i:]...)...)
			case 0:
				s = append(s[:i], s[i+1:]...)
			case 1:
				s[i] = " aE0.5'\"`[]()<>=~!,-+*/%\x00\n_KiTZ:\xff"[r.Intn(32)]
			case 2:
				s = append(s[:i], append([]byte{byte(r.Intn(128))}, s[i:]...)...)
			default:
				j := i + r.Intn(min(4, len(s)-i)+1)
				s = append(s[:i], s[j:]...)
			}
		}
		return string(s), "damaged phrases"
	case 4, 5, 6:
		t := g.tokens()
		for n := 1 + r.Intn(2); n > 0; n-- {
			i, j := r.Intn(len(t)), r.Intn(len(t))
			switch r.Intn(4) {
			case 0:
				t = append(append([]string{}, t[:i]...), t[i+1:]...)
			case 1:
				t = append(append(append([]string{}, t[:i]...), pick(r, soupTokens)), t[i:]...)
			case 2:
				t[i], t[j] = t[j], t[i]
			default:
				t[i] = pick(r, soupTokens)
			}
			if len(t) == 0 {
				t = []string{"a"}
			}
		}
		return g.join(t), "edited tokens"
	case 7, 8:
		var t []string
		for n := 1 + r.Intn(7); n > 0; n-- {
			t = append(t, pick(r, soupTokens))
		}
		return strings.Join(t, pick(r, []string{" ", " ", ""})), "token soup"
	}
	b := make([]byte, r.Intn(12))
	for i := range b {
		b[i] = byte(r.Intn(256))
		if oneIn(r, 2) {
			b[i] = byte(32 + r.Intn(95))
		}
	}
	return string(b), "bytes"
}

// outcome is what a parse gives.
func outcome(c *C, s string) (e *E, text string) {
	var n tsl.Node
	var err error
	c.Guard("ParseTSL", func() { n, err = tsl.ParseTSL(s) })
	if err != nil {
		if err.Error() == "" {
			c.Fail("an error has a message", "%q", s)
		}
		if n.Func != "" || n.Left != nil || n.Right != nil {
			c.Fail("a tree or an error", "%q gave the error %v and the tree %v", s, err, n)
		}
		checkLocated(c, s, err)
		return nil, "error " + err.Error()
	}
	e, err = fromNode(n)
	if err != nil {
		c.Fail("an accepted phrase gives a whole tree", "%q gave %v: %v", s, n, err)
	}
	if oneIn(c.R, 8) {
		// The same text once more, when the first tree was edited in place.
		if n.Func != "$ident" && scribble(n) {
			var m tsl.Node
			c.Guard("ParseTSL", func() { m, err = tsl.ParseTSL(s) })
			if err != nil {
				c.Fail("the outcome depends on the input only", "%q was accepted and the second time it gave the error %v", s, err)
			}
			e2, err := fromNode(m)
			if err != nil || canon(e2) != canon(e) {
				c.Fail("the outcome depends on the input only", "%q gave %s, and again, after the elements of the first tree's lists were changed, %v", s, canon(e), m)
			}
			c.Count("parsed twice")
		}
	}
	return e, canon(e)
}

// checkLocated: the error of a text that is no phrase tells where, in lines
// from 1 and characters from 0.
func checkLocated(c *C, s string, err error) {
	var pe tsl.ParseError
	if !errors.As(err, &pe) {
		c.Count(fmt.Sprintf("errors: %T", err))
		return
	}
	c.Count("errors: ParseError")
	m := located.FindStringSubmatch(err.Error())
	if m == nil {
		c.Fail("the error tells the place", "%q: %v", s, err)
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	lines := strings.Split(string([]rune(s)), "\n")
	if line < 1 || line > len(lines) || col < 0 || col > len([]rune(lines[line-1])) {
		c.Fail("the error tells a place in the text", "%q: %v", s, err)
	}
	c.Count("places checked")
}

var located = regexp.MustCompile(`(?s)^parse error \[(\d+):(\d+)\]: .`)

// scribble changes what a tree shares with its copies: the elements of its lists.
func scribble(v interface{}) (done bool) {
	n, ok := v.(tsl.Node)
	if !ok {
		return false
	}
	if a, ok := n.Right.([]tsl.Node); ok {
		for i := range a {
			a[i] = tsl.Node{Func: "$number", Left: -1.25}
			done = true
		}
		return
	}
	l, r := scribble(n.Left), scribble(n.Right)
	return l || r
}

// c21: the accepted texts.
func c21(c *C) {
	g := newG(c.R)
	type past struct{ s, out string }
	var old []past
	try := func(s, tag string) {
		c.Begin("%s", s)
		want := recognize(s)
		got, text := outcome(c, s)
		switch {
		case want == nil && got != nil:
			c.Fail("what is not a phrase is rejected", "%q was parsed as %s", s, text)
		case want != nil && got == nil:
			_, err := tsl.ParseTSL(s)
			c.Fail("every phrase is accepted", "%q: %v", s, err)
		case want != nil && canon(want) != text:
			c.Fail("the tree is the one of the phrase", "%q was parsed as %s instead of %s", s, text, canon(want))
		}
		c.Count(tag)
		if want != nil {
			c.Count("accepted")
			c.Add("nodes", want.size())
		} else {
			c.Count("rejected")
		}
		c.Distinct(s)
		if oneIn(c.R, 5) {
			old = append(old, past{s, text})
		}
		if len(old) > 200 {
			i := c.R.Intn(len(old))
			c.Begin("again: %s", old[i].s)
			if _, text := outcome(c, old[i].s); text != old[i].out {
				c.Fail("the outcome depends on the input only", "%q gave %s and later %s", old[i].s, old[i].out, text)
			}
			old[i] = old[len(old)-1]
			old = old[:len(old)-1]
			c.Count("parsed again")
		}
		if want == nil && tag != "bytes" {
			c.Sample("rejected: %s", s)
		}
	}
	// Short sequences of tokens.
	short := []string{"a", "1", "'s'", "(", ")", "=", "+", "not", "and", "is", "null", "in", "like", "between", "-", ",", "true", "2020-01-01", "~="}
	i := 0
	var rec func(t []string, n int)
	rec = func(t []string, n int) {
		if len(t) > 0 {
			if i++; c.Mine(i) {
				try(strings.Join(t, " "), "short sequences")
			}
		}
		if n == 0 {
			return
		}
		for _, x := range short {
			rec(append(t[:len(t):len(t)], x), n-1)
		}
	}
	depth := 3
	if c.Tier == "thorough" {
		depth = 4
	}
	rec(nil, depth)
	for n := c.N(160000, 1200000); n > 0; n-- {
		s, tag := g.hostile()
		try(s, tag)
	}
}
