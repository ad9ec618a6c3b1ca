//go:build go1.21

package main

import (
	"strings"
	"unicode/utf8"
)

// refLike matches a LIKE pattern by dynamic programming.
func refLike(s, p []rune) bool {
	row := make([]bool, len(s)+1)
	row[0] = true
	for _, c := range p {
		next := make([]bool, len(s)+1)
		switch c {
		case '%':
			any := false
			for i := range row {
				any = any || row[i]
				next[i] = any
			}
		default:
			for i := 0; i < len(s); i++ {
				if row[i] && (c == '_' || c == s[i]) {
					next[i+1] = true
				}
			}
		}
		row = next
	}
	return row[len(s)]
}

// ------------------------------------------------- regular expressions

// A small matcher of the common part of the regular expression language:
// literals, ".", classes, groups, alternation, "*", "+", "?", "^" and "$".

const (
	reOK = iota
	reBad
	reUnknown
)

type reNode struct {
	k    byte // c literal, '.' any, '[' class, '|' alternatives, '&' sequence, '*', '+', '?', '^', '$'
	c    rune
	set  []rune // pairs
	neg  bool
	subs []*reNode
}

type reParser struct {
	s  []rune
	i  int
	st int
}

func parseRe(s string) (*reNode, int) {
	if !utf8.ValidString(s) {
		return nil, reUnknown
	}
	p := &reParser{s: []rune(s)}
	n := p.alt(0)
	if p.st == reOK && p.i < len(p.s) {
		p.st = reBad // an unexpected )
	}
	return n, p.st
}

func (p *reParser) bad(st int) {
	// what is not known dominates
	if st > p.st {
		p.st = st
	}
	p.i = len(p.s)
}

func (p *reParser) alt(depth int) *reNode {
	n := &reNode{k: '|', subs: []*reNode{p.seq(depth)}}
	for p.i < len(p.s) && p.s[p.i] == '|' {
		p.i++
		n.subs = append(n.subs, p.seq(depth))
	}
	return n
}

func (p *reParser) seq(depth int) *reNode {
	n := &reNode{k: '&'}
	for p.i < len(p.s) {
		c := p.s[p.i]
		var a *reNode
		switch c {
		case '|':
			return n
		case ')':
			return n
		case '(':
			p.i++
			if p.i < len(p.s) && p.s[p.i] == '?' {
				p.bad(reUnknown)
				return n
			}
			a = p.alt(depth + 1)
			if p.i >= len(p.s) || p.s[p.i] != ')' {
				p.bad(reBad)
				return n
			}
			p.i++
		case '[':
			a = p.class()
			if a == nil {
				return n
			}
		case '.':
			a = &reNode{k: '.'}
			p.i++
		case '^', '$':
			a = &reNode{k: byte(c)}
			p.i++
			if p.i < len(p.s) && strings.ContainsRune("*+?{", p.s[p.i]) {
				p.bad(reUnknown)
				return n
			}
		case '*', '+', '?':
			p.bad(reBad)
			return n
		case '{':
			p.bad(reUnknown)
			return n
		case '\\':
			if p.i+1 >= len(p.s) {
				p.bad(reBad)
				return n
			}
			d := p.s[p.i+1]
			if !strings.ContainsRune(`.*+?()[]{}|^$\`, d) {
				p.bad(reUnknown)
				return n
			}
			a = &reNode{k: 'c', c: d}
			p.i += 2
		default:
			a = &reNode{k: 'c', c: c}
			p.i++
		}
		if p.st != reOK {
			return n
		}
		if p.i < len(p.s) {
			switch q := p.s[p.i]; q {
			case '*', '+', '?':
				p.i++
				a = &reNode{k: byte(q), subs: []*reNode{a}}
				if p.i < len(p.s) && strings.ContainsRune("*+?{", p.s[p.i]) {
					p.bad(reUnknown) // lazy or double repeats
					return n
				}
			case '{':
				p.bad(reUnknown)
				return n
			}
		}
		n.subs = append(n.subs, a)
	}
	return n
}

func (p *reParser) class() *reNode {
	n := &reNode{k: '['}
	j := p.i + 1
	if j < len(p.s) && p.s[j] == '^' {
		n.neg = true
		j++
	}
	first := true
	for ; j < len(p.s) && (p.s[j] != ']' || first); j++ {
		c := p.s[j]
		first = false
		if c == '\\' || c == '[' || c == ']' || c == '-' || c == '&' || c == '^' {
			p.bad(reUnknown)
			return nil
		}
		if j+2 < len(p.s) && p.s[j+1] == '-' && p.s[j+2] != ']' {
			hi := p.s[j+2]
			if hi == '\\' || hi == '[' {
				p.bad(reUnknown)
				return nil
			}
			if hi < c {
				p.bad(reBad)
				return nil
			}
			n.set = append(n.set, c, hi)
			j += 2
			continue
		}
		n.set = append(n.set, c, c)
	}
	if j >= len(p.s) {
		p.bad(reBad)
		return nil
	}
	p.i = j + 1
	return n
}

func (n *reNode) search(s string) bool {
	r := []rune(s)
	for i := 0; i <= len(r); i++ {
		if len(n.ends(r, map[int]bool{i: true})) > 0 {
			return true
		}
	}
	return false
}

// ends are the positions a match that starts at one of the positions may end at.
func (n *reNode) ends(s []rune, at map[int]bool) map[int]bool {
	out := map[int]bool{}
	one := func(f func(rune) bool) {
		for i := range at {
			if i < len(s) && f(s[i]) {
				out[i+1] = true
			}
		}
	}
	switch n.k {
	case 'c':
		one(func(c rune) bool { return c == n.c })
	case '.':
		one(func(c rune) bool { return c != '\n' })
	case '[':
		one(func(c rune) bool {
			in := false
			for i := 0; i < len(n.set); i += 2 {
				in = in || c >= n.set[i] && c <= n.set[i+1]
			}
			return in != n.neg
		})
	case '^':
		if at[0] {
			out[0] = true
		}
	case '$':
		if at[len(s)] {
			out[len(s)] = true
		}
	case '&':
		out = at
		for _, x := range n.subs {
			out = x.ends(s, out)
		}
	case '|':
		for _, x := range n.subs {
			for i := range x.ends(s, at) {
				out[i] = true
			}
		}
	case '?', '*', '+':
		if n.k != '+' {
			for i := range at {
				out[i] = true
			}
		}
		cur := at
		for {
			grown := false
			next := n.subs[0].ends(s, cur)
			for i := range next {
				if !out[i] {
					out[i] = true
					grown = true
				}
			}
			if n.k == '?' || !grown {
				break
			}
			cur = next
		}
	}
	return out
}

// ------------------------------------------------- results
