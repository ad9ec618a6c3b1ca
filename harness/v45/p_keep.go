//go:build go1.21

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

func init() { props["C37"] = c37 }

// fresh is a phrase of the same tokens with new names and values: the tables of
// the parser, which grow with the sequences of tokens it has seen, know it.
func (g *G) freshen(e *E, names bool) *E {
	n := e.clone()
	n.walk(func(x *E) {
		x.Text = ""
		switch x.K {
		case "ident":
			if !names {
				return
			}
			x.S = "q" + strings.Repeat("x", g.r.Intn(3)) + fmt.Sprint(g.r.Intn(1000000000))
		case "str":
			x.S = fmt.Sprintf("w%x", g.r.Int63())
		case "num":
			f := float64(g.r.Intn(1 << 30))
			if x.Num < 0 {
				f = -f - 1
			}
			x.Num = f
		case "ts":
			x.S = goText(time.Unix(g.r.Int63n(4e9), 0))
		}
	})
	return n
}

// c37: what was used is released.
func c37(c *C) {
	g := newG(c.R)
	ev := &evalG{G: g}
	nop := func() {}
	rounds := c.N(32, 300)
	for round := 0; round < rounds; round++ {
		ev.fresh()
		rec := ev.record()
		var templates []*E
		var cuts []int
		for len(templates) < 40 {
			e := g.cond(c.R.Intn(4))
			if oneIn(c.R, 2) {
				e = ev.logic(c.R.Intn(3))
			}
			if e.size() < 60 {
				templates = append(templates, e)
				cuts = append(cuts, c.R.Intn(1000))
			}
		}
		seen := 0
		use := func(i int) {}
		name := ""
		uses := 3000
		switch kind := (round + c.Shard) % 4; kind {
		case 0:
			name = "phrases that are parsed, and every walker"
			uses = 1600
			use = func(i int) {
				if _, _, ok := observe(g.phrasePlain(g.freshen(templates[i%len(templates)], i%len(templates)%2 == 0)), rec, nop); ok {
					seen++
				}
			}
		case 1:
			name = "texts that are no phrase"
			use = func(i int) {
				f := strings.Fields(g.phrasePlain(g.freshen(templates[i%len(templates)], i%len(templates)%2 == 0)))
				s := strings.Join(f[:cuts[i%len(templates)]%len(f)], " ") + " and"
				if _, err := tsl.ParseTSL(s); err != nil {
					_ = err.Error()
					seen++
				}
			}
		case 2:
			name = "one tree, walked again and again"
			n, err := tsl.ParseTSL(g.phrasePlain(templates[0]))
			if err != nil {
				continue
			}
			use = func(i int) {
				if i%50 == 0 {
					rec = ev.record()
				}
				observeTree(n, rec, nop)
				seen++
			}
		case 3:
			name = "patterns and values that are all new"
			ops := []string{"like '%%%s_'", "ilike '%s%%'", "~= '^%s.*'", "~! '%s$'", "= '%s'", "in ('%s', 'x')"}
			use = func(i int) {
				n, err := tsl.ParseTSL("s " + fmt.Sprintf(ops[i%len(ops)], fmt.Sprintf("w%x", c.R.Int63())))
				if err != nil {
					return
				}
				observeTree(n, map[string]interface{}{"s": "some text"}, nop)
				seen++
			}
		}
		c.Guard(name, func() { keepsNothing(c, name, uses, 4, use) })
		if seen == 0 {
			c.Fail("the workload is what it says", "%s: no use", name)
		}
		c.Add("uses: "+name, seen)
		c.Distinct(fmt.Sprint(V, c.Shard, round, name))
	}
}
