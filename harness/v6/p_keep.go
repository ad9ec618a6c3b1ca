//go:build go1.21

package main

import (
	"fmt"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"gopkg.in/yaml.v3"
)

func init() { props["C19"] = c19 }

// c19: what was used is released.
func c19(c *C) {
	g := newG(c.R)
	nop := func() {}
	rounds := c.N(56, 600)
	for round := 0; round < rounds; round++ {
		rc := g.record()
		phrase := func() string {
			s := ""
			for s == "" || len(s) > 600 {
				e := g.any(1 + c.R.Intn(4))
				if oneIn(c.R, 2) {
					e = g.typed(rc, pick(c.R, []string{"bool", "num", "str", "date"}), 1+c.R.Intn(3))
				}
				s = g.phrase(e, false)
			}
			return s
		}
		kind := (round + c.Shard) % 7
		uses := 3000
		var seen int
		use := func(i int) {}
		name := ""
		switch kind {
		case 0:
			name = "phrases that are parsed, and every walker"
			uses = 1500
			use = func(i int) {
				if strings.HasPrefix(observe(phrase(), rc, nop), "tree") {
					seen++
				}
			}
		case 1:
			name = "texts that are no phrase"
			use = func(i int) {
				s, _ := g.hostile()
				if len(s) > 600 {
					s = s[:600]
				}
				n, err := tsl.ParseTSL(s)
				if err != nil {
					_ = err.Error()
					seen++
					return
				}
				n.Free()
			}
		case 2:
			name = "edited trees"
			use = func(i int) {
				memOps(phrase(), c.R.Int63(), func(string) { seen++ })
			}
		case 3:
			name = "one tree, walked again and again"
			n, err := tsl.ParseTSL(phrase())
			if err != nil {
				continue
			}
			use = func(i int) {
				if i%50 == 0 {
					rc = g.record()
				}
				observeTree(n, rc, nop)
				seen++
			}
			uses = 2000
			defer n.Free()
		case 4:
			name = "documents of trees"
			uses = 1500
			use = func(i int) {
				n, err := tsl.ParseTSL(phrase())
				if err != nil {
					return
				}
				if _, err := yaml.Marshal(n); err == nil {
					seen++
				}
				n.Free()
			}
		case 5:
			name = "long phrases"
			uses = 120
			unit := pick(c.R, []string{"a = 1 and ", "a + ", "not ", "(a) or "})
			use = func(i int) {
				s := strings.Repeat(unit, 900+c.R.Intn(100)) + fmt.Sprintf("b%d", c.R.Int63())
				n, err := tsl.ParseTSL(s)
				if err != nil {
					return
				}
				k := n.Clone()
				n.Free()
				k.Free()
				seen++
			}
		case 6:
			name = "patterns and values that are all new"
			use = func(i int) {
				op := pick(c.R, []string{"like '%%%s_'", "ilike '%s%%'", "~= '^%s.*'", "~! '%s$'", "= '%s'", "in ['%s', 'x']"})
				v := map[string]interface{}{"s": fmt.Sprintf("w%x", c.R.Int63())}
				if oneIn(c.R, 4) {
					v["s"] = []interface{}{v["s"], "x"}
				}
				begin, end := pick(c.R, []string{"s ", "any (s ", "not (s "}), ""
				if strings.Contains(begin, "(") {
					end = ")"
				}
				n, err := tsl.ParseTSL(begin + fmt.Sprintf(op, fmt.Sprintf("w%x", c.R.Int63())) + end)
				if err != nil {
					return
				}
				observeTree(n, &rec{vals: v}, nop)
				n.Free()
				seen++
			}
		}
		c.Guard(name, func() { keepsNothing(c, name, uses, 4, use) })
		if seen == 0 {
			c.Fail("the workload is what it says", "%s: no use", name)
		}
		c.Add("uses: "+name, seen)
		c.Distinct(fmt.Sprint(c.Shard, round, name))
	}
}
