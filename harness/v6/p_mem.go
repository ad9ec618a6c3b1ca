//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	identwalker "github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
)

func init() {
	props["C06"] = c06
}

// allocatedBytes are the bytes of the C heap in use, if they are known.
var allocatedBytes func() int64

// memOps runs everything that allocates C memory for a phrase, and releases it
// the documented way.
func memOps(s string, seed int64, count func(string)) {
	r := rand.New(rand.NewSource(seed))
	n, err := tsl.ParseTSL(s)
	if err != nil {
		_ = err.Error()
		count("syntax errors")
		return
	}
	count("trees")
	before := dumpNode(n)
	k := n.Clone()
	if d := dumpNode(k); d != before {
		panic(fmt.Sprintf("clone %s of %s", d, before))
	}
	if r.Intn(2) == 0 {
		n, k = k, n
	}
	n.Free()
	n.Free()
	if d := dumpNode(k); d != before {
		panic(fmt.Sprintf("after free of the other tree %s instead of %s", d, before))
	}
	mode := r.Intn(4)
	w, err := identwalker.Walk(k, func(name string) (string, error) {
		switch {
		case mode == 1 && r.Intn(3) == 0:
			return "", fmt.Errorf("no %s", name)
		case mode == 2 && r.Intn(3) == 0:
			return "a b", nil
		case mode == 3:
			return "(x + 1) = [y, 'z']", nil
		}
		return "t." + strings.Trim(name, "[]"), nil
	})
	if err == nil {
		count("walks")
		if r.Intn(2) == 0 {
			k, w = w, k
		}
		w.Free()
	} else {
		count("failed walks")
	}
	_, _ = semantics.Walk(k, func(string) (interface{}, bool) { return 1, true })
	// Take the tree apart, and put some of it together again.
	parts := []*tsl.TSLNode{k}
	for i := 0; i < 6; i++ {
		p := parts[r.Intn(len(parts))]
		var d *tsl.TSLNode
		switch r.Intn(3) {
		case 0:
			d = p.DetachLeft()
		case 1:
			d = p.DetachRight()
		case 2:
			d = p.DetachChild()
		}
		if d != nil {
			count("detached")
			parts = append(parts, d)
		}
	}
	for i := 0; i < 4 && len(parts) > 1; i++ {
		a, b := r.Intn(len(parts)), r.Intn(len(parts))
		if a == b {
			continue
		}
		var ok bool
		switch r.Intn(4) {
		case 0:
			ok = parts[a].AttachLeft(parts[b])
		case 1:
			ok = parts[a].AttachRight(parts[b])
		case 2:
			ok = parts[a].AttachChild(parts[b])
		case 3:
			ok = parts[a].AttachElement(r.Intn(3), parts[b])
		}
		if ok {
			count("attached")
			parts = append(parts[:b:b], parts[b+1:]...)
		}
	}
	for _, p := range parts {
		c := p.Clone()
		p.Free()
		c.Free()
	}
}

// c06: memory. It runs under the address sanitizer, or the undefined behaviour
// sanitizer, of the C compiler.
func c06(c *C) {
	g := newG(c.R)
	for b := c.N(1600, 40000); b > 0; b-- {
		type op struct {
			s    string
			seed int64
		}
		var batch []op
		for i := 0; i < 40; i++ {
			s, _ := g.hostile()
			switch c.R.Intn(12) {
			case 0:
				s = g.phrase(g.any(6), true)
			case 1:
				// errors in the middle of a long phrase, in lists, ranges and strings
				p := g.phrase(g.any(5), false)
				s = pick(c.R, []string{"[", "(", "a in [1, 'x', ", "a between ", "not (", "b = 'open and ", "a and [b, [c, "}) + p + pick(c.R, []string{"", ")", ", =", " and", " between 1", "\"", "]]", " @ 1"})
			case 2:
				if oneIn(c.R, 10) {
					s = strings.Repeat(pick(c.R, []string{"(", "[", "not ", "a + (", "[1, ", "- ", "a and (b, ", "'"}), 1+c.R.Intn(4000)) + s
				}
			case 3:
				if oneIn(c.R, 4) {
					s = "a = '" + strings.Repeat("x", 1+c.R.Intn(40000)) + "' " + pick(c.R, []string{"", "and", ")"})
				}
			}
			batch = append(batch, op{s, c.R.Int63()})
		}
		run := func(l []op, count bool) {
			for _, o := range l {
				if count {
					c.Begin("%s\n(seed %d)", o.s, o.seed)
					c.Distinct(o.s)
				}
				c.Guard("use of a tree", func() {
					memOps(o.s, o.seed, func(k string) {
						if count {
							c.Count(k)
						}
					})
				})
			}
		}
		run(batch, true)
		if len(batch[0].s) < 200 {
			c.Sample("%q", batch[0].s)
		}
		if allocatedBytes == nil {
			continue
		}
		// What was run once already, run again, takes no more memory.
		leaks := func(l []op) int64 {
			least := int64(1 << 62)
			for i := 0; i < 4; i++ {
				before := allocatedBytes()
				run(l, false)
				grown := allocatedBytes() - before
				if grown < least {
					least = grown
				}
				if grown <= 0 {
					break
				}
			}
			return least
		}
		c.Count("batches measured")
		if grown := leaks(batch); grown > 0 {
			for _, o := range batch {
				if one := leaks([]op{o}); one > 0 {
					c.Begin("%s\n(seed %d)", o.s, o.seed)
					c.Fail("memory that is released is released", "every use of %q leaks %d bytes", o.s, one)
				}
			}
			c.Fail("memory that is released is released", "every run of a batch leaks %d bytes", grown)
		}
	}
}
