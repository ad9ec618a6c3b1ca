//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
)

func init() {
	props["C05"] = c05
}

// observe runs everything there is on one phrase, and describes the results.
// pause is called between the steps.
func observe(s string, rc *rec, pause func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic %v", r)
		}
	}()
	n, err := tsl.ParseTSL(s)
	pause()
	if err != nil {
		return "error " + err.Error()
	}
	defer n.Free()
	return "tree " + dumpNode(n) + observeTree(n, rc, pause)
}

func observeTree(n *tsl.TSLNode, rc *rec, pause func()) string {
	var b strings.Builder
	v, err := semantics.Walk(n, rc.lookup)
	b.WriteString("\nvalue " + showRes(v, err))
	pause()
	k := n.Clone()
	pause()
	r, err := identwalker.Walk(k, func(s string) (string, error) {
		pause()
		if strings.HasPrefix(s, "zz") {
			return "", fmt.Errorf("no %s", s)
		}
		return "t." + strings.Map(func(r rune) rune {
			if strings.ContainsRune("[]*/-", r) {
				return '_'
			}
			return r
		}, s), nil
	})
	if err != nil {
		b.WriteString("\nident error " + err.Error())
	} else {
		b.WriteString("\nident " + dumpNode(r))
		r.Free()
	}
	pause()
	b.WriteString("\nclone " + dumpNode(k))
	k.Free()
	f, err := sql.Walk(n)
	if err == nil {
		var t string
		var a []interface{}
		t, a, err = f.ToSql()
		b.WriteString("\nsql " + t + " " + showArgs(a))
	}
	if err != nil {
		b.WriteString("\nsql error " + err.Error())
	}
	pause()
	j, err := json.Marshal(n)
	b.WriteString("\njson " + string(j) + showRes(nil, err))
	g, err := graphviz.Walk("", n, "root")
	if err == nil {
		var dg *dotGraph
		var t string
		dg, err = parseDot("digraph {" + g + "}")
		if err == nil {
			if err = dg.isTree("root"); err == nil {
				t, err = dotTree(dg, "root", 0)
			}
		}
		b.WriteString("\ndot " + t)
	}
	b.WriteString(showRes(nil, err))
	return b.String()
}

// c05: concurrent use gives the results of sequential use.
func c05(c *C) {
	g := newG(c.R)
	rounds := c.N(160, 3000)
	if c.Flavour == "race" || c.Flavour == "tsan" {
		rounds = c.N(96, 800)
	}
	for round := 0; round < rounds; round++ {
		rc := g.record()
		type job struct {
			s    string
			want string
			tree *tsl.TSLNode
		}
		var jobs []job
		for i := 0; i < 60; i++ {
			var s string
			switch c.R.Intn(6) {
			case 0:
				s, _ = g.hostile()
			case 1, 2:
				s = g.phrase(g.typed(rc, "bool", 3), true)
			case 3:
				s = g.phrase(g.any(5), false)
			case 4:
				s = g.phrase(g.sqlTree(4, "bool"), false)
			case 5:
				s = "(" + g.phrase(g.any(3), false) + " "
			}
			if strings.Contains(s, "nan") || strings.Contains(s, "1e400") {
				continue
			}
			jobs = append(jobs, job{s: s})
		}
		nop := func() {}
		for i := range jobs {
			c.Begin("sequential use of %s", jobs[i].s)
			jobs[i].want = observe(jobs[i].s, rc, nop)
			if again := observe(jobs[i].s, rc, nop); again != jobs[i].want {
				if strings.Contains(again, "0x") {
					jobs[i].s, jobs[i].want = "a", observe("a", rc, nop)
					continue
				}
				c.Fail("sequential use is deterministic", "%s gave\n%s\nand then\n%s", jobs[i].s, jobs[i].want, again)
			}
			if strings.HasPrefix(jobs[i].want, "panic") {
				c.Fail("no panic", "%s: %s", jobs[i].s, jobs[i].want)
			}
			if oneIn(c.R, 3) {
				if n, err := tsl.ParseTSL(jobs[i].s); err == nil {
					jobs[i].tree = n
				}
			}
		}
		workers := []int{2, 4, 8, 16}[c.R.Intn(4)]
		procs := []int{1, 2, 4, 8}[c.R.Intn(4)]
		old := runtime.GOMAXPROCS(procs)
		c.Begin("%d goroutines on %d processors, seed %d, shard %d, round %d", workers, procs, c.Seed, c.Shard, round)
		var wg sync.WaitGroup
		var inFlight, overlaps, maxIn, steps atomic.Int64
		running := make([]atomic.Int64, len(jobs))
		var mu sync.Mutex
		pairs := map[[2]int]bool{}
		var bad string
		start := make(chan bool)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(c.R.Int63()))
			go func() {
				defer wg.Done()
				pause := func() {
					steps.Add(1)
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
				<-start
				seen := map[[2]int]bool{}
				for k := 0; k < 40; k++ {
					i := r.Intn(len(jobs))
					now := inFlight.Add(1)
					if now > 1 {
						overlaps.Add(1)
						for j := range running {
							if j != i && running[j].Load() > 0 {
								seen[[2]int{i, j}] = true
							}
						}
					}
					for {
						m := maxIn.Load()
						if now <= m || maxIn.CompareAndSwap(m, now) {
							break
						}
					}
					running[i].Add(1)
					var got, want string
					if t := jobs[i].tree; t != nil && r.Intn(2) == 0 {
						// many readers of one tree
						func() {
							defer func() {
								if r := recover(); r != nil {
									got = fmt.Sprintf("panic %v", r)
								}
							}()
							got = "tree " + dumpNode(t) + observeTree(t, rc, pause)
						}()
						want = jobs[i].want
					} else {
						got, want = observe(jobs[i].s, rc, pause), jobs[i].want
					}
					running[i].Add(-1)
					inFlight.Add(-1)
					if got != want {
						mu.Lock()
						if bad == "" {
							bad = fmt.Sprintf("%q gave\n%s\ninstead of\n%s", jobs[i].s, got, want)
						}
						mu.Unlock()
						return
					}
				}
				mu.Lock()
				for p := range seen {
					pairs[p] = true
				}
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		runtime.GOMAXPROCS(old)
		if bad != "" {
			c.Fail("concurrent use gives the results of sequential use", "%s", bad)
		}
		c.Add("concurrent runs that overlapped another", int(overlaps.Load()))
		c.Add("pairs of phrases seen in flight together", len(pairs))
		c.Add("steps", int(steps.Load()))
		c.Count(fmt.Sprintf("rounds with %d goroutines", workers))
		if m := int64(c.counters["most in flight"]); maxIn.Load() > m {
			c.Add("most in flight", int(maxIn.Load()-m))
		}
		for p := range pairs {
			c.Distinct(jobs[p[0]].s + "\x00" + jobs[p[1]].s)
		}
		c.Sample("%d goroutines, %d overlaps, %d distinct pairs in flight, e.g. %q", workers, overlaps.Load(), len(pairs), jobs[0].s)
		for i := range jobs {
			if jobs[i].tree != nil {
				jobs[i].tree.Free()
			}
		}
		if round%2 == 0 {
			c05storm(c, g)
		}
	}
}

// evaluate is the part of observeTree that uses only Go code and the accessors of a tree.
func evaluate(n *tsl.TSLNode, rc *rec) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic %v", r)
		}
	}()
	v, err := semantics.Walk(n, rc.lookup)
	out = showRes(v, err)
	f, err := sql.Walk(n)
	if err != nil {
		return out + " " + err.Error()
	}
	t, a, err := f.ToSql()
	return out + " " + t + showArgs(a) + showRes(nil, err)
}

// c05storm evaluates shared trees in goroutines that share nothing else and do nothing
// that orders them: no lock, channel or atomic of this monitor hides a race. The trees
// were not evaluated before, their results alone come after.
func c05storm(c *C, g *G) {
	type job struct {
		s    string
		tree *tsl.TSLNode
	}
	rc := g.record()
	var jobs []job
	for len(jobs) < 40 {
		var s string
		if oneIn(c.R, 4) {
			s = fmt.Sprintf("%s %s %s", g.phrase(g.field(rc, pick(c.R, []string{"str", "astr"})), false), pick(c.R, []string{"~=", "~!", "like", "ilike"}), pick(c.R, []string{"'a.*'", "'^[a-c]+$'", "'%b%'", "'x|y'", "'B_'", "''"}))
		} else {
			s = g.phrase(g.typed(rc, "bool", 3), true)
		}
		if n, err := tsl.ParseTSL(s); err == nil {
			jobs = append(jobs, job{s, n})
		}
	}
	type span struct{ from, to time.Time }
	const workers = 8
	got := make([][]string, workers)
	spans := make([][]span, workers)
	order := make([][]int, workers)
	for w := range got {
		order[w] = c.R.Perm(len(jobs))
		got[w] = make([]string, len(jobs))
		spans[w] = make([]span, len(jobs))
	}
	c.Begin("%d goroutines that evaluate shared trees, seed %d, shard %d", workers, c.Seed, c.Shard)
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for _, i := range order[w] {
				spans[w][i].from = time.Now()
				if w%4 == 0 {
					n, err := tsl.ParseTSL(jobs[i].s)
					if err != nil {
						got[w][i] = err.Error()
						continue
					}
					got[w][i] = evaluate(n, rc)
					n.Free()
				} else {
					got[w][i] = evaluate(jobs[i].tree, rc)
				}
				spans[w][i].to = time.Now()
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for i, j := range jobs {
		want := evaluate(j.tree, rc)
		for w := range got {
			if got[w][i] != want && !strings.Contains(want, "0x") {
				c.Fail("concurrent evaluation gives the results of sequential evaluation", "%q gave\n%s\ninstead of\n%s", j.s, got[w][i], want)
			}
		}
		j.tree.Free()
	}
	n := 0
	for w := range spans {
		for v := 0; v < w; v++ {
			for i := range jobs {
				for k := range jobs {
					if spans[w][i].from.Before(spans[v][k].to) && spans[v][k].from.Before(spans[w][i].to) {
						n++
					}
				}
			}
		}
	}
	c.Add("evaluations in goroutines that nothing orders", workers*len(jobs))
	c.Add("pairs of them that overlapped", n)
}
