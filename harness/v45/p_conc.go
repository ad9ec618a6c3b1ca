//go:build go1.21

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
)

func init() { props["C26"] = c26 }

// observe runs everything there is on one phrase and describes the results.
func observe(s string, rec map[string]interface{}, pause func()) (out string, n tsl.Node, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic %v", r)
		}
	}()
	n, err := tsl.ParseTSL(s)
	pause()
	if err != nil {
		return "error " + err.Error(), n, false
	}
	return observeTree(n, rec, pause), n, true
}

func observeTree(n tsl.Node, rec map[string]interface{}, pause func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic %v", r)
		}
	}()
	var b strings.Builder
	fmt.Fprintf(&b, "tree %s", dumpNode(n))
	v, err := semantics.Walk(n, func(k string) (interface{}, bool) {
		x, ok := rec[k]
		return x, ok
	})
	fmt.Fprintf(&b, "\nvalue %v %v", v, err)
	pause()
	r, err := identwalker.Walk(n, func(s string) (string, error) {
		pause()
		if strings.HasPrefix(s, "z") {
			return "", errors.New("no " + s)
		}
		return "t." + s, nil
	})
	if err != nil {
		fmt.Fprintf(&b, "\nident error %v", err)
	} else {
		fmt.Fprintf(&b, "\nident %s", dumpNode(r))
	}
	pause()
	f, err := sql.Walk(n)
	if err == nil {
		var t string
		var a []interface{}
		t, a, err = f.ToSql()
		// the order of the elements of lists is free
		fmt.Fprintf(&b, "\nsql %s %d", t, len(a))
	}
	fmt.Fprintf(&b, "\nsql error %v", err)
	pause()
	d, err := mongo.Walk(n)
	fmt.Fprintf(&b, "\nmongo %d %v", len(d), err)
	j, err := json.Marshal(n)
	var e *E
	if err == nil {
		if e, err = readJSON(j); err == nil {
			fmt.Fprintf(&b, "\njson %s", utc(e))
		}
	}
	fmt.Fprintf(&b, "\njson error %v", err)
	pause()
	g, err := graphviz.Walk("", n, "root")
	if err == nil {
		if e, err = readDot("digraph {"+g+"}", "root"); err == nil {
			fmt.Fprintf(&b, "\ndot %s", utc(e))
		}
	}
	fmt.Fprintf(&b, "\ndot error %v", err)
	return b.String()
}

// c26: concurrent use gives the results of sequential use.
func c26(c *C) {
	g := newG(c.R)
	ev := &evalG{G: newG(c.R)}
	rounds := c.N(400, 8000)
	if c.Flavour == "race" {
		rounds = c.N(240, 2000)
	}
	type job struct {
		s      string
		mu     sync.Mutex
		got    map[string]bool
		tree   tsl.Node
		parsed bool
	}
	for round := 0; round < rounds; round++ {
		ev.fresh()
		rec := ev.record()
		var jobs []*job
		for i := 0; i < 40; i++ {
			var s string
			switch c.R.Intn(6) {
			case 0, 1:
				s, _ = g.hostile()
			case 2, 3:
				s = ev.phrase(ev.logic(c.R.Intn(4)))
			default:
				s = g.phrase(g.cond(c.R.Intn(5)))
			}
			if strings.Contains(s, "1e999") {
				continue
			}
			j := &job{s: s, got: map[string]bool{}}
			// The others are parsed by many goroutines before they are parsed by one:
			// the tables of the parser grow while they are read.
			if oneIn(c.R, 3) {
				if n, err := tsl.ParseTSL(s); err == nil {
					j.tree, j.parsed = n, true
				}
			}
			jobs = append(jobs, j)
		}
		workers := pick(c.R, []int{2, 4, 8, 16})
		old := runtime.GOMAXPROCS(pick(c.R, []int{1, 2, 4, 8}))
		c.Begin("%d goroutines, seed %d, shard %d, round %d", workers, c.Seed, c.Shard, round)
		var wg sync.WaitGroup
		var inFlight, overlaps, runs atomic.Int64
		running := make([]atomic.Int64, len(jobs))
		var mu sync.Mutex
		pairs := map[[2]int]bool{}
		start := make(chan bool)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(c.R.Int63()))
			go func() {
				defer wg.Done()
				pause := func() {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
				}
				seen := map[[2]int]bool{}
				<-start
				for k := 0; k < 25; k++ {
					i := r.Intn(len(jobs))
					j := jobs[i]
					if inFlight.Add(1) > 1 {
						overlaps.Add(1)
						for x := range running {
							if x != i && running[x].Load() > 0 {
								seen[[2]int{i, x}] = true
							}
						}
					}
					running[i].Add(1)
					runs.Add(1)
					var got string
					if j.parsed && r.Intn(2) == 0 {
						got = observeTree(j.tree, rec, pause)
					} else {
						got, _, _ = observe(j.s, rec, pause)
					}
					running[i].Add(-1)
					inFlight.Add(-1)
					j.mu.Lock()
					j.got[got] = true
					j.mu.Unlock()
				}
				mu.Lock()
				for p := range seen {
					pairs[p] = true
				}
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		runtime.GOMAXPROCS(old)
		nop := func() {}
		for _, j := range jobs {
			c.Begin("alone after %d goroutines: %.2000q", workers, j.s)
			want, _, _ := observe(j.s, rec, nop)
			if strings.HasPrefix(want, "panic") {
				c.Fail("no panic", "%q: %s", j.s, want)
			}
			for got := range j.got {
				if got != want {
					c.Fail("concurrent use gives the results of sequential use", "%q gave\n%s\ninstead of\n%s", j.s, got, want)
				}
			}
		}
		c.Add("concurrent runs", int(runs.Load()))
		c.Add("runs that overlapped another", int(overlaps.Load()))
		c.Add("pairs of phrases seen in flight together", len(pairs))
		c.Count(fmt.Sprintf("rounds with %d goroutines", workers))
		for p := range pairs {
			c.Distinct(jobs[p[0]].s + "\x00" + jobs[p[1]].s)
		}
		c.Sample("%d goroutines, %d overlaps, %d distinct pairs in flight, e.g. %q", workers, overlaps.Load(), len(pairs), jobs[0].s)
		if round%2 == 0 {
			c26storm(c, g, ev)
		}
	}
}

// evaluate uses a tree without anything that orders goroutines.
func evaluate(n tsl.Node, rec map[string]interface{}) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic %v", r)
		}
	}()
	v, err := semantics.Walk(n, func(k string) (interface{}, bool) {
		x, ok := rec[k]
		return x, ok
	})
	out = fmt.Sprint(v, err)
	f, err := sql.Walk(n)
	if err == nil {
		var t string
		var a []interface{}
		t, a, err = f.ToSql()
		out += fmt.Sprint(t, len(a))
	}
	out += fmt.Sprint(err)
	d, err := mongo.Walk(n)
	return out + fmt.Sprint(len(d), err)
}

// c26storm evaluates shared trees, and parses, in goroutines that no lock, channel or
// atomic of this monitor orders. The results alone come after.
func c26storm(c *C, g *G, ev *evalG) {
	type job struct {
		s    string
		tree tsl.Node
	}
	ev.fresh()
	rec := ev.record()
	var jobs []job
	for len(jobs) < 30 {
		s := ev.phrase(ev.logic(c.R.Intn(3)))
		if oneIn(c.R, 4) {
			s = ev.phrase(bin(pick(c.R, []string{"~=", "~!", "like", "ilike"}), ev.fieldOf("str"), str(pick(c.R, []string{"a.*", "^[a-c]+$", "%b%", "x|y", "B_"}))))
		}
		if n, err := tsl.ParseTSL(s); err == nil {
			jobs = append(jobs, job{s, n})
		}
	}
	type span struct{ from, to time.Time }
	const workers = 8
	got := make([][]string, workers)
	spans := make([][]span, workers)
	order := make([][]int, workers)
	for w := range got {
		order[w] = c.R.Perm(len(jobs))
		got[w] = make([]string, len(jobs))
		spans[w] = make([]span, len(jobs))
	}
	c.Begin("%d goroutines that evaluate shared trees, seed %d, shard %d", workers, c.Seed, c.Shard)
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for _, i := range order[w] {
				spans[w][i].from = time.Now()
				n := jobs[i].tree
				if w%4 == 0 {
					var err error
					if n, err = tsl.ParseTSL(jobs[i].s); err != nil {
						got[w][i] = err.Error()
						continue
					}
				}
				got[w][i] = evaluate(n, rec)
				spans[w][i].to = time.Now()
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for i, j := range jobs {
		want := evaluate(j.tree, rec)
		for w := range got {
			if got[w][i] != want {
				c.Fail("concurrent evaluation gives the results of sequential evaluation", "%q gave\n%s\ninstead of\n%s", j.s, got[w][i], want)
			}
		}
	}
	n := 0
	for w := range spans {
		for v := 0; v < w; v++ {
			for i := range jobs {
				for k := range jobs {
					if spans[w][i].from.Before(spans[v][k].to) && spans[v][k].from.Before(spans[w][i].to) {
						n++
					}
				}
			}
		}
	}
	c.Add("evaluations in goroutines that nothing orders", workers*len(jobs))
	c.Add("pairs of them that overlapped", n)
}
