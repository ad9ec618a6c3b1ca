//go:build go1.21

// Package main is the worker of the /verif checks.
//
// It is compiled into the module under test (go build -overlay), it runs the
// real code under generated workloads and observes it through oracles that do
// not share code with it.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C is the context of one worker process, one shard of a check.
type C struct {
	Prop, Tier, Flavour string
	Seed                int64
	Shard, Shards       int
	R                   *rand.Rand

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []string
	known    map[string]bool

	journal   []byte
	caseStart atomic.Int64
	caseNo    int64
	cur       string
	out       string
	args      map[string]string
}

type violation struct {
	Prop   string `json:"property"`
	Clause string `json:"clause"`
	Detail string `json:"detail"`
	Case   string `json:"case"`
	CaseNo int64  `json:"case_no"`
	Stack  string `json:"stack,omitempty"`
}

type result struct {
	OK        bool             `json:"ok"`
	Violation *violation       `json:"violation,omitempty"`
	Evals     int64            `json:"evaluations"`
	Distinct  int              `json:"distinct"`
	Counters  map[string]int64 `json:"counters"`
	Samples   []string         `json:"samples"`
	Known     []string         `json:"known"`
}

const journalSize = 1 << 20

// props are the properties decided by this worker.
var props = map[string]func(c *C){}

// caseLimit is the generous limit of a single case (they take micro or milli
// seconds), a case that passes it did not terminate.
var caseLimit = 150 * time.Second

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	out := flag.String("out", "", "result file")
	journal := flag.String("journal", "", "journal file")
	flavour := flag.String("flavour", "plain", "build flavour")
	arg := flag.String("arg", "", "k=v,k=v")
	flag.Parse()

	f, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}

	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", *prop, *seed, *shard)
	c := &C{Prop: *prop, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards, Flavour: *flavour,
		R:        rand.New(rand.NewSource(int64(h.Sum64() >> 1))),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, known: map[string]bool{}, out: *out,
		args: map[string]string{}}
	for _, kv := range strings.Split(*arg, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			c.args[kv[:i]] = kv[i+1:]
		}
	}

	// Half of the workers, and the commands they start, are not in the time
	// zone of the dates.
	os.Setenv("TZ", "UTC")
	if *shard%2 == 1 {
		os.Setenv("TZ", "Asia/Kolkata")
		if l, err := time.LoadLocation("Asia/Kolkata"); err == nil {
			time.Local = l
		} else {
			time.Local = time.FixedZone("IST", 5*3600+1800)
		}
	}

	if *journal != "" {
		fd, err := os.OpenFile(*journal, os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			panic(err)
		}
		if err = fd.Truncate(journalSize); err != nil {
			panic(err)
		}
		c.journal, err = syscall.Mmap(int(fd.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
	}

	debug.SetMaxStack(1 << 30)
	go c.watchdog()
	c.caseStart.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(runtime.Error); ok || inLibrary(debug.Stack()) {
					// The code under test panicked, or gave a value of a form that
					// it never has. The journal holds the case.
					c.finish(&violation{Prop: c.Prop, Clause: "no panic, and results have their documented form", Detail: clip(fmt.Sprint(r), 4000),
						Case: clip(c.cur, 20000), CaseNo: c.caseNo, Stack: clip(string(debug.Stack()), 6000)})
				}
				// Any other panic out of a Guard is a failure of the worker, not a verdict.
				fmt.Fprintf(os.Stderr, "WORKER-PANIC case %d %s: %v\n%s\n", c.caseNo, c.cur, r, debug.Stack())
				os.Exit(3)
			}
		}()
		f(c)
	}()
	c.finish(nil)
}

// inLibrary tells that a panic started in the packages under test.
func inLibrary(stack []byte) bool {
	s := string(stack)
	if i := strings.LastIndex(s, "\npanic("); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.Index(s, "\nmain."); i >= 0 {
		s = s[:i]
	}
	return strings.Contains(s, "/tree-search-language/")
}

func (c *C) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		if time.Now().UnixNano()-c.caseStart.Load() > int64(caseLimit) {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "%s\n", buf[:n])
			os.Exit(4)
		}
	}
}

func (c *C) finish(v *violation) {
	c.mu.Lock()
	r := result{OK: v == nil, Violation: v, Evals: c.evals, Distinct: len(c.distinct), Counters: c.counters, Samples: c.samples}
	for k := range c.known {
		r.Known = append(r.Known, k)
	}
	sort.Strings(r.Known)
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if c.out != "" {
		if err := os.WriteFile(c.out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		// The distinct keys, so shards can be merged.
		keys := make([]byte, 0, 8*len(c.distinct))
		for k := range c.distinct {
			keys = binary.LittleEndian.AppendUint64(keys, k)
		}
		_ = os.WriteFile(c.out+".keys", keys, 0644)
	} else {
		fmt.Printf("%s\n", b)
	}
	if v != nil {
		os.Exit(1)
	}
	os.Exit(0)
}

// Begin starts a case, what is the input of the case, it is journaled so it is
// known if the case kills the process.
func (c *C) Begin(format string, a ...interface{}) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	c.mu.Lock()
	c.evals++
	c.caseNo++
	c.cur = s
	if c.journal != nil {
		h := fmt.Sprintf("%d %d\n", c.caseNo, len(s))
		n := copy(c.journal, h)
		copy(c.journal[n:], s)
	}
	c.mu.Unlock()
	c.caseStart.Store(time.Now().UnixNano())
}

// Fail reports a violation and ends the process.
func (c *C) Fail(clause, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	c.finish(&violation{Prop: c.Prop, Clause: clause, Detail: d, Case: clip(c.cur, 20000), CaseNo: c.caseNo})
}

// Guard runs code under test, a panic of the code under test is a violation.
func (c *C) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.finish(&violation{Prop: c.Prop, Clause: "no panic", Detail: clip(fmt.Sprintf("%s panicked: %v", what, r), 4000),
				Case: clip(c.cur, 20000), CaseNo: c.caseNo, Stack: clip(string(debug.Stack()), 6000)})
		}
	}()
	f()
}

// Distinct counts a distinct non trivial case.
func (c *C) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.mu.Lock()
	c.distinct[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Count counts an observed event.
func (c *C) Count(k string) { c.Add(k, 1) }

// Add counts observed events.
func (c *C) Add(k string, n int) {
	c.mu.Lock()
	c.counters[k] += int64(n)
	c.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (c *C) Sample(format string, a ...interface{}) {
	if len(c.samples) < 6 {
		c.samples = append(c.samples, clip(fmt.Sprintf(format, a...), 400))
	}
}

// N is the number of cases of this shard.
func (c *C) N(quick, thorough int) int {
	n := quick
	if c.Tier == "thorough" {
		n = thorough
	}
	if c.Flavour == "race" || c.Flavour == "asan" || c.Flavour == "tsan" {
		n /= 2
	}
	return (n + c.Shards - 1) / c.Shards
}

// Mine tells whether case i of a list that is shared by all the shards is of this shard.
func (c *C) Mine(i int) bool { return i%c.Shards == c.Shard }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

func oneIn(r *rand.Rand, n int) bool { return r.Intn(n) == 0 }

// bigSize is a length around the sizes where buffers, limits and fast paths change.
func bigSize(r *rand.Rand, max int) int {
	n := pick(r, []int{16, 20, 24, 32, 40, 48, 50, 64, 80, 100, 128, 200, 250, 255, 256, 500, 512, 1000, 1024, 2048, 4096}) + r.Intn(4) - 1
	for n > max {
		n /= 2
	}
	return n
}

// listLen is the length of a list: short, sometimes long, and rarely very long.
func listLen(r *rand.Rand, n int) int {
	switch {
	case oneIn(r, 4000):
		return pick(r, []int{500, 1000, 1024, 2000, 4096}) + r.Intn(4) - 1
	case oneIn(r, 50):
		return bigSize(r, 200)
	}
	return r.Intn(n)
}

// invisible are characters that look like a space or like nothing but are no
// space of the languages.
var invisible = []string{"\ufeff", "\ufeff", "\u00a0", "\u200b", "\u2028", "\u3000", "\u0085", "\u200d", "\x1f", "\x1c", "\x7f", "\xef\xbb", "\xc2", "\xfe\xff", "\x1a", "\x04", "\x1b[0m"}
