//go:build go1.21

package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// nativeHeap are the bytes the C heap has in use, when there is one.
var nativeHeap func() int64

// held is what a process keeps.
func held() map[string]int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	h := map[string]int64{"Go heap bytes": int64(m.HeapAlloc), "goroutines": int64(runtime.NumGoroutine())}
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		h["open files"] = int64(len(l))
	}
	if nativeHeap != nil {
		h["C heap bytes"] = nativeHeap()
	}
	return h
}

// keepsNothing runs epochs of n uses, after some that fill the caches and pools
// there are. What grows in every epoch, by more than perUse bytes for each
// use, or by one goroutine or file for each 100 uses, is kept for ever.
func keepsNothing(c *C, what string, n int, perUse int64, use func(i int)) {
	// the watchdog stays alive, a case is an epoch
	epoch := func(k int) {
		for i := 0; i < n; i++ {
			if i%500 == 0 {
				c.Begin("%s: uses %d to %d of epoch %d", what, i, i+500, k)
			}
			use(i)
		}
		// goroutines that are about to end
		for i := 0; i < 50 && runtime.NumGoroutine() > 3; i++ {
			time.Sleep(time.Millisecond)
		}
	}
	epoch(0)
	epoch(1)
	before := held()
	least := map[string]int64{}
	var log []string
	const epochs = 5
	for k := 0; k < epochs; k++ {
		epoch(k + 2)
		after := held()
		for key, v := range after {
			grown := v - before[key]
			if old, ok := least[key]; !ok || grown < old {
				least[key] = grown
			}
		}
		log = append(log, fmt.Sprint(after))
		before = after
		c.Add("uses measured", n)
		if least["Go heap bytes"] <= 0 && least["C heap bytes"] <= 0 && least["goroutines"] <= 0 && least["open files"] <= 0 {
			break
		}
	}
	c.Count("measurements")
	var keys []string
	for k := range least {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		limit := int64(n)*perUse + 8192
		if k == "C heap bytes" {
			limit = 256
		}
		if !strings.HasSuffix(k, "bytes") {
			limit = int64(n) / 100
		}
		if least[k] > limit {
			c.Fail("what was used is released", "%s: the %s grow by at least %d in every %d uses\n%s", what, k, least[k], n, strings.Join(log, "\n"))
		}
	}
	c.Sample("%s: %d uses in an epoch, least growth %v", what, n, least)
}
