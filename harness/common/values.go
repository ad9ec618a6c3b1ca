//go:build go1.21

package main

import (
	"math"
	"math/rand"
	"time"
)

// freshValues makes the values that a record and the
// phrases about it share, so they are equal, or nearly so, often enough.
func freshValues(r *rand.Rand) (nums []float64, vwords, dates, stamps []string) {
	for i := 0; i < 2; i++ {
		var x float64
		switch r.Intn(7) {
		case 0:
			x = float64(int64(1)<<uint(r.Intn(62))) + float64(r.Intn(3)-1)
		case 1:
			x = float64(r.Int63n(1000000000000))
		case 2:
			x = float64(r.Intn(100000)) / 1000
		case 3:
			x = float64(r.Intn(1000))
		case 4:
			x = math.Ldexp(r.Float64(), r.Intn(200)-100)
		case 5:
			x = float64(r.Intn(1 << 20))
		case 6:
			x = math.Pow(10, float64(r.Intn(30)-10))
		}
		if oneIn(r, 4) {
			x = -x
		}
		nums = append(nums, x)
	}
	nums = append(nums, pick(r, []float64{nums[0] + 1, -nums[0], math.Nextafter(nums[1], 0), nums[1] * 2, nums[0] + .5}))
	const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _%-.éßДж日"
	runes := []rune(letters)
	for i := 0; i < 2; i++ {
		n := r.Intn(12)
		if oneIn(r, 12) {
			n = bigSize(r, 300)
		}
		w := make([]rune, n)
		for k := range w {
			w[k] = runes[r.Intn(len(runes))]
		}
		vwords = append(vwords, string(w))
	}
	if w := []rune(vwords[0]); len(w) > 0 {
		// one letter apart
		w[r.Intn(len(w))] = runes[r.Intn(len(runes))]
		vwords = append(vwords, string(w), string(w[:len(w)-1]))
	}
	for i := 0; i < 2; i++ {
		t := time.Date(1600+r.Intn(900), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		if oneIn(r, 12) {
			t = time.Date(pick(r, []int{1, 2, 99, 999, 9998}), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
		}
		if oneIn(r, 6) {
			t = time.Date(pick(r, []int{1900, 2000, 2024, 1972, 2400}), 2, 28+r.Intn(2), 23, 59, 59, 0, time.UTC)
		}
		if oneIn(r, 2) {
			t = t.Add(time.Duration(r.Intn(1000)) * pick(r, []time.Duration{1, time.Microsecond, time.Millisecond}))
		}
		dates = append(dates, t.Format("2006-01-02"))
		z := time.FixedZone("", 60*pick(r, []int{0, 0, 60, -60, 330, -570, 840, -720, 345, 1}))
		stamps = append(stamps, t.Format(time.RFC3339Nano), t.In(z).Format(time.RFC3339Nano),
			t.Add(pick(r, []time.Duration{1, -1, time.Second, time.Minute, 24 * time.Hour})).In(z).Format(time.RFC3339Nano), t.Format("2006-01-02T00:00:00Z"))
	}
	return
}
