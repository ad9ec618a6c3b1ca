//go:build go1.21

package main

/*
#include <malloc.h>
#include <stdlib.h>

// One arena, the statistics are those of the first.
static void one_arena(void) { mallopt(M_ARENA_MAX, 1); }

static size_t in_use(void)
{
	struct mallinfo2 m = mallinfo2();
	return m.uordblks + m.hblkhd;
}
*/
import "C"

func init() {
	C.one_arena()
	nativeHeap = func() int64 { return int64(C.in_use()) }
}
