//go:build go1.21

package main

/*
#include <stddef.h>
extern size_t __sanitizer_get_current_allocated_bytes(void);
*/
import "C"

func init() {
	allocatedBytes = func() int64 { return int64(C.__sanitizer_get_current_allocated_bytes()) }
}
