//go:build go1.21

package main

// V is the version of the module under test.
const V = 5
