//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

// The operators of the tree and their names in the model, the text of the
// operators is part of the interface: it is what JSON documents of trees hold.
var binOps = map[string]string{
	"$lt": "<", "$lte": "<=", "$gt": ">", "$gte": ">=", "$eq": "=", "$ne": "!=", "$regex": "~=", "$nregex": "~!",
	"$like": "like", "$ilike": "ilike", "$in": "in", "$nin": "nin", "$between": "between", "$nbetween": "nbetween",
	"$and": "and", "$or": "or", "$add": "+", "$subtract": "-", "$multiply": "*", "$divide": "/", "$modulo": "%",
}
var unOps = map[string]string{"$not": "not", "$nexists": "isnull", "$exists": "notnull"}

// goText is a time as the model of a timestamp has it.
func goText(t time.Time) string { return t.UTC().Format(time.RFC3339Nano) }

// rawTree is all of a tree, with the order of lists.
func rawTree(n tsl.Node) string { return fmt.Sprintf("%v", n) }

// fromNode reads a tree, every part of it has to have the documented form.
func fromNode(v interface{}) (*E, error) {
	n, ok := v.(tsl.Node)
	if !ok {
		return nil, fmt.Errorf("a node is %T", v)
	}
	noRight := func(e *E) (*E, error) {
		if n.Right != nil {
			return nil, fmt.Errorf("%s has a right side %v", n.Func, n.Right)
		}
		return e, nil
	}
	switch n.Func {
	case "$number":
		if f, ok := n.Left.(float64); ok {
			return noRight(num(f))
		}
	case "$string":
		if s, ok := n.Left.(string); ok {
			return noRight(str(s))
		}
	case "$ident":
		if s, ok := n.Left.(string); ok {
			return noRight(ident(s))
		}
	case "$boolean":
		if b, ok := n.Left.(bool); ok {
			return noRight(boolean(b))
		}
	case "$date":
		if t, ok := n.Left.(time.Time); ok {
			return noRight(ts(goText(t)))
		}
	case "$array":
		nn, ok := n.Right.([]tsl.Node)
		if !ok || n.Left != nil {
			return nil, fmt.Errorf("an array of %T and %T", n.Left, n.Right)
		}
		a := arr()
		for _, x := range nn {
			e, err := fromNode(x)
			if err != nil {
				return nil, err
			}
			a.A = append(a.A, e)
		}
		return a, nil
	}
	if op, ok := unOps[n.Func]; ok {
		r, err := fromNode(n.Left)
		if err != nil {
			return nil, err
		}
		return noRight(un(op, r))
	}
	if op, ok := binOps[n.Func]; ok {
		l, err := fromNode(n.Left)
		if err != nil {
			return nil, err
		}
		r, err := fromNode(n.Right)
		if err != nil {
			return nil, err
		}
		return bin(op, l, r), nil
	}
	return nil, fmt.Errorf("node %q of %T and %T", n.Func, n.Left, n.Right)
}

func dumpNode(n tsl.Node) string {
	e, err := fromNode(n)
	if err != nil {
		return "bad tree: " + err.Error()
	}
	return sortedIn(e).dump()
}

// sortedIn is a copy with the elements of IN lists in a canonical order: the
// order of the elements of a set is not a part of the tree's meaning.
func sortedIn(e *E) *E {
	n := e.clone()
	n.walk(func(x *E) {
		if x.K == "bin" && (x.Op == "in" || x.Op == "nin") && x.R.K == "array" {
			a := x.R.A
			keys := make(map[*E]string, len(a))
			for _, y := range a {
				keys[y] = y.dump()
			}
			sort.SliceStable(a, func(i, j int) bool { return keys[a[i]] < keys[a[j]] })
		}
	})
	return n
}

func canon(e *E) string { return sortedIn(e).dump() }

// mustParse parses a phrase of the model.
func mustParse(c *C, s string) tsl.Node {
	var n tsl.Node
	var err error
	c.Guard("ParseTSL", func() { n, err = tsl.ParseTSL(s) })
	if err != nil {
		c.Fail("a valid phrase is accepted", "%q: %v", s, err)
	}
	return n
}

// toNode builds a tree of the model without the parser.
func toNode(e *E) tsl.Node {
	switch e.K {
	case "num":
		return tsl.Node{Func: tsl.NumberOp, Left: e.Num}
	case "str":
		return tsl.Node{Func: tsl.StringOp, Left: e.S}
	case "ident":
		return tsl.Node{Func: tsl.IdentOp, Left: e.S}
	case "bool":
		return tsl.Node{Func: "$boolean", Left: e.B}
	case "ts":
		t, err := time.Parse(time.RFC3339Nano, e.S)
		if err != nil {
			panic(err)
		}
		return tsl.Node{Func: "$date", Left: t}
	case "array":
		nn := []tsl.Node{}
		for _, a := range e.A {
			nn = append(nn, toNode(a))
		}
		return tsl.Node{Func: tsl.ArrayOp, Right: nn}
	case "un":
		for f, op := range unOps {
			if op == e.Op {
				return tsl.Node{Func: f, Left: toNode(e.R)}
			}
		}
	case "bin":
		for f, op := range binOps {
			if op == e.Op {
				return tsl.Node{Func: f, Left: toNode(e.L), Right: toNode(e.R)}
			}
		}
	}
	panic(strings.Join([]string{"no node of", e.K, e.Op}, " "))
}
