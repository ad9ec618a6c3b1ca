//go:build go1.21

package main

import (
	"encoding/json"
	"errors"
	"math"
	"regexp"
	"strings"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	identwalker "github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
)

func init() { props["C35"] = c35 }

// joined is a tree that was parsed, mapped or joined, and its model.
type joined struct {
	e   *E
	n   tsl.Node
	raw string
	how string
}

// c35: trees that are joined in code are the joined condition.
func c35(c *C) {
	g := &evalG{G: newG(c.R)}
	g.plain = true
	for n := c.N(48, 1200); n > 0; n-- {
		c35chain(c, g)
	}
	for n := c.N(12000, 200000); n > 0; n-- {
		g.fresh()
		onlyMongo := oneIn(c.R, 3)
		part := func() *joined {
			e := g.logic(c.R.Intn(3))
			if onlyMongo {
				e = g.mongoCond(c.R.Intn(2))
			}
			for unspecified(e) {
				e = g.logic(c.R.Intn(3))
			}
			s := g.phrase(e)
			t := mustParse(c, s)
			return &joined{e, t, rawTree(t), "parse " + s}
		}
		var log []string
		begin := func(s string) {
			log = append(log, s)
			c.Begin("%s", strings.Join(log, "\n"))
		}
		pool := []*joined{part(), part()}
		begin(pool[0].how)
		begin(pool[1].how)
		for steps := 1 + c.R.Intn(7); steps > 0; steps-- {
			a, b := pick(c.R, pool), pick(c.R, pool)
			var j *joined
			switch c.R.Intn(9) {
			case 0:
				j = part()
			case 1:
				j = &joined{e: un("not", a.e.clone()), n: tsl.Node{Func: tsl.NotOp, Left: a.n}, how: "not " + a.e.dump()}
				if onlyMongo {
					continue
				}
			case 2, 3:
				// a mapping of the names to others of the same kind
				from, to := pick(c.R, numFields), pick(c.R, numFields)
				m := func(s string) string {
					switch s {
					case from:
						return to
					case to:
						return from
					}
					return s
				}
				j = &joined{e: a.e.clone(), how: "swap " + from + " and " + to + " of " + a.e.dump()}
				j.e.walk(func(x *E) {
					if x.K == "ident" {
						x.S = m(x.S)
					}
				})
				begin(j.how)
				var err error
				c.Guard("ident.Walk", func() {
					j.n, err = identwalker.Walk(a.n, func(s string) (string, error) { return m(s), nil })
				})
				if err != nil {
					c.Fail("the names are mapped", "%v", err)
				}
				c.Count("mapped")
			default:
				op := pick(c.R, []string{"and", "or"})
				f := map[string]string{"and": tsl.AndOp, "or": tsl.OrOp}[op]
				j = &joined{e: bin(op, a.e.clone(), b.e.clone()), n: tsl.Node{Func: f, Left: a.n, Right: b.n}, how: a.e.dump() + " " + op + " " + b.e.dump()}
				if a == b {
					c.Count("joined with itself")
				}
				c.Count("joined")
			}
			if j.e.size() > 400 {
				continue
			}
			begin(j.how)
			j.raw = rawTree(j.n)
			pool = append(pool, j)
			c35use(c, g, pick(c.R, pool), onlyMongo)
			for _, p := range pool {
				if rawTree(p.n) != p.raw {
					c.Fail("a tree keeps what it is", "%s\n%s became %s", strings.Join(log, "\n"), p.raw, rawTree(p.n))
				}
				if got := dumpNode(p.n); got != canon(p.e) {
					c.Fail("a joined tree is its parts", "%s\n%s instead of %s", strings.Join(log, "\n"), got, canon(p.e))
				}
			}
		}
		last := pool[len(pool)-1]
		c.Distinct(canon(last.e))
		if last.e.size() > 6 {
			c.Sample("%s", strings.Join(log, "; "))
		}
		c35unknown(c, g, last, part())
	}
}

// c35chain joins many conditions to one tree, deep on one of its sides, on both,
// or balanced.
func c35chain(c *C, g *evalG) {
	g.fresh()
	size := 100 + c.R.Intn(1200)
	if oneIn(c.R, 2) {
		size = pick(c.R, []int{256, 500, 512, 1000, 1024, 2000, 2048}) + c.R.Intn(5) - 1
	}
	shape := pick(c.R, []string{"left", "right", "both", "balanced"})
	op := pick(c.R, []string{"and", "or", "mixed"})
	onlyMongo := oneIn(c.R, 2)
	var parts []*joined
	for len(parts) < 8 {
		e := g.logic(0)
		if onlyMongo {
			e = g.mongoCond(0)
		}
		if !unspecified(e) {
			parts = append(parts, &joined{e: e, n: mustParse(c, g.phrase(e))})
		}
	}
	join := func(a, b *joined) *joined {
		o := op
		if o == "mixed" {
			o = pick(c.R, []string{"and", "or"})
		}
		f := map[string]string{"and": tsl.AndOp, "or": tsl.OrOp}[o]
		j := &joined{e: bin(o, a.e, b.e), n: tsl.Node{Func: f, Left: a.n, Right: b.n}}
		if !onlyMongo && oneIn(c.R, 40) {
			j = &joined{e: un("not", j.e), n: tsl.Node{Func: tsl.NotOp, Left: j.n}}
		}
		return j
	}
	var build func(n int) *joined
	build = func(n int) *joined {
		if n == 1 {
			return pick(c.R, parts)
		}
		return join(build(n/2), build(n-n/2))
	}
	c.Begin("%d conditions joined with %s, %s", size, op, shape)
	j := pick(c.R, parts)
	switch shape {
	case "balanced":
		j = build(size)
	default:
		for i := 1; i < size; i++ {
			p := pick(c.R, parts)
			if shape == "left" || shape == "both" && oneIn(c.R, 2) {
				j = join(j, p)
			} else {
				j = join(p, j)
			}
		}
	}
	j.raw = rawTree(j.n)
	c35use(c, g, j, onlyMongo)
	if rawTree(j.n) != j.raw {
		c.Fail("a tree keeps what it is", "%d conditions joined with %s, %s", size, op, shape)
	}
	c.Count("long chains")
}

// c35use compares all the walkers for a tree with its model.
func c35use(c *C, g *evalG, j *joined, onlyMongo bool) {
	how := j.e.dump()
	for k := 0; k < 2; k++ {
		checkEval(c, j.e, how, j.n, g.record())
	}
	huge := false
	j.e.walk(func(x *E) { huge = huge || x.K == "num" && math.Abs(x.Num) > 1e300 })
	text, args, err := walkSQL(c, j.n)
	switch {
	case !sqlCan(j.e):
		if err == nil {
			c.Fail("what SQL can not express is an error", "%s gave %q %v", how, text, args)
		}
		c.Count("SQL errors")
	case err != nil:
		c.Fail("the tree is an SQL condition", "%s: %v", how, err)
	case !huge:
		m, err := parseSQL(text, args)
		if err != nil {
			c.Fail("the text is an SQL condition", "%s gave %q %#v: %v", how, text, args, err)
		}
		if got, want := sqlKey(m), sqlKey(sqlModel(j.e)); got != want {
			c.Fail("the SQL condition is the tree", "%s gave %q %#v\n which is %s\n instead of  %s", how, text, args, got, want)
		}
		c.Count("SQL conditions")
	}
	var b []byte
	c.Guard("json.Marshal", func() { b, err = json.Marshal(j.n) })
	var got *E
	if err == nil {
		got, err = readJSON(b)
	}
	if err != nil || utc(got) != utc(j.e) {
		c.Fail("the JSON document is the tree", "%s gave %s (%v)", how, b, err)
	}
	var dot string
	c.Guard("graphviz.Walk", func() { dot, err = graphviz.Walk("", j.n, "root") })
	if err == nil {
		got, err = readDot("digraph {\n"+dot+"\n}\n", "root")
	}
	if err != nil || utc(got) != utc(j.e) {
		c.Fail("the graph is the tree", "%s gave\n%s\n%v", how, dot, err)
	}
	c.Count("documents and graphs")
	if onlyMongo {
		c35mongo(c, g, j, how)
	}
}

var mongoSafe = regexp.MustCompile(`^[a-zA-Z0-9^$.*|\[\]\-+é{}()?\\]*$`)

func c35mongo(c *C, g *evalG, j *joined, how string) {
	var f bson.D
	var err error
	c.Guard("mongo.Walk", func() { f, err = mongo.Walk(j.n) })
	if err != nil {
		if mongoCan(j.e) {
			c.Fail("the tree is a MongoDB filter", "%s: %v", how, err)
		}
		c.Count("MongoDB errors")
		return
	}
	ok := true
	j.e.walk(func(x *E) {
		if x.K == "bin" && (x.Op == "~=" || x.Op == "~!") {
			_, err := regexp.Compile(x.R.S)
			ok = ok && x.R.K == "str" && err == nil && mongoSafe.MatchString(x.R.S)
		}
	})
	if !ok {
		return
	}
	checkMongo(c, g, j.e, how, f)
}

// c35unknown puts a node with an operator that is not known into the tree.
func c35unknown(c *C, g *evalG, j, o *joined) {
	name := pick(c.R, []string{"$pow", "", "$not_regex", "and", "$AND", "$nand", "$xor", "=", "$elemMatch"})
	odd := tsl.Node{Func: name, Left: tsl.Node{Func: tsl.IdentOp, Left: pick(c.R, numFields)}, Right: tsl.Node{Func: tsl.NumberOp, Left: g.someNum()}}
	if oneIn(c.R, 3) {
		odd = tsl.Node{Func: name, Left: j.n, Right: o.n}
	}
	n := odd
	depth := c.R.Intn(4)
	for ; depth > 0; depth-- {
		f := pick(c.R, []string{tsl.AndOp, tsl.OrOp})
		if oneIn(c.R, 2) {
			n = tsl.Node{Func: f, Left: n, Right: pick(c.R, []*joined{j, o}).n}
		} else {
			n = tsl.Node{Func: f, Left: pick(c.R, []*joined{j, o}).n, Right: n}
		}
	}
	how := rawTree(n)
	c.Begin("a tree with an unknown operator %s", how)
	if text, args, err := walkSQL(c, n); err == nil {
		c.Fail("an unknown operator is an error", "SQL of %s gave %q %v", how, text, args)
	}
	var err error
	var f bson.D
	c.Guard("mongo.Walk", func() { f, err = mongo.Walk(n) })
	if err == nil {
		c.Fail("an unknown operator is an error", "MongoDB of %s gave %v", how, f)
	}
	var v bool
	rec := g.record()
	c.Guard("semantics.Walk", func() {
		v, err = semantics.Walk(n, func(k string) (interface{}, bool) { x, ok := rec[k]; return x, ok })
	})
	if err == nil {
		c.Fail("an unknown operator is an error", "the value of %s is %v", how, v)
	}
	// names are mapped in it too, and a failure is one
	e := errors.New("no names")
	c.Guard("ident.Walk", func() {
		_, err = identwalker.Walk(n, func(string) (string, error) { return "", e })
	})
	if err == nil {
		c.Fail("an error of the mapping is the error of the walk", "%s", how)
	}
	if rawTree(n) != how {
		c.Fail("a tree keeps what it is", "%s became %s", how, rawTree(n))
	}
	c.Count("unknown operators")
}
