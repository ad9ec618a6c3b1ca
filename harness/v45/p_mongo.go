//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
)

func init() { props["C24"] = c24 }

// A small evaluator of MongoDB filters, for the documents of this check.

type mongoErr struct{ s string }

func mbad(f string, a ...interface{}) { panic(mongoErr{fmt.Sprintf(f, a...)}) }

func mongoMatch(doc map[string]interface{}, f bson.D) bool {
	for _, e := range f {
		ok := false
		switch e.Key {
		case "$and", "$or", "$nor":
			l, is := e.Value.(primitive.A)
			if !is || len(l) == 0 {
				mbad("%s of %v", e.Key, e.Value)
			}
			and, or := true, false
			for _, x := range l {
				d, is := x.(bson.D)
				if !is {
					mbad("%s of %v", e.Key, x)
				}
				b := mongoMatch(doc, d)
				and, or = and && b, or || b
			}
			ok = map[string]bool{"$and": and, "$or": or, "$nor": !or}[e.Key]
		default:
			if strings.HasPrefix(e.Key, "$") || e.Key == "" {
				mbad("operator %q at the top", e.Key)
			}
			v, there := doc[e.Key]
			ok = mongoField(v, there, e.Value)
		}
		if !ok {
			return false
		}
	}
	return true
}

func mongoField(v interface{}, there bool, cond interface{}) bool {
	switch x := cond.(type) {
	case primitive.Regex:
		return mongoRegex(v, x)
	case bson.D:
		if len(x) > 0 && strings.HasPrefix(x[0].Key, "$") {
			for _, o := range x {
				if !mongoOp(v, there, o.Key, o.Value) {
					return false
				}
			}
			return true
		}
	}
	return there && mongoCmp(v, cond, "$eq")
}

func mongoRegex(v interface{}, x primitive.Regex) bool {
	s, ok := v.(string)
	p := x.Pattern
	if x.Options != "" {
		p = "(?" + x.Options + ")" + p
	}
	return ok && regexp.MustCompile(p).MatchString(s)
}

func mongoOp(v interface{}, there bool, op string, arg interface{}) bool {
	switch op {
	case "$eq", "$lt", "$lte", "$gt", "$gte":
		return there && mongoCmp(v, arg, op)
	case "$ne":
		return !(there && mongoCmp(v, arg, "$eq"))
	case "$in", "$nin":
		l, is := arg.(primitive.A)
		if !is {
			mbad("%s of %v", op, arg)
		}
		in := false
		for _, x := range l {
			in = in || there && mongoCmp(v, x, "$eq")
		}
		return in == (op == "$in")
	case "$exists":
		b, is := arg.(bool)
		if !is {
			mbad("$exists of %v", arg)
		}
		return there == b
	case "$regex":
		switch p := arg.(type) {
		case string:
			return mongoRegex(v, primitive.Regex{Pattern: p})
		case primitive.Regex:
			return mongoRegex(v, p)
		}
		mbad("$regex of %v", arg)
	case "$not":
		switch x := arg.(type) {
		case primitive.Regex, bson.D:
			return !mongoField(v, there, x)
		}
		mbad("$not of %v", arg)
	}
	mbad("operator %q", op)
	return false
}

func mongoCmp(v, w interface{}, op string) bool {
	norm := func(x interface{}) interface{} {
		switch y := x.(type) {
		case primitive.DateTime:
			return y.Time().UTC()
		case time.Time:
			return y.UTC()
		case int32:
			return float64(y)
		case int64:
			return float64(y)
		}
		return x
	}
	v, w = norm(v), norm(w)
	if reflect.TypeOf(v) != reflect.TypeOf(w) {
		return false
	}
	o := 0
	switch x := v.(type) {
	case bool:
		if x != w.(bool) {
			o = 1
			if !x {
				o = -1
			}
		}
	case nil:
	case float64, string, time.Time:
		o = order(v, w)
	default:
		mbad("a value of type %T", v)
	}
	return refTrue(map[string]string{"$eq": "=", "$lt": "<", "$lte": "<=", "$gt": ">", "$gte": ">="}[op], o)
}

// mongoCan tells whether the filter has to exist.
func mongoCan(e *E) bool {
	ok := true
	e.walk(func(x *E) {
		switch {
		case x.K == "un" && x.Op == "not":
			ok = false
		case x.K == "bin" && (isMath(x.Op) || x.Op == "like" || x.Op == "ilike"):
			ok = false
		case x.K == "bin" && x.R.K == "ident":
			ok = false
		case x.K == "array":
			for _, a := range x.A {
				ok = ok && (a.K == "num" || a.K == "str")
			}
		}
	})
	return ok
}

// mongoSame tells whether filters and phrases agree on the missing fields: for
// MongoDB the negative operators are true for them. Phrases may compare booleans
// with texts and numbers, MongoDB does not.
func mongoSame(e *E, doc map[string]interface{}) bool {
	ok := true
	e.walk(func(x *E) {
		if x.K == "bin" && x.L != nil && x.L.K == "ident" {
			v, there := doc[x.L.S]
			if _, is := v.(bool); is && x.R.K != "bool" {
				ok = false
			}
			if !there && (x.Op == "!=" || x.Op == "nin" || x.Op == "~!") {
				ok = false
			}
		}
	})
	return ok
}

// sets makes the typed tests that MongoDB has more frequent.
func (g *evalG) mongoCond(depth int) *E {
	if depth > 2 && oneIn(g.r, 50) {
		return tower(g.r, 64, func() *E { return g.mongoCond(0) }, []string{"and", "or"}, nil)
	}
	if depth > 0 && !oneIn(g.r, 4) {
		if oneIn(g.r, 25) {
			return un("not", g.mongoCond(depth-1))
		}
		return bin(pick(g.r, []string{"and", "or"}), g.mongoCond(depth-1), g.mongoCond(depth-1))
	}
	for k := 0; k < 10; k++ {
		if e := g.test(); mongoCan(e) || oneIn(g.r, 10) {
			return e
		}
	}
	return bin("=", ident("n1"), num(1))
}

// checkMongo compares a filter with its phrase for some documents.
func checkMongo(c *C, g *evalG, e *E, s string, f bson.D) (d bson.D, some int) {
	raw, err := bson.Marshal(f)
	if err != nil {
		c.Fail("the filter is a BSON document", "%q gave %v: %v", s, f, err)
	}
	if err := bson.Unmarshal(raw, &d); err != nil {
		c.Fail("the filter is a BSON document", "%q gave %v: %v", s, f, err)
	}
	for k := 0; k < 6; k++ {
		doc := g.record()
		for f, v := range doc {
			switch x := v.(type) {
			case nil, []string:
				delete(doc, f)
			case float32, int, int32, int64, uint, uint32, uint64:
				doc[f] = reflect.ValueOf(v).Convert(reflect.TypeOf(1.0)).Float()
			case time.Time:
				doc[f] = x.Truncate(time.Second)
			case bool:
				if V == 4 {
					delete(doc, f)
				}
			}
		}
		// MongoDB keeps milliseconds
		ms := false
		e.walk(func(x *E) {
			if x.K == "ts" && strings.Contains(x.S, ".") {
				ms = true
			}
		})
		want, bad := refEval(e, doc)
		if ms || bad != "" || !mongoSame(e, doc) {
			c.Count("not decided")
			continue
		}
		got := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					x, ok := r.(mongoErr)
					if !ok {
						panic(r)
					}
					c.Fail("the filter is a valid MongoDB filter", "%q gave %v: %s", s, d, x.s)
				}
			}()
			got = mongoMatch(doc, d)
		}()
		if got != want {
			c.Fail("the filter selects the documents the phrase is true for", "%q gave %v\n for the document %#v the phrase is %v and the filter %v", s, d, doc, want, got)
		}
		c.Count(fmt.Sprintf("documents %v", want))
		some++
	}
	return
}

func c24(c *C) {
	g := &evalG{G: newG(c.R)}
	re := regexp.MustCompile(`^[a-zA-Z0-9^$.*|\[\]\-+é{}()?\\]*$`)
	for n := c.N(160000, 1200000); n > 0; n-- {
		if oneIn(c.R, 3) {
			g.fresh()
		}
		e := g.near(g.mongoCond(c.R.Intn(4)))
		s := g.phrase(e)
		c.Begin("%s", s)
		node := mustParse(c, s)
		before := rawTree(node)
		var f bson.D
		var err error
		c.Guard("mongo.Walk", func() { f, err = mongo.Walk(node) })
		if after := rawTree(node); after != before {
			c.Fail("the walk does not change the tree", "%s: %s became %s", s, before, after)
		}
		if err != nil {
			if mongoCan(e) {
				c.Fail("the phrase is a filter", "%q: %v", s, err)
			}
			c.Count("errors")
			continue
		}
		known := true
		e.walk(func(x *E) {
			if x.K == "bin" && (x.Op == "~=" || x.Op == "~!") {
				_, err := regexp.Compile(x.R.S)
				known = known && x.R.K == "str" && err == nil && re.MatchString(x.R.S)
			}
		})
		if !known {
			c.Count("other regular expressions")
			continue
		}
		d, some := checkMongo(c, g, e, s, f)
		if e.size() > 3 && some > 0 {
			c.Distinct(canon(e))
			c.Sample("%s => %v", s, d)
		}
	}
	// Any phrase: a filter or an error.
	h := newG(c.R)
	h.plain = true
	for n := c.N(80000, 400000); n > 0; n-- {
		e := h.near(h.cond(c.R.Intn(4)))
		s := h.phrase(e)
		c.Begin("%s", s)
		node := mustParse(c, s)
		c.Guard("mongo.Walk", func() {
			f, err := mongo.Walk(node)
			if (err == nil) != mongoCan(e) {
				c.Fail("a filter or an error", "%q gave %v %v", s, f, err)
			}
			if err == nil {
				// the values of the literals
				want := map[string]int{}
				e.walk(func(x *E) {
					if isLit(x) {
						want[x.dump()]++
					}
				})
				got := map[string]int{}
				var look func(v interface{})
				look = func(v interface{}) {
					switch x := v.(type) {
					case bson.D:
						for _, y := range x {
							if y.Key == "$exists" {
								continue
							}
							look(y.Value)
						}
					case bson.A:
						for _, y := range x {
							look(y)
						}
					case []interface{}:
						for _, y := range x {
							look(y)
						}
					case primitive.Regex:
						got[str(x.Pattern).dump()]++
					case string:
						got[str(x).dump()]++
					case float64:
						got[num(x).dump()]++
					case bool:
						got[boolean(x).dump()]++
					case time.Time:
						got[ts(goText(x)).dump()]++
					default:
						got[fmt.Sprintf("%T", v)]++
					}
				}
				look(f)
				if !reflect.DeepEqual(got, want) {
					c.Fail("the filter has the literals of the phrase", "%q gave %v", s, f)
				}
				c.Count("filters with the literals")
			} else {
				c.Count("errors")
			}
		})
	}
}
