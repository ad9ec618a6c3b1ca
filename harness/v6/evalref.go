//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// The reference evaluator: what a phrase means for a record.

type errKinds map[string]bool

func (k errKinds) String() string {
	var l []string
	for s := range k {
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

func kinds(l ...string) errKinds {
	k := errKinds{}
	for _, s := range l {
		k[s] = true
	}
	return k
}

// outcome is a value, an error, or not specified by the language.
type outcome struct {
	v     interface{}
	errs  errKinds
	unsp  bool
	depth int
}

type refEnv struct {
	vals  map[string]interface{}
	steps int
}

const (
	eKey  = "key not found"
	eType = "type mismatch"
	eZero = "by zero"
	eOp   = "unexpected operator"
	eRe   = "bad regular expression"
)

func refDate(v interface{}) (time.Time, bool) {
	switch t := v.(type) {
	case time.Time:
		return t, true
	case string:
		if d, err := time.Parse(time.RFC3339, t); err == nil {
			return d, true
		}
		if d, err := time.Parse("2006-01-02", t); err == nil {
			return d, true
		}
	}
	return time.Time{}, false
}

// refNormal is the value of a record as the language sees it.
func refNormal(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	if a, ok := v.([]interface{}); ok {
		out := make([]interface{}, len(a))
		for i := range a {
			out[i] = refNormal(a[i])
		}
		return out
	}
	if d, ok := refDate(v); ok {
		return d
	}
	rv := reflect.ValueOf(v)
	if rv.Type().PkgPath() == "" {
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return float64(rv.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return float64(rv.Uint())
		case reflect.Float32, reflect.Float64:
			return rv.Float()
		}
	}
	return v
}

func (r *refEnv) eval(e *E) outcome {
	r.steps++
	switch e.K {
	case "num":
		return outcome{v: e.Num}
	case "str":
		return outcome{v: e.S}
	case "bool":
		return outcome{v: e.B}
	case "null":
		return outcome{}
	case "date", "ts":
		if d, ok := refDate(e.S); ok {
			return outcome{v: d}
		}
		return outcome{v: e.S}
	case "ident":
		v, ok := r.vals[e.S]
		if !ok {
			return outcome{errs: kinds(eKey)}
		}
		return outcome{v: refNormal(v)}
	case "array":
		out := make([]interface{}, len(e.A))
		k := errKinds{}
		unsp := false
		for i, a := range e.A {
			o := r.eval(a)
			for s := range o.errs {
				k[s] = true
			}
			unsp = unsp || o.unsp
			out[i] = o.v
		}
		if unsp {
			return outcome{unsp: true}
		}
		if len(k) > 0 {
			return outcome{errs: k}
		}
		return outcome{v: out}
	case "un":
		o := r.eval(e.R)
		if o.unsp || o.errs != nil {
			return o
		}
		return refUnary(e.Op, o.v)
	case "bin":
		l, rr := r.eval(e.L), r.eval(e.R)
		if l.unsp || rr.unsp {
			return outcome{unsp: true}
		}
		if l.errs != nil || rr.errs != nil {
			k := errKinds{}
			for s := range l.errs {
				k[s] = true
			}
			for s := range rr.errs {
				k[s] = true
			}
			return outcome{errs: k}
		}
		return refBinary(e.Op, l.v, rr.v)
	}
	panic("kind " + e.K)
}

func val(v interface{}) outcome { return outcome{v: v} }
func fail(k string) outcome     { return outcome{errs: kinds(k)} }

func refUnary(op string, v interface{}) outcome {
	a, isArr := v.([]interface{})
	switch op {
	case "len":
		if !isArr {
			return fail(eOp)
		}
		return val(float64(len(a)))
	case "any":
		if !isArr {
			return fail(eOp)
		}
		n := 0
		for _, x := range a {
			if b, ok := x.(bool); ok && b {
				n++
			}
		}
		return val(n > 0)
	case "all":
		if !isArr {
			return fail(eOp)
		}
		n := 0
		for _, x := range a {
			if b, ok := x.(bool); ok && b {
				n++
			}
		}
		return val(n == len(a) && n > 0)
	case "sum":
		if !isArr {
			return fail(eOp)
		}
		s := 0.0
		for _, x := range a {
			f, ok := x.(float64)
			if !ok {
				return fail(eType)
			}
			s += f
		}
		return val(s)
	}
	if isArr {
		return refEach(a, func(x interface{}) outcome {
			if _, nested := x.([]interface{}); nested {
				return fail(eType)
			}
			return refUnary(op, x)
		})
	}
	switch op {
	case "not":
		b, ok := v.(bool)
		if !ok {
			return fail(eType)
		}
		return val(!b)
	case "neg":
		f, ok := v.(float64)
		if !ok {
			return fail(eType)
		}
		return val(-f)
	}
	panic(op)
}

// refEach applies f to each of the elements.
func refEach(a []interface{}, f func(interface{}) outcome) outcome {
	out := make([]interface{}, len(a))
	k := errKinds{}
	for i, x := range a {
		o := f(x)
		if o.unsp {
			return o
		}
		for s := range o.errs {
			k[s] = true
		}
		out[i] = o.v
	}
	if len(k) > 0 {
		return outcome{errs: k}
	}
	return val(out)
}

func refEqual(l, r interface{}) bool {
	if lf, ok := l.(float64); ok {
		rf, ok := r.(float64)
		return ok && lf == rf
	}
	if ld, ok := refDate(l); ok {
		if rd, ok := refDate(r); ok {
			return ld.Equal(rd)
		}
		return false
	}
	switch lv := l.(type) {
	case nil:
		return r == nil
	case string:
		rv, ok := r.(string)
		return ok && lv == rv
	case bool:
		rv, ok := r.(bool)
		return ok && lv == rv
	}
	return reflect.DeepEqual(l, r)
}

func refBinary(op string, l, r interface{}) outcome {
	if a, ok := l.([]interface{}); ok {
		return refEach(a, func(x interface{}) outcome { return refBinary(op, x, r) })
	}
	switch op {
	case "=":
		return val(refEqual(l, r))
	case "!=":
		return val(!refEqual(l, r))
	case "<", "<=", ">", ">=":
		if l == nil || r == nil {
			return val(false)
		}
		cmp, ok := refCompare(l, r)
		if !ok {
			return fail(eType)
		}
		switch op {
		case "<":
			return val(cmp == -1)
		case "<=":
			return val(cmp == -1 || cmp == 0)
		case ">":
			return val(cmp == 1)
		}
		return val(cmp == 1 || cmp == 0)
	case "and", "or":
		lb, ok1 := l.(bool)
		rb, ok2 := r.(bool)
		if !ok1 || !ok2 {
			return fail(eType)
		}
		if op == "and" {
			return val(lb && rb)
		}
		return val(lb || rb)
	case "+", "-", "*", "/", "%":
		lf, ok1 := l.(float64)
		rf, ok2 := r.(float64)
		if !ok1 || !ok2 {
			return fail(eType)
		}
		switch op {
		case "+":
			return val(lf + rf)
		case "-":
			return val(lf - rf)
		case "*":
			return val(lf * rf)
		case "/":
			if rf == 0 {
				return fail(eZero)
			}
			return val(lf / rf)
		}
		const lim = 1 << 52
		if !(math.Abs(lf) < lim && math.Abs(rf) < lim) {
			return outcome{unsp: true}
		}
		if math.Trunc(rf) == 0 {
			return fail(eZero)
		}
		m := math.Mod(math.Trunc(lf), math.Trunc(rf))
		return val(m + 0)
	case "is":
		return val(l == nil)
	case "in":
		a, ok := r.([]interface{})
		if !ok {
			return fail(eType)
		}
		switch l.(type) {
		case nil:
			return val(false)
		case float64, string, bool, time.Time:
		default:
			return fail(eType)
		}
		n := 0
		for _, x := range a {
			if x != nil && refEqual(l, x) {
				n++
			}
		}
		return val(n > 0)
	case "between":
		a, ok := r.([]interface{})
		if !ok || len(a) != 2 {
			return fail(eType)
		}
		if l == nil {
			return val(false)
		}
		if a[0] == nil || a[1] == nil {
			return outcome{unsp: true}
		}
		c1, ok1 := refCompare(l, a[0])
		c2, ok2 := refCompare(l, a[1])
		if !ok1 || !ok2 {
			return fail(eType)
		}
		return val((c1 == 0 || c1 == 1) && (c2 == 0 || c2 == -1))
	case "like", "ilike", "~=", "~!":
		if l == nil || r == nil {
			return fail(eType)
		}
		ls, ok1 := l.(string)
		rs, ok2 := r.(string)
		_, d1 := l.(time.Time)
		_, d2 := r.(time.Time)
		if d1 || d2 {
			// The text of a date is not specified.
			return outcome{unsp: true}
		}
		if !ok1 || !ok2 {
			return fail(eType)
		}
		switch op {
		case "like":
			return val(refLike([]rune(ls), []rune(rs)))
		case "ilike":
			return val(refLike([]rune(strings.ToLower(ls)), []rune(strings.ToLower(rs))))
		}
		re, st := parseRe(rs)
		if st == reUnknown {
			return outcome{unsp: true}
		}
		if st == reBad {
			return fail(eRe)
		}
		return val(re.search(ls) == (op == "~="))
	}
	panic(op)
}

// refCompare compares numbers or dates, 2 is not ordered.
func refCompare(l, r interface{}) (int, bool) {
	if lf, ok := l.(float64); ok {
		rf, ok := r.(float64)
		switch {
		case !ok:
			return 0, false
		case lf < rf:
			return -1, true
		case lf > rf:
			return 1, true
		case lf == rf:
			return 0, true
		}
		return 2, true
	}
	ld, ok1 := refDate(l)
	rd, ok2 := refDate(r)
	if !ok1 || !ok2 {
		return 0, false
	}
	a, b := ld.UTC(), rd.UTC()
	if a.Unix() != b.Unix() {
		if a.Unix() < b.Unix() {
			return -1, true
		}
		return 1, true
	}
	switch {
	case a.Nanosecond() < b.Nanosecond():
		return -1, true
	case a.Nanosecond() > b.Nanosecond():
		return 1, true
	}
	return 0, true
}

// sameValue compares a result with the one of the reference.
func sameValue(got, want interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case float64:
		g, ok := got.(float64)
		if !ok {
			return false
		}
		if math.IsNaN(w) || math.IsNaN(g) {
			return math.IsNaN(w) && math.IsNaN(g)
		}
		return g == w || math.Abs(g-w) <= 1e-12*math.Max(math.Abs(g), math.Abs(w))
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case time.Time:
		g, ok := refDate(got)
		return ok && g.Equal(w)
	case string:
		g, ok := got.(string)
		return ok && g == w
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameValue(g[i], w[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(got, want)
}

func show(v interface{}) string { return fmt.Sprintf("%T %+v", v, v) }
