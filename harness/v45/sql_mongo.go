//go:build go1.21

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
)

func init() { props["C33"] = c33 }

// mongoSrv speaks enough of the MongoDB protocol for the driver of the commands.
type mongoSrv struct {
	sync.Mutex
	l       net.Listener
	colls   map[string][]bson.D // db.collection: documents
	cursors map[int64]*mongoCur
	next    int64
	batch   int    // documents in a batch
	fail    string // a command that fails
	filters []bson.D
	log     []string
	broken  string // what the server did not understand
}

type mongoCur struct {
	ns   string
	docs []bson.D
}

func newMongoSrv() *mongoSrv {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &mongoSrv{l: l, colls: map[string][]bson.D{}, cursors: map[int64]*mongoCur{}, batch: 101}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *mongoSrv) oops(f string, a ...interface{}) {
	s.Lock()
	defer s.Unlock()
	if s.broken == "" {
		s.broken = fmt.Sprintf(f, a...)
	}
}

func (s *mongoSrv) serve(c net.Conn) {
	defer c.Close()
	for {
		var h [16]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h[0:]))
		id := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		if n < 16 || n > 1<<24 {
			s.oops("message of %d bytes", n)
			return
		}
		b := make([]byte, n-16)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		var cmd bson.D
		seq := map[string][]bson.D{}
		db := ""
		one := func(b []byte) ([]byte, bson.D) {
			if len(b) < 4 {
				s.oops("short document")
				return nil, nil
			}
			k := int(binary.LittleEndian.Uint32(b))
			if k < 5 || k > len(b) {
				s.oops("document of %d bytes", k)
				return nil, nil
			}
			var d bson.D
			if err := bson.Unmarshal(b[:k], &d); err != nil {
				s.oops("document: %v", err)
			}
			return b[k:], d
		}
		switch op {
		case 2004:
			b = b[4:]
			i := bytes.IndexByte(b, 0)
			db = strings.SplitN(string(b[:i]), ".", 2)[0]
			_, cmd = one(b[i+9:])
		case 2013:
			flags := binary.LittleEndian.Uint32(b)
			b = b[4:]
			if flags&1 != 0 {
				b = b[:len(b)-4]
			}
			for len(b) > 0 {
				kind := b[0]
				b = b[1:]
				if kind == 0 {
					b, cmd = one(b)
					continue
				}
				k := int(binary.LittleEndian.Uint32(b))
				part := b[4:k]
				b = b[k:]
				i := bytes.IndexByte(part, 0)
				name := string(part[:i])
				for part = part[i+1:]; len(part) > 0; {
					var d bson.D
					part, d = one(part)
					seq[name] = append(seq[name], d)
				}
			}
		default:
			s.oops("opcode %d", op)
			return
		}
		if len(cmd) == 0 {
			s.oops("no command")
			return
		}
		for _, e := range cmd {
			if e.Key == "$db" {
				db, _ = e.Value.(string)
			}
		}
		out, err := bson.Marshal(s.command(db, cmd, seq))
		if err != nil {
			s.oops("answer: %v", err)
			return
		}
		var r bytes.Buffer
		le := func(v interface{}) { binary.Write(&r, binary.LittleEndian, v) }
		if op == 2004 {
			le(uint32(36 + len(out)))
			le(uint32(1))
			le(id)
			le(uint32(1))
			le(uint32(8))
			le(int64(0))
			le(uint32(0))
			le(uint32(1))
		} else {
			le(uint32(21 + len(out)))
			le(uint32(1))
			le(id)
			le(uint32(2013))
			le(uint32(0))
			r.WriteByte(0)
		}
		r.Write(out)
		if _, err := c.Write(r.Bytes()); err != nil {
			return
		}
	}
}

func mongoFailure(code int, name, msg string) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: msg}, {Key: "code", Value: int32(code)}, {Key: "codeName", Value: name}}
}

func (s *mongoSrv) command(db string, cmd bson.D, seq map[string][]bson.D) bson.D {
	s.Lock()
	defer s.Unlock()
	arg := map[string]interface{}{}
	for _, e := range cmd {
		arg[e.Key] = e.Value
	}
	name := cmd[0].Key
	if !strings.EqualFold(name, "ismaster") {
		s.log = append(s.log, name)
		if s.fail == name {
			return mongoFailure(8000, "Injected", "injected failure of "+name)
		}
	}
	coll, _ := cmd[0].Value.(string)
	ns := db + "." + coll
	take := func(docs []bson.D) (bson.A, []bson.D) {
		n := len(docs)
		if n > s.batch {
			n = s.batch
		}
		a := bson.A{}
		for _, d := range docs[:n] {
			a = append(a, d)
		}
		return a, docs[n:]
	}
	switch strings.ToLower(name) {
	case "ismaster":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16777216)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)},
			{Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(8)},
			{Key: "readOnly", Value: false}, {Key: "ok", Value: 1.0}}
	case "ping", "endsessions", "buildinfo":
		return bson.D{{Key: "ok", Value: 1.0}}
	case "drop":
		if _, ok := s.colls[ns]; !ok {
			return mongoFailure(26, "NamespaceNotFound", "ns not found")
		}
		delete(s.colls, ns)
		return bson.D{{Key: "ok", Value: 1.0}}
	case "insert":
		docs := seq["documents"]
		if l, ok := arg["documents"].(bson.A); ok {
			for _, d := range l {
				docs = append(docs, d.(bson.D))
			}
		}
		s.colls[ns] = append(s.colls[ns], docs...)
		return bson.D{{Key: "n", Value: int32(len(docs))}, {Key: "ok", Value: 1.0}}
	case "find":
		f, _ := arg["filter"].(bson.D)
		s.filters = append(s.filters, f)
		integer := func(k string) int {
			switch x := arg[k].(type) {
			case int32:
				return int(x)
			case int64:
				return int(x)
			}
			return 0
		}
		var found []bson.D
		for _, d := range s.colls[ns] {
			ok := false
			bad := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						bad = fmt.Sprint(r)
					}
				}()
				ok = mongoMatch(flatBSON(d), f)
			}()
			if bad != "" {
				return mongoFailure(2, "BadValue", bad)
			}
			if ok {
				found = append(found, d)
			}
		}
		if n := integer("skip"); n > 0 {
			if n > len(found) {
				n = len(found)
			}
			found = found[n:]
		}
		one := arg["singleBatch"] == true
		if n := integer("limit"); n != 0 {
			if n < 0 {
				n, one = -n, true
			}
			if n < len(found) {
				found = found[:n]
			}
		}
		if p, ok := arg["projection"].(bson.D); ok {
			for i := range found {
				found[i] = project(found[i], p)
			}
		}
		first, rest := take(found)
		if one {
			rest = nil
		}
		id := int64(0)
		if len(rest) > 0 {
			s.next++
			id = s.next
			s.cursors[id] = &mongoCur{ns, rest}
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "firstBatch", Value: first}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}, {Key: "ok", Value: 1.0}}
	case "getmore":
		id, _ := cmd[0].Value.(int64)
		cur := s.cursors[id]
		if cur == nil {
			return mongoFailure(43, "CursorNotFound", "cursor not found")
		}
		var b bson.A
		b, cur.docs = take(cur.docs)
		if len(cur.docs) == 0 {
			delete(s.cursors, id)
			id = 0
		}
		return bson.D{{Key: "cursor", Value: bson.D{{Key: "nextBatch", Value: b}, {Key: "id", Value: id}, {Key: "ns", Value: cur.ns}}}, {Key: "ok", Value: 1.0}}
	case "killcursors":
		return bson.D{{Key: "ok", Value: 1.0}}
	}
	s.broken = "command " + name
	return mongoFailure(59, "CommandNotFound", "no such command: "+name)
}

// project keeps or leaves out the top level fields that p names.
func project(d, p bson.D) bson.D {
	named, keep := map[string]bool{}, false
	for _, e := range p {
		on := e.Value == true || fmt.Sprint(e.Value) == "1"
		named[strings.SplitN(e.Key, ".", 2)[0]] = on
		keep = keep || on && e.Key != "_id"
	}
	o := bson.D{}
	for _, e := range d {
		on, is := named[e.Key]
		if is && on || !is && (!keep || e.Key == "_id") {
			o = append(o, e)
		}
	}
	return o
}

// flatBSON is a document with the paths of the embedded ones as names.
func flatBSON(d bson.D) map[string]interface{} {
	m := map[string]interface{}{}
	for _, e := range d {
		if sub, ok := e.Value.(bson.D); ok {
			for k, v := range flatBSON(sub) {
				m[e.Key+"."+k] = v
			}
			continue
		}
		m[e.Key] = e.Value
	}
	return m
}

// bson is the document of a book in the database.
func (b book) bson(r func(n int) int) bson.D {
	number := func(f float64) interface{} {
		switch r(3) {
		case 0:
			return int32(f)
		case 1:
			return int64(f)
		}
		return f
	}
	spec := bson.D{}
	if b.pages > 0 {
		spec = append(spec, bson.E{Key: "pages", Value: number(b.pages)})
	}
	if b.rating > 0 {
		spec = append(spec, bson.E{Key: "rating", Value: number(b.rating)})
	}
	d := bson.D{}
	if b.title != "" {
		d = append(d, bson.E{Key: "title", Value: b.title})
	}
	if b.author != "" {
		d = append(d, bson.E{Key: "author", Value: b.author})
	}
	d = append(d, bson.E{Key: "spec", Value: spec})
	if V == 5 {
		d = append(d, bson.E{Key: "on-loan", Value: b.onLoan})
	}
	return d
}

// doc is the document that is printed for it.
func (b book) mongoDoc() map[string]interface{} {
	m := b.rowDoc()
	if b.title == "" {
		delete(m, "title")
	}
	if b.author == "" {
		delete(m, "author")
	}
	return m
}

func (b book) mongoMem() map[string]interface{} {
	m := b.mem()
	if b.title == "" {
		delete(m, "title")
	}
	if b.author == "" {
		delete(m, "author")
	}
	if V == 4 {
		delete(m, "on_loan")
	}
	return m
}

func (g *G) mongoBookCond(depth int) *E {
	if depth > 0 && !oneIn(g.r, 4) {
		return bin(pick(g.r, []string{"and", "or"}), g.mongoBookCond(depth-1), g.mongoBookCond(depth-1))
	}
	for k := 0; k < 10; k++ {
		if e := g.bookCond(0); mongoCan(e) || oneIn(g.r, 30) {
			return e
		}
	}
	return bin("=", ident("title"), str("Book"))
}

func (g *G) books() []book {
	r := g.r
	var l []book
	if oneIn(r, 4) {
		return append(l, books...)
	}
	n := r.Intn(12)
	if oneIn(r, 30) {
		n = 90 + r.Intn(300)
		if oneIn(r, 2) {
			n = 1000 + r.Intn(1500)
		}
	}
	for ; n > 0; n-- {
		b := books[r.Intn(len(books))]
		switch r.Intn(6) {
		case 0:
			b.title = pick(r, []string{"", "book", "It's", "Good Book", "\n", "ü'\"\\", "true", "100"})
		case 1:
			b.author = pick(r, []string{"", "joe", "Jane", "{\"$ne\":1}"})
		case 2:
			b.pages = pick(r, []float64{0, 1, 15, 50, 100, 1000000})
		case 3:
			b.rating = float64(r.Intn(6))
		case 4:
			b.onLoan = !b.onLoan
		}
		l = append(l, b)
	}
	return l
}

func c33(c *C) {
	g := newG(c.R)
	srv := newMongoSrv()
	defer srv.l.Close()
	url := "mongodb://" + srv.l.Addr().String()
	tool := func(args ...string) (int, string, string) {
		p, ok := c.args["tsl_mongo"]
		if !ok {
			panic("no tool")
		}
		code, out, errs := runTool(c, p, append([]string{"-u", url}, args...)...)
		srv.Lock()
		defer srv.Unlock()
		if srv.broken != "" {
			panic("the server of the harness: " + srv.broken)
		}
		return code, out, errs
	}
	lines := func(out string) ([]string, error) {
		got := []string{}
		for _, l := range strings.Split(out, "\n") {
			if l == "" {
				continue
			}
			var v interface{}
			if err := json.Unmarshal([]byte(l), &v); err != nil {
				return nil, err
			}
			got = append(got, plainJSON(v))
		}
		return got, nil
	}
	canonDocs := func(ds []bson.D) []string {
		l := []string{}
		for _, d := range ds {
			f := flatBSON(d)
			delete(f, "_id")
			for k, v := range f {
				switch x := v.(type) {
				case int32:
					f[k] = float64(x)
				case int64:
					f[k] = float64(x)
				}
			}
			l = append(l, plainJSON(f))
		}
		sort.Strings(l)
		return l
	}
	zero := func(int) int { return 2 }
	var demo []bson.D
	for _, b := range books {
		demo = append(demo, b.bson(zero))
	}
	for n := c.N(2400, 40000); n > 0; n-- {
		// the content of the database
		db, coll := pick(c.R, []string{"tsl", "other"}), pick(c.R, []string{"books", "books2"})
		srv.Lock()
		srv.colls = map[string][]bson.D{}
		for _, ns := range []string{"tsl.books", "tsl.books2", "other.books", "other.books2"} {
			if ns != db+"."+coll && oneIn(c.R, 2) {
				srv.colls[ns] = demo[:1:1]
			}
		}
		ns := db + "." + coll
		there := g.books()
		for _, b := range there {
			srv.colls[ns] = append(srv.colls[ns], b.bson(c.R.Intn))
		}
		srv.batch = pick(c.R, []int{101, 101, 1, 2, 3})
		srv.log, srv.filters, srv.fail = nil, nil, ""
		srv.cursors = map[int64]*mongoCur{}
		if oneIn(c.R, 12) {
			srv.fail = pick(c.R, []string{"find", "getMore", "drop", "insert"})
		}
		others := map[string]string{}
		for k, v := range srv.colls {
			if k != ns {
				others[k] = fmt.Sprint(canonDocs(v))
			}
		}
		odd := oneIn(c.R, 25) && len(there) > 0
		if odd {
			// a document of another program, with a text for a number or a number for a text
			d := demo[0]
			var o bson.D
			kind := c.R.Intn(3)
			for _, x := range d {
				switch {
				case x.Key == "title" && kind == 0:
					x.Value = int32(7)
				case x.Key == "author" && kind == 1:
					x.Value = true
				case x.Key == "spec" && kind == 2:
					x.Value = "none"
				}
				o = append(o, x)
			}
			k := c.R.Intn(len(there) + 1)
			l := append([]bson.D{}, srv.colls[ns][:k]...)
			srv.colls[ns] = append(append(l, o), srv.colls[ns][k:]...)
			srv.fail = ""
		}
		before := fmt.Sprint(canonDocs(srv.colls[ns]))
		fail, batch := srv.fail, srv.batch
		srv.Unlock()
		if odd {
			f := pick(c.R, []string{"author", "title"})
			s := g.phrase(un("notnull", ident(f)))
			all := 1
			for _, b := range there {
				if f == "title" || b.author != "" {
					all++
				}
			}
			args := []string{"-i", s, "-d", db, "-c", coll}
			c.Begin("tsl_mongo %q, %d documents and one of another kind", args, len(there))
			code, out, errs := tool(args...)
			if n := strings.Count(out, "\n"); code == 0 && n != all || code != 0 && errs == "" {
				c.Fail("the command prints all of the books the phrase is true for, or reports an error", "%q: exit %d, %d lines for %d documents, one of which is odd\n%s%s", args, code, n, all, clip(out, 2000), errs)
			}
			c.Count("collections with an odd document")
			if code != 0 {
				c.Count("collections with an odd document: errors")
			}
			continue
		}
		// the command
		e := g.mongoBookCond(c.R.Intn(4))
		s := g.phrase(e)
		bad := unknownBook(e) || !mongoCan(e)
		isPhrase := true
		if oneIn(c.R, 10) {
			s, _ = g.hostile()
			if strings.Contains(s, "\x00") || s == "" {
				continue
			}
			_, err := tsl.ParseTSL(s)
			if err == nil {
				continue
			}
			isPhrase = false
		}
		args := []string{"-i", s}
		if db != "tsl" || oneIn(c.R, 4) {
			args = append(args, "-d", db)
		}
		if coll != "books" || oneIn(c.R, 4) {
			args = append(args, "-c", coll)
		}
		prepare := oneIn(c.R, 4)
		if prepare {
			args = append(args, "-p")
		}
		c.Begin("tsl_mongo %q, %d documents, batch %d, fail %q", args, len(there), batch, fail)
		code, out, errs := tool(args...)
		if strings.Contains(errs, "panic:") || strings.Contains(errs, "goroutine ") || code < 0 {
			c.Fail("the command reports errors", "%q: exit %d %s", args, code, errs)
		}
		srv.Lock()
		log, failed := strings.Join(srv.log, " "), false
		for _, l := range srv.log {
			failed = failed || l == fail
		}
		content := srv.colls[ns]
		left := len(srv.cursors)
		for k, v := range others {
			if fmt.Sprint(canonDocs(srv.colls[k])) != v {
				srv.Unlock()
				c.Fail("the command uses the collection it is given", "%q changed %s", args, k)
			}
		}
		srv.Unlock()
		if prepare && !failed {
			if strings.Join(canonDocs(content), "\n") != strings.Join(canonDocs(demo), "\n") {
				c.Fail("the prepared collection has the books of the demo", "%q left %v", args, content)
			}
			there = books
			c.Count("collections prepared")
		}
		if !prepare && fmt.Sprint(canonDocs(content)) != before {
			c.Fail("a query does not change the collection", "%q: %s became %v", args, before, canonDocs(content))
		}
		switch {
		case failed:
			if code == 0 || errs == "" {
				c.Fail("an error of the server is an error", "%q: %s failed (%s), exit %d\n%s", args, fail, log, code, out)
			}
			c.Count("failures of the server: " + fail)
			continue
		case !isPhrase:
			if code == 0 || errs == "" || out != "" {
				c.Fail("what is not a phrase is an error", "%q: exit %d %s", args, code, out)
			}
			c.Count("phrases rejected")
			c.Distinct("bad" + s)
			continue
		case bad:
			if code == 0 || errs == "" || out != "" {
				c.Fail("what can not be a filter is an error", "%q: exit %d %s", args, code, out)
			}
			c.Count("errors")
			continue
		}
		if code != 0 {
			c.Fail("a phrase of the columns is a query", "%q: exit %d %s", args, code, errs)
		}
		want, may := []string{}, map[string]bool{}
		for _, b := range there {
			v, err := refEval(e, b.mongoMem())
			if err != "" || !mongoSame(e, b.mongoMem()) {
				may[plainJSON(b.mongoDoc())] = true
				c.Count("books not decided")
				continue
			}
			if v {
				want = append(want, plainJSON(b.mongoDoc()))
			}
		}
		got, err := lines(out)
		if err == nil && len(may) > 0 {
			keep := func(l []string) []string {
				o := []string{}
				for _, x := range l {
					if !may[x] {
						o = append(o, x)
					}
				}
				return o
			}
			got, want = keep(got), keep(want)
		}
		sort.Strings(got)
		sort.Strings(want)
		if err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("the command prints the books the phrase is true for", "%q printed\n%s\n%s (%d %v) instead of\n%s\nfilter %v", args, out, errs, code, err, strings.Join(want, "\n"), srv.filters)
		}
		if left != 0 {
			c.Fail("the command reads all of the answer", "%q left %d cursors open", args, left)
		}
		c.Count("queries")
		c.Add("books found", len(want))
		if strings.Contains(log, "getMore") {
			c.Count("answers in batches")
		}
		if len(want) > 0 && len(want) < len(there) {
			c.Distinct("mongo" + canon(e))
			c.Sample("tsl_mongo -i %q => %d books of %d", s, len(want), len(there))
		}
	}
	if c.Shard == 0 {
		for _, a := range [][]string{{"-z"}, {"-i", ""}, {"-u", "nothing://x"}, {"-u", "mongodb://127.0.0.1:1/?serverSelectionTimeoutMS=300"}} {
			c.Begin("tsl_mongo %q", a)
			if code, out, _ := tool(a...); code == 0 {
				c.Fail("wrong usage is an error", "%q printed %s", a, out)
			}
			c.Count("wrong usages")
		}
	}
}
