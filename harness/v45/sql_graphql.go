//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { props["C32"] = c32 }

const gqlAddr = "127.0.0.1:8080"

// gqlString is a GraphQL string.
func gqlString(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	// JSON escapes are GraphQL escapes
	return string(b)
}

type gqlReply struct {
	Data   map[string][]map[string]interface{}
	Errors []struct{ Message string }
}

func gqlAsk(cl *http.Client, query, before, after string) (r gqlReply, err error) {
	resp, err := cl.Get("http://" + gqlAddr + "/graphql?" + before + "query=" + url.QueryEscape(query) + after)
	if err != nil {
		return r, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		err = fmt.Errorf("%v: %q", err, b)
	}
	return r, err
}

func openFiles(pid int) int {
	l, err := os.ReadDir("/proc/" + strconv.Itoa(pid) + "/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// c32: the GraphQL server answers every request with the books of its filter.
func c32(c *C) {
	g := newG(c.R)
	dbf := fmt.Sprintf("graphql-%d.db", V)
	defer os.Remove(dbf)
	if k, err := net.Dial("tcp", gqlAddr); err == nil {
		k.Close()
		panic("port 8080 is used by another program")
	}
	// 64 files are more than enough for the connections of the clients
	cmd := exec.Command("/bin/sh", "-c", "ulimit -n 64; exec \"$0\" \"$@\"", c.args["tsl_graphql"], "-p", "-f", dbf)
	cmd.Env = []string{"TMPDIR=.", "HOME=.", "TZ=" + os.Getenv("TZ"), "GORACE=halt_on_error=1 exitcode=66"}
	var errs strings.Builder
	cmd.Stderr = &errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	stop := func() {
		_ = cmd.Process.Kill()
	}
	c.Begin("the server starts")
	for k := 0; ; k++ {
		if k, err := net.Dial("tcp", gqlAddr); err == nil {
			k.Close()
			break
		}
		select {
		case err := <-ended:
			panic(fmt.Sprint("the server did not start: ", err, errs.String()))
		case <-time.After(50 * time.Millisecond):
		}
		if k > 1200 {
			stop()
			panic("the server did not start in a minute")
		}
	}
	fail := func(clause, f string, a ...interface{}) {
		stop()
		time.Sleep(50 * time.Millisecond)
		c.Fail(clause, "%s\nthe server wrote: %s", fmt.Sprintf(f, a...), clip(errs.String(), 2000))
	}
	cl := &http.Client{Timeout: 100 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8, MaxConnsPerHost: 8}}
	type part struct {
		name, field string
		want        []string
		bad         bool
	}
	type job struct {
		query, before, after string
		parts                []part
	}
	there := books
	type said struct {
		e *E
		s string
	}
	var again []said
	var asked []*E
	make1 := func() part {
		e := g.bookCond(c.R.Intn(4))
		plain := oneIn(c.R, 3)
		if len(asked) > 0 && oneIn(c.R, 3) {
			// nearly what was asked before
			plain = true
			e = pick(c.R, asked).clone()
			e.walk(func(x *E) {
				switch {
				case x.K == "str" && oneIn(c.R, 2):
					x.S = pick(c.R, []func(string) string{strings.ToLower, strings.ToUpper, strings.Title, func(s string) string { return s + " " }})(x.S)
				case x.K == "num" && oneIn(c.R, 4):
					x.Num++
				}
			})
		}
		if asked = append(asked, e); len(asked) > 50 {
			asked = asked[1:]
		}
		s := g.phrase(e)
		if plain {
			s = g.phrasePlain(e)
		}
		if len(again) > 0 && oneIn(c.R, 4) {
			// the very same filter
			k := c.R.Intn(len(again))
			e, s = again[k].e, again[k].s
			c.Count("filters asked again")
		}
		if again = append(again, said{e, s}); len(again) > 60 {
			again = again[1:]
		}
		bad := unknownBook(e) || !sqlCan(e)
		e.walk(func(x *E) {
			bad = bad || x.K == "bin" && x.Op == "ilike"
		})
		if oneIn(c.R, 8) {
			s, _ = g.hostile()
			if recognize(s) != nil || !json.Valid([]byte(gqlString(s))) || strings.ContainsAny(s, "\x00") {
				s = "title = "
			}
			bad = true
		}
		fields := []string{"title", "author", "spec{pages rating}", "spec{pages}"}
		if V == 5 {
			fields = append(fields, "onloan")
		}
		c.R.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
		fields = fields[:1+c.R.Intn(len(fields))]
		j := part{name: "books", bad: bad}
		j.field = fmt.Sprintf("books(filter:%s){%s}", gqlString(s), strings.Join(fields, pick(c.R, []string{" ", ",", "\n", " , "})))
		if bad {
			return j
		}
		for _, b := range there {
			if v := sql3(bookSQL(sqlModel(e)), b.row()); v == nil || v.(float64) == 0 {
				continue
			}
			m := map[string]interface{}{}
			for _, f := range fields {
				switch f {
				case "title":
					m[f] = b.title
				case "author":
					m[f] = b.author
				case "onloan":
					m[f] = b.onLoan
				default:
					sp, _ := m["spec"].(map[string]interface{})
					if sp == nil {
						sp = map[string]interface{}{}
						m["spec"] = sp
					}
					sp["pages"] = b.pages
					if strings.Contains(f, "rating") {
						sp["rating"] = b.rating
					}
				}
			}
			j.want = append(j.want, plainJSON(m))
		}
		sort.Strings(j.want)
		return j
	}
	makeJob := func() job {
		j := job{parts: []part{make1()}}
		if oneIn(c.R, 4) {
			// a request for more than one list of books
			for n := 1 + c.R.Intn(3); n > 0; n-- {
				j.parts = append(j.parts, make1())
			}
			for k := range j.parts {
				j.parts[k].name = fmt.Sprintf("%c%d", 'a'+c.R.Intn(26), k)
				j.parts[k].field = j.parts[k].name + ":" + j.parts[k].field
			}
		}
		for k, p := range j.parts {
			if k > 0 {
				j.query += pick(c.R, []string{" ", ",", "\n"})
			}
			j.query += p.field
		}
		j.query = pick(c.R, []string{"{", "query {", "{ ", "query q{"}) + j.query + pick(c.R, []string{"}", " }", "}\n"})
		if oneIn(c.R, 6) {
			// what else clients send
			j.before = pick(c.R, []string{"", "x=1&", "operationName=&", "variables=%7B%7D&"})
			j.after = pick(c.R, []string{"", "&x=1", "&operationName=", "&variables=%7B%7D", "&query="})
		}
		return j
	}
	check := func(j job, r gqlReply, err error) string {
		if err != nil {
			return fmt.Sprintf("%s: %v", j.query, err)
		}
		bad := 0
		for _, p := range j.parts {
			if p.bad {
				bad++
			}
		}
		if bad == 0 && len(r.Errors) > 0 {
			return fmt.Sprintf("%s: %v", j.query, r.Errors)
		}
		if bad > 0 && (len(r.Errors) == 0 || r.Errors[0].Message == "") {
			return fmt.Sprintf("%s is not an error: %v", j.query, r.Data)
		}
		for _, p := range j.parts {
			if p.bad {
				if len(r.Data[p.name]) > 0 {
					return fmt.Sprintf("%s: there are books for what is an error: %v", j.query, r.Data)
				}
				continue
			}
			got := []string{}
			for _, b := range r.Data[p.name] {
				got = append(got, plainJSON(b))
			}
			sort.Strings(got)
			if strings.Join(got, "\n") != strings.Join(p.want, "\n") {
				return fmt.Sprintf("%s: %s gave\n%s\ninstead of\n%s", j.query, p.name, strings.Join(got, "\n"), strings.Join(p.want, "\n"))
			}
		}
		return ""
	}
	alive := func() {
		select {
		case err := <-ended:
			c.Fail("the server stays up", "it ended: %v %s", err, clip(errs.String(), 3000))
		default:
		}
	}
	rounds := c.N(100, 2000)
	files := 0
	for round := 0; round < rounds; round++ {
		if round > 0 && oneIn(c.R, 5) {
			// other books
			n := len(there)
			there = g.books()
			if oneIn(c.R, 2) {
				// as many as before
				for len(there) < n {
					there = append(there, pick(c.R, books))
				}
				there = there[:n]
			}
			if err := fillBooks(c, dbf, "tsl_graphql", there); err != nil {
				fail("the database can be changed between the requests", "%v", err)
			}
			c.Count("changes of the database")
		}
		var jobs []job
		for k := 0; k < 32; k++ {
			jobs = append(jobs, makeJob())
		}
		workers := pick(c.R, []int{1, 2, 4, 8})
		c.Begin("round %d, %d clients, %d books, %s", round, workers, len(there), jobs[0].query)
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		for w := 0; w < workers; w++ {
			wg.Add(1)
			w := w
			go func() {
				defer wg.Done()
				for k := w; k < len(jobs); k += workers {
					r, err := gqlAsk(cl, jobs[k].query, jobs[k].before, jobs[k].after)
					if s := check(jobs[k], r, err); s != "" {
						mu.Lock()
						bad = s
						mu.Unlock()
						return
					}
				}
			}()
		}
		wg.Wait()
		alive()
		if bad != "" {
			fail("every request is answered with the books of its filter, whatever was asked before", "round %d, %d clients: %s", round, workers, bad)
		}
		for _, j := range jobs {
			c.Count("requests")
			if len(j.parts) > 1 {
				c.Count("requests for more than one list")
			}
			for _, p := range j.parts {
				if p.bad {
					c.Count("lists that are errors")
				} else {
					c.Add("books", len(p.want))
				}
				if len(p.want) > 0 && len(p.want) < len(there) {
					c.Distinct(p.field)
					c.Sample("%s => %d books of %d", j.query, len(p.want), len(there))
				}
			}
		}
		c.Count(fmt.Sprintf("rounds with %d clients", workers))
		if oneIn(c.R, 10) && len(there) > 0 {
			// SQLite takes no patterns like this, and says so when it reads the rows
			p := strings.Repeat("%", pick(c.R, []int{49000, 50001, 60000}))
			e := bin("like", ident("title"), str(p))
			if oneIn(c.R, 2) {
				e = bin("or", bin("=", ident("author"), str("Joe")), e)
			}
			c.Begin("a pattern of %d %%, %d books", len(p), len(there))
			r, err := gqlAsk(cl, "{books(filter:"+gqlString(g.phrasePlain(e))+"){title}}", "", "")
			alive()
			if err != nil || len(r.Errors) == 0 && len(r.Data["books"]) != len(there) {
				fail("every request is answered with all of the books of its filter, or with an error", "a pattern of %d %%: %d of %d books, %v", len(p), len(r.Data["books"]), len(there), err)
			}
			c.Count("long patterns")
		}
		if n := openFiles(cmd.Process.Pid); n > files {
			c.Add("most open files of the server", n-files)
			files = n
		}
	}
	stop()
	<-ended
}
