package main

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	bolterr "github.com/mindstand/go-bolt/errors"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/structures/messages"
)

func connect(s *server, opts string) (connection.IConnection, error) {
	return connection.CreateBoltConn("bolt://neo4j:pw@" + s.addr + "?timeout=10" + opts)
}

// within runs f and reports a hang
func within(d time.Duration, what string, hist func() string, f func()) {
	done := make(chan string, 1)
	go func() { done <- guard(f) }()
	select {
	case p := <-done:
		if p != "" {
			found("the call panics", hist()+"\n"+what, "a result or an error", p)
		}
	case <-time.After(d):
		buf := make([]byte, 4000)
		buf = buf[:runtime.Stack(buf, true)]
		found("the call does not return", hist()+"\n"+what, "the call returns", fmt.Sprintf("nothing after %v\n%s", d, buf))
	}
}

// reqs are the requests the protocol version demands
type reqs struct{ v int }

func (q reqs) run(text string, params map[string]interface{}, db string, tx bool) []event {
	p := lift(params)
	if q.v < 3 {
		return []event{{sig: sigRun, fields: []interface{}{text, p}}, q.pull()}
	}
	m := map[string]interface{}{}
	if db != "" && !tx {
		m["db"] = db
	}
	return []event{{sig: sigRun, fields: []interface{}{text, p, m}}, q.pull()}
}

func (q reqs) pull() event {
	if q.v < 4 {
		return event{sig: sigPull, fields: []interface{}{}}
	}
	return event{sig: sigPull, fields: []interface{}{map[string]interface{}{"n": int64(-1)}}}
}

func (q reqs) control(sig byte, text, db string) []event {
	if q.v < 3 {
		return q.run(text, nil, "", false)
	}
	e := event{sig: sig, fields: []interface{}{}}
	if sig == sigBegin {
		m := map[string]interface{}{}
		if db != "" {
			m["db"] = db
		}
		e.fields = []interface{}{m}
	}
	return []event{e}
}

type history struct {
	r     *rand.Rand
	prop  string
	s     *server
	t     *session
	c     connection.IConnection
	q     reqs
	steps []string
	n     int

	dead    bool // the connection must be closed by now
	maybe   bool // the connection may have been closed
	tx      connection.ITransaction
	txdb    string
	old     []connection.ITransaction
	want    []event
	loose   bool // the requests are not compared any more
	mu      sync.Mutex
	plans   map[string]plan
	control map[byte]reply
}

func (h *history) hist() string {
	return fmt.Sprintf("protocol %d: ", h.q.v) + strings.Join(h.steps, "; ")
}

func (h *history) fail(what, want, got string) { found(what, h.hist(), want, got) }

func (h *history) step(f string, a ...interface{}) string {
	s := fmt.Sprintf(f, a...)
	h.steps = append(h.steps, s)
	doing("%s", h.hist())
	return s
}

func sameEvents(a, b []event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].sig != b[i].sig || !same(a[i].fields, b[i].fields) {
			return false
		}
	}
	return true
}

func (h *history) compare() {
	if h.loose {
		return
	}
	got := h.t.log()
	for i := 0; i < 20 && len(got) < len(h.want); i++ {
		time.Sleep(2 * time.Millisecond)
		got = h.t.log()
	}
	if !sameEvents(got, h.want) {
		h.fail("the server receives other requests", fmt.Sprint(h.want), fmt.Sprint(got))
	}
	if b := h.t.complaint(); b != "" {
		h.fail("the server receives a request out of place", "requests in order", b)
	}
}

func hasFailure(err error) bool {
	is := func(e interface{}) bool {
		f, ok := e.(messages.FailureMessage)
		return ok && f.Metadata["code"] == failCode && f.Metadata["message"] == failMsg
	}
	if is(err) {
		return true
	}
	for e := err; e != nil; e = errors.Unwrap(e) {
		if is(e) {
			return true
		}
		if be, ok := e.(*bolterr.Error); ok {
			if is(be.InnerMost()) || is(be.Inner()) {
				return true
			}
		}
	}
	return strings.Contains(err.Error(), failCode) && strings.Contains(err.Error(), failMsg)
}

func newHistory(r *rand.Rand, v int, prop string) *history {
	h := &history{r: r, prop: prop, q: reqs{v}, plans: map[string]plan{}, control: map[byte]reply{}}
	s := newServer(v)
	rr := rand.New(rand.NewSource(r.Int63()))
	var rm sync.Mutex
	s.rnd = func(n int) int { rm.Lock(); defer rm.Unlock(); return rr.Intn(n) }
	s.frag = r.Intn(2) == 0
	s.query = func(t *session, q string, params map[string]interface{}, meta map[string]interface{}) plan {
		h.mu.Lock()
		defer h.mu.Unlock()
		p, ok := h.plans[q]
		if !ok {
			return plan{runMeta: map[string]interface{}{}, rows: [][]interface{}{{"unplanned " + q}}, meta: map[string]interface{}{}}
		}
		return p
	}
	s.onMsg = func(t *session, e event) reply {
		h.mu.Lock()
		defer h.mu.Unlock()
		return h.control[e.sig]
	}
	h.s = s.start()
	c, err := connect(s, fmt.Sprintf("&chunk_size=%d", []int{65535, 1, 2, 7, 100}[r.Intn(5)]))
	if err != nil {
		found("opening a connection fails", fmt.Sprintf("a server of protocol %d that acknowledges", v), "a connection", err.Error())
	}
	h.c = c
	h.t = s.last()
	h.want = append(h.want, h.t.log()...)
	return h
}

// settled makes sure the connection reports itself closed and the server sees the socket go
func (h *history) mustBeClosed(why string) {
	h.dead = true
	h.loose = true
	if h.tx != nil {
		h.old = append(h.old, h.tx)
		h.tx = nil
	}
	var open bool
	within(20*time.Second, "ValidateOpen()", h.hist, func() { open = h.c.ValidateOpen() })
	if open {
		h.fail("a connection that can not go on reports itself open", "closed: "+why, "ValidateOpen() is true")
	}
	if !h.t.waitEOF(3 * time.Second) {
		h.fail("the socket is not released", "closed: "+why, "still connected")
	}
}

func (h *history) endTx() {
	if h.tx != nil {
		h.old = append(h.old, h.tx)
		h.tx = nil
	}
	h.checkTx()
}

func (h *history) checkTx() {
	for _, t := range h.old {
		var cl bool
		within(10*time.Second, "IsClosed()", h.hist, func() { cl = t.IsClosed() })
		if !cl {
			h.fail("a transaction that has ended is not closed", "IsClosed() is true", "false")
		}
	}
	if h.tx != nil && !h.dead {
		var cl bool
		within(10*time.Second, "IsClosed()", h.hist, func() { cl = h.tx.IsClosed() })
		if cl {
			h.fail("the open transaction is closed", "IsClosed() is false", "true")
		}
	}
}

var faultKinds = []string{"failure", "failure", "failure", "ignored", "record", "weird", "garbage", "partial", "drop"}

// after a fault of this kind: does the connection go on
func (h *history) afterFault(kind string, err error) {
	if kind == "failure" {
		if err != nil && !hasFailure(err) {
			h.fail("the server's failure is not in the error", failCode+" "+failMsg, err.Error())
		}
		if k := h.control[sigReset].kind; k != "" && k != "ignored" {
			h.mustBeClosed("the reset is answered with " + k)
			return
		}
		h.want = append(h.want, event{sig: sigReset, fields: []interface{}{}})
		h.endTx()
		h.compare()
		return
	}
	h.mustBeClosed("the server answered with " + kind)
}

func (h *history) query(tx connection.ITransaction, stale bool) {
	h.n++
	text := fmt.Sprintf("Q%d", h.n)
	if h.r.Intn(4) == 0 {
		text += strings.Repeat("x", h.r.Intn(300))
	}
	if h.r.Intn(8) == 0 {
		text = name(h.r, text) + fmt.Sprintf(" %d", h.n)
	}
	var params map[string]interface{}
	if h.r.Intn(2) == 0 {
		params = map[string]interface{}{"p": int64(h.n), "s": text}
		if h.r.Intn(4) == 0 {
			params[name(h.r, "q")] = name(h.r, "v")
		}
	}
	db := ""
	if h.r.Intn(4) == 0 {
		db = name(h.r, "movies", "system")
	}
	p := plan{runMeta: map[string]interface{}{"fields": []interface{}{"run of " + text}}, meta: map[string]interface{}{"type": "r", "of": text}}
	if h.r.Intn(6) == 0 {
		p.meta[name(h.r, "k")] = name(h.r, "v")
	}
	if h.r.Intn(6) == 0 {
		p.runMeta[name(h.r, "k")] = name(h.r, "v")
	}
	for i := []int{0, 1, 3, 40}[h.r.Intn(4)]; i > 0; i-- {
		p.rows = append(p.rows, []interface{}{text, int64(i), float64(h.n)})
	}
	kind := ""
	if h.r.Intn(3) == 0 {
		kind = faultKinds[h.r.Intn(len(faultKinds))]
		if h.r.Intn(2) == 0 {
			p.run = reply{kind}
		} else {
			p.pull = reply{kind}
			p.afterRow = h.r.Intn(len(p.rows) + 1)
			if p.pull.kind == "record" {
				// one more row, and the result goes on
				p.pull = reply{"failure"}
				kind = "failure"
			}
		}
	}
	reset := ""
	if kind == "failure" && h.r.Intn(3) == 0 {
		reset = []string{"failure", "record", "garbage", "drop", "weird"}[h.r.Intn(5)]
	}
	h.mu.Lock()
	h.plans[text] = p
	h.control = map[byte]reply{sigReset: {reset}}
	h.mu.Unlock()
	exec := h.r.Intn(3) == 0
	who := "connection"
	if tx != nil {
		who = "transaction"
		if stale {
			who = "ended transaction"
		}
	}
	what := h.step("%s.Query(%.20q, db %q) [%d rows, server answers RUN %q PULL %q RESET %q]", who, text, db, len(p.rows), p.run.kind, p.pull.kind, reset)
	var rows [][]interface{}
	var res connection.IResult
	var err error
	within(20*time.Second, what, h.hist, func() {
		switch {
		case tx != nil && exec:
			res, err = tx.ExecWithDb(text, params, db)
		case tx != nil:
			rows, res, err = tx.QueryWithDb(text, params, db)
		case exec:
			res, err = h.c.ExecWithDb(text, params, db)
		default:
			rows, res, err = h.c.QueryWithDb(text, params, db)
		}
	})
	if db != "" && h.q.v < 4 {
		if err == nil {
			h.fail("a database is named on a protocol without databases", "an error", "a result")
		}
		h.compare()
		return
	}
	if h.dead || stale {
		if err == nil {
			h.fail("a query runs on something closed", "an error", fmt.Sprintf("%v", rows))
		}
		h.compare()
		return
	}
	if tx != nil && db != "" && db != h.txdb {
		if err == nil {
			got := h.t.log()
			h.fail("a query of a transaction names another database than the transaction's", "an error, or a request with that database", fmt.Sprint(got[len(h.want):]))
		}
		h.compare()
		return
	}
	h.want = append(h.want, h.q.run(text, params, db, tx != nil || h.tx != nil && false)...)
	if kind == "" {
		if err != nil {
			h.fail("a query the server answers fails", fmt.Sprintf("%d rows", len(p.rows)), err.Error())
		}
		if !exec {
			w := make([]interface{}, 0)
			for _, x := range p.rows {
				w = append(w, x)
			}
			g := make([]interface{}, 0)
			for _, x := range rows {
				g = append(g, x)
			}
			if !same(w, g) {
				h.fail("a query returns other rows than the server sent", show(w), show(g))
			}
		}
		if res == nil || !same(lift(res.Metadata()), p.meta) {
			h.fail("a query returns another summary than the server sent", show(p.meta), show(res))
		}
		h.compare()
		return
	}
	if err == nil {
		h.fail("a query the server does not complete succeeds", "an error after "+kind, fmt.Sprintf("%d rows", len(rows)))
	}
	if rows != nil || res != nil && fmt.Sprint(res) != "<nil>" {
		h.fail("a failing query returns a partial result", "no result", fmt.Sprintf("%v %v", rows, res))
	}
	h.afterFault(kind, err)
}

func (h *history) controlFault() (sig string, k reply) {
	if h.r.Intn(4) != 0 {
		return "", reply{}
	}
	kind := faultKinds[h.r.Intn(len(faultKinds))]
	if h.q.v < 3 && h.r.Intn(2) == 0 {
		return kind, reply{"p:" + kind}
	}
	return kind, reply{kind}
}

func (h *history) begin() {
	db := ""
	if h.r.Intn(3) == 0 {
		db = name(h.r, "movies")
	}
	kind, k := h.controlFault()
	h.mu.Lock()
	h.control = map[byte]reply{sigBegin: k}
	h.mu.Unlock()
	what := h.step("Begin(%q) [answer %q]", db, k.kind)
	var tx connection.ITransaction
	var err error
	within(20*time.Second, what, h.hist, func() { tx, err = h.c.BeginWithDatabase(db) })
	switch {
	case h.dead:
		if err == nil {
			h.fail("a transaction begins on a closed connection", "an error", "a transaction")
		}
	case h.tx != nil:
		if err == nil {
			h.fail("a second transaction begins", "an error", "a transaction")
		}
		h.compare()
	case db != "" && h.q.v < 4:
		if err == nil {
			h.fail("a database is named on a protocol without databases", "an error", "a transaction")
		}
		h.compare()
	case kind == "":
		if err != nil {
			h.fail("begin fails although the server acknowledged it", "a transaction", err.Error())
		}
		h.want = append(h.want, h.q.control(sigBegin, "BEGIN", db)...)
		h.tx, h.txdb = tx, db
		h.compare()
		h.checkTx()
	default:
		h.want = append(h.want, h.q.control(sigBegin, "BEGIN", db)...)
		if err == nil {
			h.fail("begin succeeds although the server did not acknowledge it", "an error after "+kind, "a transaction")
		}
		h.afterFault(kind, err)
	}
}

func (h *history) end(tx connection.ITransaction, stale bool) {
	commit := h.r.Intn(2) == 0
	idle := !stale && h.r.Intn(5) == 0
	sig, name := byte(sigRollback), "ROLLBACK"
	if commit && !idle {
		sig, name = sigCommit, "COMMIT"
	}
	kind, k := h.controlFault()
	h.mu.Lock()
	h.control = map[byte]reply{sig: k}
	h.mu.Unlock()
	label := name
	if idle {
		label = "MakeIdle"
	}
	if stale {
		label += " of an ended transaction"
	}
	what := h.step("%s [answer %q]", label, k.kind)
	var err error
	within(20*time.Second, what, h.hist, func() {
		switch {
		case idle:
			err = h.c.MakeIdle()
		case commit:
			err = tx.Commit()
		default:
			err = tx.Rollback()
		}
	})
	switch {
	case stale || h.dead:
		if err == nil {
			h.fail("ending an ended transaction succeeds", "an error", "nil")
		}
		h.compare()
	case kind == "":
		if err != nil {
			h.fail(name+" fails although the server acknowledged it", "nil", err.Error())
		}
		h.want = append(h.want, h.q.control(sig, name, "")...)
		h.endTx()
		h.compare()
	default:
		h.want = append(h.want, h.q.control(sig, name, "")...)
		if err == nil {
			h.fail(name+" succeeds although the server did not acknowledge it", "an error after "+kind, "nil")
		}
		h.afterFault(kind, err)
	}
}

func (h *history) close() {
	kind := ""
	var k reply
	if h.tx != nil {
		kind, k = h.controlFault()
		if kind == "stall" {
			kind, k = "", reply{}
		}
	}
	h.mu.Lock()
	h.control = map[byte]reply{sigRollback: k}
	h.mu.Unlock()
	was := h.tx
	what := h.step("Close() [rollback answered %q]", k.kind)
	var err error
	within(20*time.Second, what, h.hist, func() { err = h.c.Close() })
	if h.dead {
		if err == nil {
			h.fail("a second close succeeds", "already closed", "nil")
		}
		return
	}
	if kind == "" && err != nil {
		h.fail("close fails", "nil", err.Error())
	}
	h.mustBeClosed("Close was called")
	if kind == "" {
		h.loose = false
		if was != nil {
			h.want = append(h.want, h.q.control(sigRollback, "ROLLBACK", "")...)
		}
		if h.q.v >= 3 {
			h.want = append(h.want, event{sig: sigGoodbye, fields: []interface{}{}})
		}
		h.compare()
		h.loose = true
	} else if h.tx == nil && was != nil {
		// closed with whatever the rollback came to
	}
	within(20*time.Second, what, h.hist, func() { err = h.c.Close() })
	if err == nil || !errors.Is(err, bolterr.ErrClosed) {
		h.fail("a second close is not reported", "ErrClosed", fmt.Sprint(err))
	}
}

func (h *history) run(n int) {
	for i := 0; i < n; i++ {
		switch k := h.r.Intn(20); {
		case k < 7:
			if h.tx != nil && h.q.v >= 3 {
				h.query(h.tx, false)
			} else {
				h.queryPlain()
			}
		case k < 11:
			h.begin()
		case k < 14:
			if h.tx != nil {
				h.query(h.tx, false)
			} else if len(h.old) > 0 {
				h.query(h.old[h.r.Intn(len(h.old))], true)
			}
		case k < 17:
			if h.tx != nil {
				h.end(h.tx, false)
			} else if len(h.old) > 0 {
				h.end(h.old[h.r.Intn(len(h.old))], true)
			}
		case k < 18:
			h.step("ValidateOpen()")
			var o bool
			within(20*time.Second, "ValidateOpen()", h.hist, func() { o = h.c.ValidateOpen() })
			if o == h.dead {
				h.fail("ValidateOpen is wrong", fmt.Sprint(!h.dead), fmt.Sprint(o))
			}
		case k < 19:
			h.checkTx()
		default:
			if h.r.Intn(4) == 0 || h.dead {
				h.close()
			}
		}
		if h.dead && h.r.Intn(4) == 0 {
			break
		}
	}
	if !h.dead {
		h.close()
	}
}

func (h *history) queryPlain() { h.query(nil, false) }

func searchHistory(prop string) func(r *rand.Rand) {
	return func(r *rand.Rand) {
		for i := 0; !late(); i++ {
			v := i%4 + 1
			h := newHistory(r, v, prop)
			h.run(2 + r.Intn(10))
			h.s.close()
		}
	}
}

// C10 and C11: every fault at every place, then another query
func faultGrid() {
	for v := 1; v <= 4; v++ {
		for _, resetIgnored := range []bool{false, true} {
			for _, run := range []bool{true, false} {
				for _, kind := range []string{"failure", "ignored", "record", "weird", "garbage", "partial", "drop"} {
					if kind == "record" && !run {
						continue
					}
					for _, in := range []bool{false, true} {
						if late() {
							return
						}
						h := newHistory(rand.New(rand.NewSource(seed+int64(v))), v, "")
						if in {
							h.r = zeroRand()
							h.begin()
						}
						p := plan{runMeta: map[string]interface{}{}, rows: [][]interface{}{{int64(1)}, {int64(2)}}, meta: map[string]interface{}{}}
						if run {
							p.run = reply{kind}
						} else {
							p.pull, p.afterRow = reply{kind}, 1
						}
						h.plans["FAULT"] = p
						h.plans["NEXT"] = plan{runMeta: map[string]interface{}{}, rows: [][]interface{}{{"next"}}, meta: map[string]interface{}{"m": "next"}}
						if resetIgnored {
							h.control = map[byte]reply{}
						}
						what := h.step("Query(FAULT) [RUN %q PULL %q, in transaction %v]", p.run.kind, p.pull.kind, in)
						var err error
						var rows [][]interface{}
						within(20*time.Second, what, h.hist, func() {
							if in {
								rows, _, err = h.tx.Query("FAULT", nil)
							} else {
								rows, _, err = h.c.Query("FAULT", nil)
							}
						})
						if err == nil {
							h.fail("a query the server does not complete succeeds", "an error", fmt.Sprint(rows))
						}
						h.want = append(h.want, h.q.run("FAULT", nil, "", in)...)
						h.afterFault(kind, err)
						what = h.step("Query(NEXT)")
						within(20*time.Second, what, h.hist, func() { rows, _, err = h.c.Query("NEXT", nil) })
						if h.dead && err == nil {
							h.fail("a query runs on a closed connection", "an error", fmt.Sprint(rows))
						}
						if !h.dead && (err != nil || fmt.Sprint(rows) != "[[next]]") {
							h.fail("the query after a failure does not get its own response", "[[next]]", fmt.Sprint(rows, err))
						}
						h.s.close()
					}
				}
			}
		}
	}
}

type zeros struct{}

func (zeros) Int63() int64 { return 1 << 40 * 3 }
func (zeros) Seed(int64)   {}
func zeroRand() *rand.Rand { return rand.New(rand.NewSource(7)) }

// C22: several callers on one connection
func searchC22(r *rand.Rand) {
	for round := 0; !late(); round++ {
		v := round%4 + 1
		s := newServer(v)
		s.slow = time.Duration(r.Intn(3)) * time.Millisecond / 2
		s.query = func(t *session, q string, params map[string]interface{}, meta map[string]interface{}) plan {
			p := plan{runMeta: map[string]interface{}{}, rows: [][]interface{}{{q}, {q}}, meta: map[string]interface{}{"of": q}}
			if strings.HasSuffix(q, "fail") {
				p.run = reply{"failure"}
			}
			if strings.HasSuffix(q, "half") {
				p.pull, p.afterRow = reply{"failure"}, 1
			}
			return p
		}
		s.start()
		c, err := connect(s, "")
		if err != nil {
			found("opening a connection fails", fmt.Sprintf("protocol %d", v), "a connection", err.Error())
		}
		t := s.last()
		in := fmt.Sprintf("protocol %d, 6 goroutines on one connection running queries (some failing), transactions, ValidateOpen and a final Close (round %d, seed %d)", v, round, seed)
		doing("%s", in)
		var wg sync.WaitGroup
		closing := round%2 == 1
		for g := 0; g < 6; g++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 8; i++ {
					q := fmt.Sprintf("G%d.%d", g, i)
					switch rr.Intn(8) {
					case 0:
						q += "fail"
					case 1:
						q += "half"
					}
					if g < 2 && rr.Intn(2) == 0 {
						tx, err := c.Begin()
						if err == nil {
							rows, _, err := tx.Query(q, nil)
							if err == nil && (len(rows) != 2 || rows[0][0] != q) {
								found("a caller receives another caller's response", in+"; transaction query "+q, q, fmt.Sprint(rows))
							}
							if rr.Intn(2) == 0 {
								tx.Commit()
							} else {
								tx.Rollback()
							}
							tx.IsClosed()
						}
						continue
					}
					if g == 2 && rr.Intn(4) == 0 {
						c.MakeIdle()
						continue
					}
					rows, res, err := c.Query(q, nil)
					if err == nil && (len(rows) != 2 || rows[0][0] != q || rows[1][0] != q || res.Metadata()["of"] != q) {
						found("a caller receives another caller's response", in+"; query "+q, q, fmt.Sprint(rows))
					}
					if err == nil && (strings.HasSuffix(q, "fail") || strings.HasSuffix(q, "half")) {
						found("a failing query succeeds", in+"; query "+q, "an error", fmt.Sprint(rows))
					}
					if err != nil && !closing && !strings.HasSuffix(q, "fail") && !strings.HasSuffix(q, "half") {
						found("a query the server answers fails", in+"; query "+q, q, err.Error())
					}
					if closing && g == 5 && i == 4 {
						c.Close()
					}
				}
			}(g)
		}
		done := make(chan bool)
		go func() { wg.Wait(); c.Close(); c.ValidateOpen(); close(done) }()
		select {
		case <-done:
		case <-time.After(40 * time.Second):
			buf := make([]byte, 4000)
			buf = buf[:runtime.Stack(buf, true)]
			found("the calls do not return", in, "every call returns", string(buf))
		}
		if b := t.complaint(); b != "" && !closing {
			found("the server receives exchanges out of order", in, "one exchange after the other", b)
		}
		evs := t.log()
		for i, e := range evs {
			if e.sig == sigRun && i+1 < len(evs) && evs[i+1].sig != sigPull {
				found("exchanges are interleaved", in, "PULL after RUN", fmt.Sprint(evs[max0(i-2):min0(i+3, len(evs))]))
			}
		}
		s.close()
	}
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// C23: timeouts through the public interface
func searchC23(r *rand.Rand) {
	for v := 1; v <= 4; v++ {
		s := newServer(v)
		s.query = func(t *session, q string, params map[string]interface{}, meta map[string]interface{}) plan {
			p := plan{runMeta: map[string]interface{}{}, rows: [][]interface{}{{q}}, meta: map[string]interface{}{}}
			if q == "stall" {
				p.run = reply{"stall"}
			}
			if q == "drop" {
				p.run = reply{"drop"}
			}
			if q == "slow" {
				time.Sleep(400 * time.Millisecond)
			}
			return p
		}
		s.start()
		in := fmt.Sprintf("protocol %d, timeout 700ms", v)
		h := func() string { return in }
		c, err := connection.CreateBoltConn("bolt://neo4j:pw@" + s.addr + "?timeout=700ms")
		if err != nil {
			found("opening a connection fails", in, "a connection", err.Error())
		}
		for i := 0; i < 4; i++ {
			// each operation has its own deadline
			time.Sleep(500 * time.Millisecond)
			within(15*time.Second, "Query(slow)", h, func() { _, _, err = c.Query("slow", nil) })
			if err != nil {
				found("an operation fails although each answer is in time", in+fmt.Sprintf("; 500ms pause, query answered after 400ms (time %d)", i), "a result", err.Error())
			}
		}
		var t0 time.Time
		bad := func(what string, err error) {
			if err == nil {
				found("a query without an answer succeeds", in+"; "+what, "an error", "nil")
			}
			if what == "stall" && !errors.Is(err, driver.ErrBadConn) && !strings.Contains(err.Error(), "bad connection") {
				found("a transport failure is not a bad connection", in+"; "+what, driver.ErrBadConn.Error(), err.Error())
			}
			if d := time.Since(t0); d > 6*time.Second {
				found("an operation is not bounded by the timeout", in+"; "+what, "an error within a second or so", d.String())
			}
		}
		t0 = time.Now()
		within(15*time.Second, "Query(stall)", h, func() { _, _, err = c.Query("stall", nil) })
		bad("stall", err)
		c2, err := connection.CreateBoltConn("bolt://neo4j:pw@" + s.addr + "?timeout=700ms")
		if err == nil {
			t0 = time.Now()
			within(15*time.Second, "Query(drop)", h, func() { _, _, err = c2.Query("drop", nil) })
			bad("drop", err)
		}
		s.close()
	}
	// writes that block: the server never reads
	l, addr := deaf([]byte{0, 0, 0, 1}, chunk(minimal.pack(Struct{sigSuccess, []interface{}{map[string]interface{}{}}}), func() int { return 100 }))
	in := "a server that acknowledges and then reads nothing; a 64 MB query, timeout 1s"
	c, err := connection.CreateBoltConn("bolt://neo4j:pw@" + addr + "?timeout=1")
	if err == nil {
		t0 := time.Now()
		within(25*time.Second, "Query", func() string { return in }, func() { _, _, err = c.Query(strings.Repeat("x", 64<<20), nil) })
		if err == nil {
			found("a query nobody reads succeeds", in, "an error", "nil")
		}
		if !errors.Is(err, driver.ErrBadConn) && !strings.Contains(err.Error(), "bad connection") {
			found("a transport failure is not a bad connection", in, driver.ErrBadConn.Error(), err.Error())
		}
		if d := time.Since(t0); d > 8*time.Second {
			found("a write is not bounded by the timeout", in, "an error within a second or so", d.String())
		}
	}
	l.Close()
	dialTimeouts()
}

func init() {
	for _, p := range []string{"C10", "C11", "C12", "C13", "C14"} {
		p := p
		searches[p] = func(r *rand.Rand) {
			faultGrid()
			if p == "C13" || p == "C11" {
				peerGone()
			}
			searchHistory(p)(r)
		}
	}
	searches["C22"] = searchC22
	searches["C23"] = searchC23
	_ = os.Stderr
}

// C13: a connection whose peer has gone, or that has been sent something unasked for, is not open
func peerGone() {
	for v := 1; v <= 4; v++ {
		for _, how := range []string{"peer closes", "peer sends a byte"} {
			s := newServer(v)
			s.start()
			c, err := connect(s, "")
			if err != nil {
				found("opening a connection fails", fmt.Sprintf("protocol %d", v), "a connection", err.Error())
			}
			in := fmt.Sprintf("protocol %d: open, query, %s, ValidateOpen", v, how)
			h := func() string { return in }
			var open bool
			within(20*time.Second, "ValidateOpen", h, func() { open = c.ValidateOpen() })
			if !open {
				found("an open connection reports itself closed", in, "true", "false")
			}
			within(20*time.Second, "Query", h, func() { _, _, err = c.Query("q", nil) })
			if err != nil {
				found("a query after ValidateOpen fails", in, "rows", err.Error())
			}
			t := s.last()
			if how == "peer closes" {
				t.c.Close()
			} else {
				t.c.Write([]byte{0x17})
			}
			time.Sleep(20 * time.Millisecond)
			within(20*time.Second, "ValidateOpen", h, func() { open = c.ValidateOpen() })
			if open {
				found("a connection that can not be used reports itself open", in, "false", "true")
			}
			within(20*time.Second, "ValidateOpen again", h, func() { open = c.ValidateOpen() })
			if open {
				found("a connection that reported itself closed reports itself open again", in+", ValidateOpen", "false", "true")
			}
			var rows [][]interface{}
			within(20*time.Second, "Query", h, func() { rows, _, err = c.Query("later", nil) })
			if err == nil {
				found("a connection that reported itself closed runs a query", in+", query", "an error", fmt.Sprint(rows))
			}
			s.close()
		}
	}
}
