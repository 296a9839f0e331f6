package main

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"
)

const patience = 25 * time.Second

// sockets counts the sockets this process holds
func sockets() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func settleSockets(n int, d time.Duration) int {
	end := time.Now().Add(d)
	for sockets() > n && time.Now().Before(end) {
		time.Sleep(3 * time.Millisecond)
	}
	return sockets()
}

// story is a history of calls, for reports
type story struct {
	mu    sync.Mutex
	lines []string
}

func (h *story) add(f string, a ...interface{}) {
	h.mu.Lock()
	h.lines = append(h.lines, fmt.Sprintf(f, a...))
	if len(h.lines) > 60 {
		h.lines = append(h.lines[:2:2], append([]string{"..."}, h.lines[len(h.lines)-40:]...)...)
	}
	h.mu.Unlock()
	doing("%s", h.text())
}

func (h *story) text() string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return strings.Join(h.lines, "; ")
}

func (h *story) fail(what, want, got string) { found(what, h.text(), want, got) }

// call runs f with a time limit
func (h *story) call(what string, f func()) {
	within(patience, what, h.text, f)
}

var tag int64

// who runs a query over a connection and tells which session of which server served it
func (h *story) who(c connection.IConnection, ss ...*server) (*session, error) {
	q := fmt.Sprintf("RETURN %d", atomic.AddInt64(&tag, 1))
	var err error
	h.call("Query", func() { _, _, err = c.Query(q, nil) })
	if err != nil {
		return nil, err
	}
	for _, s := range ss {
		for _, t := range s.sessions() {
			for _, e := range t.log() {
				if e.sig == sigRun && len(e.fields) > 0 && e.fields[0] == q {
					return t, nil
				}
			}
		}
	}
	return nil, fmt.Errorf("no server saw the query")
}

// ---------------------------------------------------------------- C15

// authOf gives user and password of the initialisation
func authOf(t *session) (string, string, bool) {
	for _, e := range t.log() {
		if e.sig != sigInit {
			continue
		}
		for _, f := range e.fields {
			if m, ok := f.(map[string]interface{}); ok {
				u, _ := m["principal"].(string)
				p, _ := m["credentials"].(string)
				return u, p, true
			}
		}
	}
	return "", "", false
}

func oddText(r *rand.Rand) string {
	pieces := []string{"neo4j", "pw", "@", ":", "/", "?", "#", "%", "%41", " ", "+", "&", "=", "é", "\u4e16", "[", "]", "'", "\"", "\\", "bolt://", "bolt", "routing", "+routing", "tls", "&tls=false", "?timeout=1", "://", "$", ";", ",", "!", "~", ".", "-", "|", "<>", "{}", "\t"}
	s := ""
	for i := 1 + r.Intn(4); i > 0; i-- {
		if r.Intn(6) == 0 {
			s += name(r, "x")
		} else {
			s += pieces[r.Intn(len(pieces))]
		}
	}
	return s
}

func overviewRow(version int, id string, role string, addrs ...interface{}) []interface{} {
	if addrs == nil {
		addrs = []interface{}{}
	}
	if version == 4 {
		return []interface{}{id, addrs, map[string]interface{}{"system": role, "neo4j": "FOLLOWER"}, []interface{}{"g"}}
	}
	return []interface{}{id, addrs, role, []interface{}{"g"}, "default"}
}

func answerOverview(s *server, rows func() [][]interface{}, count *int64) {
	plain := s.query
	s.query = func(t *session, q string, params map[string]interface{}, meta map[string]interface{}) plan {
		if strings.Contains(strings.ToLower(q), "cluster.overview") {
			if s.version == 4 && meta["db"] != "system" {
				return plan{run: reply{"failure"}}
			}
			p := plan{runMeta: map[string]interface{}{"fields": []interface{}{"id", "addresses"}}, rows: rows(), meta: map[string]interface{}{"type": "r"}}
			if count != nil {
				atomic.AddInt64(count, 1)
			}
			if p.rows == nil {
				p.run = reply{"failure"}
			}
			return p
		}
		return plain(t, q, params, meta)
	}
}

func searchC15(r *rand.Rand) {
	badConfigs()
	k := makeCerts()
	defer os.RemoveAll(k.dir)
	for !late() {
		configured(r, k)
	}
}

func configured(r *rand.Rand, k *certs) {
	h := &story{}
	v := []int{4, 4, 3, 2, 1}[r.Intn(5)]
	routed := r.Intn(3) == 0
	if routed {
		v = 3 + r.Intn(2)
	}
	s, s2 := newServer(v), newServer(v)
	user, pass := "neo4j", "pw"
	if r.Intn(4) > 0 {
		user, pass = oddText(r), oddText(r)
		if r.Intn(10) == 0 {
			pass = ""
		}
	}
	useString := r.Intn(2) == 0
	if useString && r.Intn(8) == 0 {
		user, pass = "", ""
	}
	secure := r.Intn(3) == 0
	mutual := secure && r.Intn(2) == 0
	noVerify := secure && r.Intn(2) == 0
	ca, cert, key := "", "", ""
	if secure {
		conf := &tls.Config{Certificates: []tls.Certificate{k.server}, ClientCAs: k.pool}
		if mutual {
			conf.ClientAuth = tls.RequireAndVerifyClientCert
			cert, key = k.certFile, k.keyFile
		}
		s.tlsConf, s2.tlsConf = conf, conf
		if !noVerify {
			ca = k.caFile
		} else if r.Intn(2) == 0 {
			ca = k.otherCA
		}
	}
	s.start()
	s2.start()
	defer s.close()
	defer s2.close()
	rows := func() [][]interface{} {
		return [][]interface{}{overviewRow(v, "1", "LEADER", "bolt://"+s.addr), overviewRow(v, "2", "FOLLOWER", "http://x", "bolt://"+s2.addr)}
	}
	answerOverview(s, rows, nil)
	answerOverview(s2, rows, nil)
	host, portText, _ := net.SplitHostPort(s.addr)
	port := 0
	fmt.Sscan(portText, &port)

	var opts []goBolt.Opt
	var said []string
	opt := func(o goBolt.Opt, f string, a ...interface{}) {
		opts = append(opts, o)
		said = append(said, fmt.Sprintf(f, a...))
	}
	scheme := "bolt"
	if routed {
		scheme = "bolt+routing"
	}
	timeout := 3 * time.Second
	if !useString {
		opt(goBolt.WithHostPort(host, port), "WithHostPort(%q, %d)", host, port)
		opt(goBolt.WithBasicAuth(user, pass), "WithBasicAuth(%q, %q)", user, pass)
		if secure {
			opt(goBolt.WithTLS(ca, cert, key, noVerify), "WithTLS(%q, %q, %q, %v)", ca, cert, key, noVerify)
		}
		opt(goBolt.WithTimeout(timeout), "WithTimeout(%v)", timeout)
		if routed {
			opt(goBolt.WithRouting(), "WithRouting()")
		}
	} else {
		u := url.URL{Scheme: scheme, Host: s.addr}
		if r.Intn(8) == 0 {
			u.Scheme = strings.ToUpper(scheme)
		}
		q := url.Values{}
		if user == "" {
		} else if r.Intn(3) == 0 {
			opt(goBolt.WithBasicAuth(user, pass), "WithBasicAuth(%q, %q)", user, pass)
		} else {
			u.User = url.UserPassword(user, pass)
		}
		if secure {
			if r.Intn(3) == 0 {
				opt(goBolt.WithTLS(ca, cert, key, noVerify), "WithTLS(%q, %q, %q, %v)", ca, cert, key, noVerify)
			} else {
				q.Set("tls", []string{"true", "1", "TRUE", "t"}[r.Intn(4)])
				if ca != "" {
					q.Set("tls_ca_cert_file", ca)
				}
				if mutual {
					q.Set("tls_cert_file", cert)
					q.Set("tls_key_file", key)
				}
				if noVerify {
					q.Set("tls_no_verify", []string{"true", "1"}[r.Intn(2)])
				} else if r.Intn(2) == 0 {
					q.Set("tls_no_verify", []string{"false", "0"}[r.Intn(2)])
				}
			}
		}
		switch r.Intn(3) {
		case 0:
			opt(goBolt.WithTimeout(timeout), "WithTimeout(%v)", timeout)
		case 1:
			q.Set("timeout", "3")
		default:
			q.Set("timeout", "3000ms")
		}
		u.RawQuery = q.Encode()
		opt(goBolt.WithConnectionString(u.String()), "WithConnectionString(%q)", u.String())
	}
	if r.Intn(3) == 0 {
		n := uint16(num(r, 1, 100, 65535))
		opt(goBolt.WithChunkSize(n), "WithChunkSize(%d)", n)
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i]; said[i], said[j] = said[j], said[i] })
	slow := !secure && r.Intn(40) == 0
	h.add("server at %s, version %d; NewClient(%s)", s.addr, v, strings.Join(said, ", "))
	var cl goBolt.IClient
	var err error
	h.call("NewClient", func() { cl, err = goBolt.NewClient(opts...) })
	if err != nil {
		h.fail("the configuration is refused", "a client", err.Error())
	}
	d, err := cl.NewDriver()
	if routed != (err != nil) {
		h.add("NewDriver()")
		h.fail("a plain driver for a routing client", fmt.Sprint("error: ", routed), fmt.Sprint(err))
	}
	var conns []connection.IConnection
	open := func(what string, f func() (connection.IConnection, error)) {
		h.add("%s", what)
		var c connection.IConnection
		h.call(what, func() { c, err = f() })
		if err != nil {
			h.fail("a connection with the configuration can not be opened", "a connection", err.Error())
		}
		conns = append(conns, c)
	}
	if err == nil && d != nil {
		open("NewDriver().Open", func() (connection.IConnection, error) { return d.Open(bolt_mode.WriteMode) })
	}
	var p goBolt.IDriverPool
	if r.Intn(2) == 0 || routed {
		h.add("NewDriverPool(2)")
		h.call("NewDriverPool", func() { p, err = cl.NewDriverPool(2) })
		if err != nil {
			h.fail("a pool with the configuration can not be opened", "a pool", err.Error())
		}
		open("pool.Open(ReadMode)", func() (connection.IConnection, error) { return p.Open(bolt_mode.ReadMode) })
		open("pool.Open(WriteMode)", func() (connection.IConnection, error) { return p.Open(bolt_mode.WriteMode) })
	}
	if routed && len(conns) == 2 {
		if t, err := h.who(conns[0], s, s2); err != nil || t.s != s2 {
			h.fail("a reading connection is not one to the follower", "a query at "+s2.addr, fmt.Sprint(err))
		}
		if t, err := h.who(conns[1], s, s2); err != nil || t.s != s {
			h.fail("a writing connection is not one to the leader", "a query at "+s.addr, fmt.Sprint(err))
		}
	}
	for _, sv := range []*server{s, s2} {
		if n := len(sv.sessions()); n == 0 && sv == s {
			h.fail("no connection to the configured host and port", "a connection", "none")
		}
		for _, t := range sv.sessions() {
			u, pw, ok := authOf(t)
			if (!ok && user != "") || u != user || pw != pass {
				h.fail("a connection uses other credentials", fmt.Sprintf("%q %q", user, pass), fmt.Sprintf("%q %q", u, pw))
			}
			if tc, ok := t.c.(*tls.Conn); secure {
				if !ok {
					h.fail("a connection is not encrypted", "TLS", "plain text")
				}
				if pc := tc.ConnectionState().PeerCertificates; mutual && (len(pc) == 0 || !pc[0].Equal(k.clientCert)) {
					h.fail("the client certificate is not used", "the certificate", "none")
				}
			}
		}
	}
	if slow {
		// an answer in time is taken, no answer is waited for longer than configured
		s.query = func(t *session, q string, _, _ map[string]interface{}) plan {
			if strings.HasPrefix(q, "late") {
				time.Sleep(1200 * time.Millisecond)
				return plan{runMeta: map[string]interface{}{}, meta: map[string]interface{}{}}
			}
			return plan{run: reply{"stall"}}
		}
		h.add("a query answered after 1.2s")
		c := conns[len(conns)-1]
		h.call("Query", func() { _, _, err = c.Query("late", nil) })
		if err != nil {
			h.fail("an answer within the timeout is not waited for", "a result", err.Error())
		}
		h.add("a query that is not answered")
		t0 := time.Now()
		h.call("Query", func() { _, _, err = c.Query("never", nil) })
		if d := time.Since(t0); err == nil || d > timeout+2*time.Second || d < timeout-time.Second {
			h.fail("the configured timeout is not used", "an error after "+timeout.String(), fmt.Sprint(err, " after ", d))
		}
	}
	for _, c := range conns {
		h.call("Close", func() { c.Close() })
	}
	if p != nil {
		for _, c := range conns {
			if r.Intn(2) == 0 {
				h.call("Reclaim", func() { p.Reclaim(c) })
			}
		}
		h.call("pool.Close", func() { p.Close() })
	}
	if p := os.Getenv("VERIF_TRACE"); p != "" {
		fmt.Println(h.text())
	}
}

func badConfigs() {
	hp := goBolt.WithHostPort("127.0.0.1", 7687)
	auth := goBolt.WithBasicAuth("neo4j", "pw")
	str := goBolt.WithConnectionString("bolt://neo4j:pw@127.0.0.1:7687")
	for _, c := range []struct {
		what string
		opts []goBolt.Opt
	}{
		{"no options", nil},
		{"a nil option", []goBolt.Opt{nil}},
		{"a nil option after good ones", []goBolt.Opt{hp, auth, nil}},
		{"no host", []goBolt.Opt{auth}},
		{"an empty host", []goBolt.Opt{goBolt.WithHostPort("", 7687), auth}},
		{"port 0", []goBolt.Opt{goBolt.WithHostPort("h", 0), auth}},
		{"port -1", []goBolt.Opt{goBolt.WithHostPort("h", -1), auth}},
		{"port 65536", []goBolt.Opt{goBolt.WithHostPort("h", 65536), auth}},
		{"no user", []goBolt.Opt{hp}},
		{"an empty user", []goBolt.Opt{hp, goBolt.WithBasicAuth("", "pw")}},
		{"a connection string and host options", []goBolt.Opt{str, hp}},
		{"host options and a connection string", []goBolt.Opt{hp, str}},
		{"a connection string and WithRouting", []goBolt.Opt{str, goBolt.WithRouting()}},
		{"WithRouting and a connection string", []goBolt.Opt{goBolt.WithRouting(), str}},
		{"scheme http", []goBolt.Opt{goBolt.WithConnectionString("http://neo4j:pw@h:7687")}},
		{"scheme neo4j", []goBolt.Opt{goBolt.WithConnectionString("neo4j://neo4j:pw@h:7687")}},
		{"scheme bolts", []goBolt.Opt{goBolt.WithConnectionString("bolts://neo4j:pw@h:7687")}},
		{"scheme bolt+s", []goBolt.Opt{goBolt.WithConnectionString("bolt+s://neo4j:pw@h:7687")}},
		{"scheme bolt+routings", []goBolt.Opt{goBolt.WithConnectionString("bolt+routings://neo4j:pw@h:7687")}},
		{"no scheme", []goBolt.Opt{goBolt.WithConnectionString("//neo4j:pw@h:7687")}},
		{"not a URL", []goBolt.Opt{goBolt.WithConnectionString("bolt://h:x%zz")}},
		{"a string without host", []goBolt.Opt{goBolt.WithConnectionString("bolt://neo4j:pw@:7687")}},
		{"a string without port", []goBolt.Opt{goBolt.WithConnectionString("bolt://neo4j:pw@h")}},
		{"a string with port 0", []goBolt.Opt{goBolt.WithConnectionString("bolt://neo4j:pw@h:0")}},
		{"a string with port 65536", []goBolt.Opt{goBolt.WithConnectionString("bolt://neo4j:pw@h:65536")}},
		{"user without password", []goBolt.Opt{goBolt.WithConnectionString("bolt://neo4j@h:7687")}},
		{"user without password, routing", []goBolt.Opt{goBolt.WithConnectionString("bolt+routing://neo4j@h:7687")}},
		{"a bad timeout", []goBolt.Opt{goBolt.WithConnectionString("bolt://neo4j:pw@h:7687?timeout=soon")}},
		{"WithTLS and tls=false", []goBolt.Opt{goBolt.WithTLS("", "", "", false), goBolt.WithConnectionString("bolt://neo4j:pw@h:7687?tls=false")}},
		{"greater than version 0", []goBolt.Opt{hp, auth, goBolt.WithProtocolVersionGreaterThan(0)}},
		{"greater than version 4", []goBolt.Opt{hp, auth, goBolt.WithProtocolVersionGreaterThan(4)}},
		{"less than version 1", []goBolt.Opt{hp, auth, goBolt.WithProtocolVersionLessThan(1)}},
		{"less than version 5", []goBolt.Opt{hp, auth, goBolt.WithProtocolVersionLessThan(5)}},
		{"strict version 0", []goBolt.Opt{hp, auth, goBolt.WithStrictProtocolVersion(0)}},
		{"strict version 5", []goBolt.Opt{hp, auth, goBolt.WithStrictProtocolVersion(5)}},
	} {
		var cl goBolt.IClient
		var err error
		if p := guard(func() { cl, err = goBolt.NewClient(c.opts...) }); p != "" {
			found("an invalid configuration panics", c.what, "an error", p)
		}
		if err == nil {
			found("an invalid configuration is accepted", c.what, "an error", fmt.Sprintf("%T", cl))
		}
	}
	for v := 0; v < 6; v++ {
		for what, o := range map[string]goBolt.Opt{"greater": goBolt.WithProtocolVersionGreaterThan(v), "less": goBolt.WithProtocolVersionLessThan(v), "strict": goBolt.WithStrictProtocolVersion(v)} {
			ok := map[string]bool{"greater": v >= 1 && v <= 3, "less": v >= 2 && v <= 4, "strict": v >= 1 && v <= 4}[what]
			if _, err := goBolt.NewClient(hp, auth, o); (err == nil) != ok {
				found("a protocol version option is judged wrongly", fmt.Sprintf("%s %d", what, v), fmt.Sprint("accepted: ", ok), fmt.Sprint(err))
			}
		}
	}
}

// ---------------------------------------------------------------- C19

type lease struct {
	c    connection.IConnection
	t    *session
	left bool // its server left the table for a while
}

func searchC19(r *rand.Rand) {
	for !late() {
		plainPool(r)
	}
}

func plainPool(r *rand.Rand) {
	h := &story{}
	base := sockets()
	v := 1 + r.Intn(4)
	s := newServer(v)
	var refuse, noRollback int32
	s.onMsg = func(t *session, e event) reply {
		if e.sig == sigRollback && atomic.LoadInt32(&noRollback) == 1 {
			return reply{"failure"}
		}
		return reply{}
	}
	s.onInit = func(t *session, e event) reply {
		if atomic.LoadInt32(&refuse) == 1 {
			return reply{"failure"}
		}
		return reply{}
	}
	s.start()
	size := 1 + r.Intn(4)
	if r.Intn(6) == 0 {
		size = 5 + r.Intn(4)
	}
	if n := num(r, int64(size)); r.Intn(4) == 0 && n > 0 && n < 30 {
		size = int(n)
	}
	h.add("server version %d; NewDriverPool(%d)", v, size)
	cl, err := goBolt.NewClient(goBolt.WithConnectionString("bolt://neo4j:pw@" + s.addr + "?timeout=5"))
	if err != nil {
		h.fail("no client", "a client", err.Error())
	}
	p, err := cl.NewDriverPool(size)
	if err != nil {
		h.fail("no pool", "a pool", err.Error())
	}
	if err := guardErr(func() error { return p.Reclaim(nil) }); err == nil {
		h.add("Reclaim(nil)")
		h.fail("reclaiming nil is accepted", "an error", "nil")
	}
	var lent []lease
	take := func(c connection.IConnection) {
		for _, l := range lent {
			if l.c == c {
				h.fail("a lent connection is lent again", "another connection", "the same")
			}
		}
		t, err := h.who(c, s)
		if err != nil {
			h.fail("a lent connection does not work", "a result", err.Error())
		}
		for _, l := range lent {
			if l.t == t {
				h.fail("a lent connection is lent again", "another connection", "the same socket")
			}
		}
		if t.inTx() {
			h.fail("a connection is lent with a transaction left open on it", "no transaction", fmt.Sprint(t.log()))
		}
		lent = append(lent, lease{c: c, t: t})
	}
	drop := func(i int) lease {
		l := lent[i]
		lent = append(lent[:i:i], lent[i+1:]...)
		return l
	}
	use := func(l lease) bool { // false when the connection may be dead
		switch r.Intn(9) {
		case 0:
			h.add("a transaction is begun on it")
			var err error
			h.call("Begin", func() { _, err = l.c.Begin() })
			if err != nil {
				h.fail("a lent connection can not begin", "a transaction", err.Error())
			}
		case 1:
			h.add("it is closed by its user")
			h.call("Close", func() { l.c.Close() })
			return false
		case 2:
			h.add("its server goes away")
			l.t.c.Close()
			l.t.waitEOF(2 * time.Second)
			return false
		case 3:
			h.add("a query on it is answered with FAILURE")
			s.mu.Lock()
			old := s.query
			s.query = func(t *session, q string, a, b map[string]interface{}) plan { return plan{run: reply{"failure"}} }
			s.mu.Unlock()
			h.call("Query", func() { l.c.Query("bad", nil) })
			s.mu.Lock()
			s.query = old
			s.mu.Unlock()
		}
		return true
	}
	for i := 3 + r.Intn(25); i > 0; i-- {
		switch k := r.Intn(10); {
		case k < 4:
			if len(lent) < size {
				h.add("Open")
				var c connection.IConnection
				var err error
				h.call("Open", func() { c, err = p.Open(bolt_mode.WriteMode) })
				if err != nil {
					h.fail(fmt.Sprintf("opening fails with %d of %d lent", len(lent), size), "a connection", err.Error())
				}
				take(c)
				if n := s.settle(min0(s.openCount(), size), 300*time.Millisecond); n > size {
					h.fail("more connections than the pool may have", fmt.Sprint(size), fmt.Sprint(n))
				}
			} else if r.Intn(3) == 0 {
				h.add("Open with all %d lent", size)
				got := make(chan lease, 1)
				go func() {
					c, err := p.Open(bolt_mode.WriteMode)
					if err != nil {
						h.fail("a waiting opening fails", "a connection", err.Error())
					}
					got <- lease{c: c}
				}()
				select {
				case <-got:
					h.fail("opening gives a connection beyond the limit", "waiting", "a connection")
				case <-time.After(30 * time.Millisecond):
				}
				l := drop(r.Intn(len(lent)))
				use(l)
				h.add("Reclaim")
				h.call("Reclaim", func() { p.Reclaim(l.c) })
				select {
				case g := <-got:
					take(g.c)
				case <-time.After(patience):
					h.fail("a waiting opening is not served although one was reclaimed", "a connection", "nothing")
				}
			}
		case k < 8:
			if len(lent) > 0 {
				l := drop(r.Intn(len(lent)))
				alive := use(l)
				if alive && r.Intn(4) == 0 {
					h.add("(rolling back is answered with FAILURE)")
					atomic.StoreInt32(&noRollback, 1)
					alive = !l.t.inTx()
				}
				h.add("Reclaim")
				var err error
				h.call("Reclaim", func() { err = p.Reclaim(l.c) })
				atomic.StoreInt32(&noRollback, 0)
				if alive && err != nil {
					h.fail("reclaiming a live connection fails", "no error", err.Error())
				}
				if alive && l.t.inTx() && l.t.open() {
					time.Sleep(20 * time.Millisecond)
					if l.t.inTx() && l.t.open() {
						h.fail("a reclaimed connection keeps its transaction", "rolled back", fmt.Sprint(l.t.log()))
					}
				}
			}
		case k == 8:
			ss := s.sessions()
			if len(ss) > 0 {
				t := ss[r.Intn(len(ss))]
				for _, l := range lent {
					if l.t == t {
						t = nil
						break
					}
				}
				if t != nil {
					h.add("the server of an idle connection goes away")
					t.c.Close()
					t.waitEOF(2 * time.Second)
				}
			}
		case k == 9:
			if len(lent) < size {
				for _, t := range s.sessions() {
					held := false
					for _, l := range lent {
						held = held || l.t == t
					}
					if !held {
						t.c.Close()
						t.waitEOF(2 * time.Second)
					}
				}
				h.add("idle connections die and the server refuses new ones; Open")
				atomic.StoreInt32(&refuse, 1)
				var c connection.IConnection
				var err error
				h.call("Open", func() { c, err = p.Open(bolt_mode.ReadMode) })
				atomic.StoreInt32(&refuse, 0)
				if err == nil {
					h.fail("a dead connection is lent", "an error", fmt.Sprintf("%T", c))
				}
			}
		}
	}
	for len(lent) > 0 && r.Intn(3) > 0 {
		l := drop(0)
		use(l)
		h.add("Reclaim")
		h.call("Reclaim", func() { p.Reclaim(l.c) })
	}
	h.add("Close")
	h.call("Close", func() { err = p.Close() })
	if err != nil {
		h.fail("closing the pool fails", "no error", err.Error())
	}
	h.add("Open")
	var c connection.IConnection
	h.call("Open", func() { c, err = p.Open(bolt_mode.WriteMode) })
	if err == nil {
		h.fail("a closed pool opens a connection", "an error", fmt.Sprintf("%T", c))
	}
	h.add("Close")
	h.call("Close", func() { err = p.Close() })
	if err == nil {
		h.fail("closing again is accepted", "an error", "nil")
	}
	for len(lent) > 0 {
		l := drop(0)
		use(l)
		h.add("Reclaim after Close")
		h.call("Reclaim", func() { p.Reclaim(l.c) })
	}
	s.mu.Lock()
	ss := append([]*session{}, s.sess...)
	s.mu.Unlock()
	for _, t := range ss {
		if !t.waitEOF(2 * time.Second) {
			h.fail("a socket stays open after the pool is closed and all was reclaimed", "closed", "session "+fmt.Sprint(t.n)+" is open")
		}
	}
	s.close()
	if n := settleSockets(base, 2*time.Second); n > base {
		h.fail("sockets are not released", fmt.Sprint(base), fmt.Sprint(n))
	}
}

func guardErr(f func() error) (err error) {
	if p := guard(func() { err = f() }); p != "" {
		return fmt.Errorf("%s", p)
	}
	return err
}

// ---------------------------------------------------------------- C16, C17, C18

// cluster is some servers and what the overview says about them
type cluster struct {
	version int
	ss      []*server
	mu      sync.Mutex
	rows    [][]interface{}
	count   int64
}

func newCluster(version, n int) *cluster {
	k := &cluster{version: version}
	for i := 0; i < n; i++ {
		s := newServer(version)
		answerOverview(s, func() [][]interface{} {
			k.mu.Lock()
			defer k.mu.Unlock()
			return k.rows
		}, &k.count)
		k.ss = append(k.ss, s.start())
	}
	return k
}

func (k *cluster) set(rows [][]interface{}) {
	k.mu.Lock()
	k.rows = rows
	k.mu.Unlock()
}

func (k *cluster) close() {
	for _, s := range k.ss {
		s.close()
	}
}

// refreshed waits until a refresh that saw the present table is over
func (k *cluster) refreshed(h *story) {
	n := atomic.LoadInt64(&k.count)
	for end := time.Now().Add(patience); atomic.LoadInt64(&k.count) < n+2; time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			h.fail("the table is not refreshed", "an overview query", "none")
		}
	}
}

func (k *cluster) roles(r *rand.Rand, n int) (rows [][]interface{}, role []string, said string) {
	for i := range k.ss {
		x := []string{"LEADER", "FOLLOWER", "READ_REPLICA", ""}[r.Intn(4)]
		if i >= n {
			x = ""
		}
		if i == 0 && n > 0 {
			x = "LEADER"
		}
		if i == 1 && n > 1 {
			x = "FOLLOWER"
		}
		role = append(role, x)
		if x == "" {
			if r.Intn(2) == 0 {
				odd := []string{"http://", "https://", "bolt+s://", "boltx://", "bolt:/", "bolts://", "http://bolt://", " bolt://", ""}
				rows = append(rows, overviewRow(k.version, fmt.Sprint(i), "FOLLOWER", odd[r.Intn(len(odd))]+k.ss[i].addr))
			}
			continue
		}
		addrs := []interface{}{"bolt://" + k.ss[i].addr}
		if r.Intn(2) == 0 {
			addrs = append(addrs, "http://"+k.ss[i].addr)
		}
		if r.Intn(2) == 0 {
			addrs = append([]interface{}{"https://" + k.ss[i].addr}, addrs...)
		}
		y := x
		switch r.Intn(4) {
		case 0:
			y = strings.ToLower(x)
		case 1:
			y = x[:1] + strings.ToLower(x[1:])
		}
		rows = append(rows, overviewRow(k.version, fmt.Sprint(i), y, addrs...))
	}
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	return rows, role, fmt.Sprint(role)
}

func (k *cluster) url() string { return "bolt+routing://neo4j:pw@" + k.ss[0].addr + "?timeout=5" }

func (k *cluster) pool(h *story, size int, every time.Duration) (routing.IRoutingPool, error) {
	p, err := routing.NewRoutingPool(k.url(), size, every, "neo4j:pw", "?timeout=5")
	if err != nil {
		h.fail("no routing pool", "a pool", err.Error())
	}
	h.call("Start", func() { err = p.Start() })
	return p, err
}

func rowText(rows [][]interface{}) string { return show(interface{}(toList(rows))) }

func toList(rows [][]interface{}) []interface{} {
	var l []interface{}
	for _, r := range rows {
		l = append(l, r)
	}
	return l
}

func searchC16(r *rand.Rand) {
	for !late() {
		placement(r)
	}
}

// placement: the connections a pool opens show the table
func placement(r *rand.Rand) {
	h := &story{}
	k := newCluster([]int{4, 3}[r.Intn(2)], 5)
	defer k.close()
	var want [2][]*server // the servers of each mode in row order
	order := func(rows [][]interface{}) (w, rd []*server) {
		var followers, replicas []*server
		for _, row := range rows {
			role, _ := row[2].(string)
			if m, ok := row[2].(map[string]interface{}); ok {
				role, _ = m["system"].(string)
			}
			for _, a := range row[1].([]interface{}) {
				for _, s := range k.ss {
					if a == "bolt://"+s.addr {
						switch strings.ToLower(role) {
						case "leader":
							w = append(w, s)
						case "follower":
							followers = append(followers, s)
						case "read_replica":
							replicas = append(replicas, s)
						}
					}
				}
			}
		}
		return w, append(followers, replicas...)
	}
	rows, _, _ := k.roles(r, 5)
	want[0], want[1] = order(rows)
	spoilt := ""
	if r.Intn(3) == 0 {
		rows, spoilt = spoil(r, k.version, rows)
	}
	k.set(rows)
	h.add("version %d, overview %s (servers %s), NewRoutingPool of 12", k.version, rowText(rows), k.names())
	p, err := k.pool(h, 12, 25*time.Millisecond)
	if spoilt != "" {
		if err == nil {
			p.Stop()
			h.fail("an overview that is not valid is used: "+spoilt, "an error", "a pool")
		}
		return
	}
	if err != nil {
		h.fail("a valid overview is not used", "a pool", err.Error())
	}
	check := func(stage string) {
		for m, f := range []func() (connection.IConnection, error){p.BorrowRWConnection, p.BorrowRConnection} {
			var cs []connection.IConnection
			seen := map[*server]int{}
			var at []*server
			for i := 0; i < 6; i++ {
				var c connection.IConnection
				h.call("Borrow", func() { c, err = f() })
				if err != nil {
					h.fail(stage+"a connection can not be borrowed", "a connection", err.Error())
				}
				t, err := h.who(c, k.ss...)
				if err != nil {
					h.fail(stage+"a borrowed connection does not work", "a result", err.Error())
				}
				cs = append(cs, c)
				seen[t.s]++
				at = append(at, t.s)
			}
			var ws []string
			for i, s := range want[m] {
				ws = append(ws, s.addr)
				if seen[s] == 0 {
					h.fail(stage+fmt.Sprintf("a server of mode %d is not used", m), s.addr, fmt.Sprint(seen))
				}
				// one after the other in row order
				for j := 0; j+1 < len(at); j++ {
					if stage == "" && at[j] == s && at[j+1] != want[m][(i+1)%len(want[m])] {
						h.fail("connections do not go to the servers in row order", strings.Join(ws, " "), fmt.Sprint(at[j].addr, " then ", at[j+1].addr))
					}
				}
				delete(seen, s)
			}
			if len(seen) > 0 {
				for s := range seen {
					h.fail(stage+fmt.Sprintf("a server that is not of mode %d is used", m), strings.Join(ws, " "), s.addr)
				}
			}
			for _, c := range cs {
				h.call("Reclaim", func() { err = p.Reclaim(c) })
				if err != nil {
					h.fail(stage+"reclaiming fails", "no error", err.Error())
				}
			}
		}
	}
	check("")
	open := 0
	for _, s := range k.ss {
		open += s.openCount()
	}
	for i := 0; i < 3; i++ {
		bad, what := spoil(r, k.version, rows)
		h.add("the overview becomes %s (%s)", rowText(bad), what)
		k.set(bad)
		k.refreshed(h)
		check("after an overview that is not valid (" + what + "): ")
	}
	// nobody leads any more
	var rest [][]interface{}
	for _, row := range rows {
		role, _ := row[2].(string)
		if m, ok := row[2].(map[string]interface{}); ok {
			role, _ = m["system"].(string)
		}
		if strings.ToLower(role) != "leader" {
			rest = append(rest, row)
		}
	}
	h.add("the overview becomes %s", rowText(rest))
	k.set(rest)
	k.refreshed(h)
	var c connection.IConnection
	h.call("Borrow", func() { c, err = p.BorrowRWConnection() })
	if err == nil {
		h.fail("a connection for writing though the table has no leader", "an error", fmt.Sprint("a connection ", c.GetConnectionId()))
	}
	h.call("Stop", func() { p.Stop() })
}

func (k *cluster) names() string {
	var l []string
	for _, s := range k.ss {
		l = append(l, s.addr)
	}
	return strings.Join(l, " ")
}

// spoil makes an overview that is not valid
func spoil(r *rand.Rand, version int, good [][]interface{}) ([][]interface{}, string) {
	var rows [][]interface{}
	for _, x := range good {
		rows = append(rows, append([]interface{}{}, x...))
	}
	var bolt []int // rows that count
	for i, x := range rows {
		for _, a := range x[1].([]interface{}) {
			if strings.HasPrefix(a.(string), "bolt://") {
				bolt = append(bolt, i)
			}
		}
	}
	i := bolt[r.Intn(len(bolt))]
	other := []interface{}{nil, int64(1), true, []interface{}{}, map[string]interface{}{}, 1.5, "x"}
	pick := func(n int) interface{} { return other[r.Intn(n)] }
	setRole := func(x interface{}) {
		if version == 4 {
			rows[i][2] = map[string]interface{}{"system": x, "neo4j": "LEADER"}
		} else {
			rows[i][2] = x
		}
	}
	switch r.Intn(9) {
	case 0:
		return nil, "the query fails"
	case 1:
		rows[i] = rows[i][:r.Intn(len(rows[i]))]
		return rows, "a row is too short"
	case 2:
		rows[i] = append(rows[i], "more")
		return rows, "a row is too long"
	case 3:
		rows[i][0] = pick(6)
		return rows, "an id is not a string"
	case 4:
		rows[i][1] = []interface{}{nil, "bolt://x", int64(3), map[string]interface{}{"a": "b"}}[r.Intn(4)]
		return rows, "addresses are not a list"
	case 5:
		l := append([]interface{}{}, rows[i][1].([]interface{})...)
		rows[i][1] = append(l, pick(6))
		return rows, "an address is not a string"
	case 6:
		setRole(pick(6))
		return rows, "a role is not a string"
	case 7:
		setRole([]string{"", "LEADERS", "leade", "SLAVE", "ROLE", "UNKNOWN", "read-replica", " leader"}[r.Intn(8)])
		return rows, "a role is unknown"
	}
	if version == 4 {
		rows[i][2] = []interface{}{map[string]interface{}{"neo4j": "LEADER"}, map[string]interface{}{}, nil, "LEADER", []interface{}{"LEADER"}}[r.Intn(5)]
		return rows, "there is no role"
	}
	if r.Intn(2) == 0 {
		rows[i][3] = []interface{}{nil, "g", []interface{}{int64(1)}}[r.Intn(3)]
		return rows, "groups are not a list of strings"
	}
	rows[i][4] = pick(6)
	return rows, "a database is not a string"
}

func searchC17(r *rand.Rand) {
	for !late() {
		switch r.Intn(4) {
		case 0:
			crowd(r)
		case 1:
			dying(r)
		default:
			lending(r)
		}
	}
}

// dying: connections of a pool die, one borrower at a time all the same
func dying(r *rand.Rand) {
	h := &story{}
	k := newCluster([]int{4, 3}[r.Intn(2)], 4)
	defer k.close()
	rows, role, said := k.roles(r, 4)
	k.set(rows)
	size := 2 + r.Intn(7)
	h.add("version %d, servers %s, NewRoutingPool of %d", k.version, said, size)
	p, err := k.pool(h, size, []time.Duration{time.Hour, 3 * time.Millisecond}[r.Intn(2)])
	if err != nil {
		h.fail("the pool does not start", "a pool", err.Error())
	}
	borrow := [2]func() (connection.IConnection, error){p.BorrowRWConnection, p.BorrowRConnection}
	modes := [2]string{"BorrowRW", "BorrowR"}
	var lent [2][]lease
	for i := 5 + r.Intn(30); i > 0; i-- {
		m := r.Intn(2)
		switch x := r.Intn(8); {
		case x < 4:
			h.add("%s", modes[m])
			var c connection.IConnection
			h.call(modes[m], func() { c, err = borrow[m]() })
			if err != nil {
				continue
			}
			t, err := h.who(c, k.ss...)
			for q := 0; q < 2; q++ {
				for _, l := range lent[q] {
					if l.c == c || err == nil && l.t == t {
						h.fail("a lent connection is lent again", "another connection", "the same")
					}
				}
			}
			if err == nil {
				for j, s := range k.ss {
					if s == t.s && (m == 0) != (role[j] == "LEADER") {
						h.fail("a connection of the other mode is lent", modes[m], fmt.Sprint(t.s.addr, " of ", k.names(), " ", role))
					}
				}
			}
			lent[m] = append(lent[m], lease{c: c, t: t})
		case x < 6:
			if len(lent[m]) == 0 {
				continue
			}
			j := r.Intn(len(lent[m]))
			l := lent[m][j]
			lent[m] = append(lent[m][:j:j], lent[m][j+1:]...)
			if r.Intn(2) == 0 {
				h.add("it is closed")
				h.call("Close", func() { l.c.Close() })
			}
			h.add("Reclaim the %d. of %s", j, modes[m])
			h.call("Reclaim", func() { p.Reclaim(l.c) })
		default:
			h.add("every idle connection of %s dies", modes[m])
			for _, s := range k.ss {
				for _, t := range s.sessions() {
					used := !t.open()
					for q := range lent {
						for _, l := range lent[q] {
							used = used || l.t == t
						}
					}
					for j, s := range k.ss {
						used = used || s == t.s && (m == 0) != (role[j] == "LEADER")
					}
					if !used {
						t.c.Close()
						t.waitEOF(2 * time.Second)
					}
				}
			}
		}
	}
	h.call("Stop", func() { p.Stop() })
}

func maxima(size int) [2]int { // write, read
	return [2]int{(size + 1) / 2, size / 2}
}

// lending: one borrower at a time, by mode, in order
func lending(r *rand.Rand) {
	h := &story{}
	k := newCluster([]int{4, 3}[r.Intn(2)], 4)
	defer k.close()
	rows, role, said := k.roles(r, 4)
	k.set(rows)
	size := 2 + r.Intn(6)
	if n := num(r, int64(size)); r.Intn(4) == 0 && n > 1 && n < 30 {
		size = int(n)
	}
	if r.Intn(12) == 0 {
		size = 20 + r.Intn(10)
	}
	h.add("version %d, servers %s, NewRoutingPool of %d", k.version, said, size)
	p, err := k.pool(h, size, []time.Duration{time.Hour, 3 * time.Millisecond}[r.Intn(2)])
	if err != nil {
		h.fail("the pool does not start", "a pool", err.Error())
	}
	borrow := [2]func() (connection.IConnection, error){p.BorrowRWConnection, p.BorrowRConnection}
	modes := [2]string{"BorrowRW", "BorrowR"}
	max := maxima(size)
	var lent [2][]lease
	var idle [2][]*session // known tail of the queue, in order
	var unknown = max      // how many idle ones are ahead that were not seen yet
	modeOK := func(m int, t *session) bool {
		for i, s := range k.ss {
			if s == t.s {
				return (m == 0) == (role[i] == "LEADER") && role[i] != ""
			}
		}
		return false
	}
	for i := 5 + r.Intn(40); i > 0; i-- {
		m := r.Intn(2)
		switch x := r.Intn(8); {
		case x < 4:
			h.add("%s", modes[m])
			var c connection.IConnection
			h.call(modes[m], func() { c, err = borrow[m]() })
			if len(lent[m]) >= max[m] {
				if err == nil {
					h.fail("more connections are lent than the pool has for the mode", "an error", "a connection")
				}
				continue
			}
			if err != nil {
				h.fail(fmt.Sprintf("borrowing fails with %d of %d lent", len(lent[m]), max[m]), "a connection", err.Error())
			}
			for q := 0; q < 2; q++ {
				for _, l := range lent[q] {
					if l.c == c {
						h.fail("a lent connection is lent again", "another connection", "the same")
					}
				}
			}
			t, err := h.who(c, k.ss...)
			if err != nil {
				h.fail("a lent connection does not work", "a result", err.Error())
			}
			for q := 0; q < 2; q++ {
				for _, l := range lent[q] {
					if l.t == t {
						h.fail("a lent connection is lent again", "another connection", "the same socket")
					}
				}
			}
			if !modeOK(m, t) {
				h.fail("a connection of the other mode is lent", modes[m], fmt.Sprint(t.s.addr, " of ", k.names(), " ", role))
			}
			if t.inTx() {
				h.fail("a connection is lent with a transaction left open on it", "no transaction", fmt.Sprint(t.log()))
			}
			if unknown[m] > 0 {
				unknown[m]--
				for _, o := range idle[m] {
					if o == t {
						h.fail("connections are not lent in queue order", "one that waits longer", fmt.Sprint("session ", t.n))
					}
				}
			} else {
				if idle[m][0] != t {
					h.fail("connections are not lent in queue order", fmt.Sprint("session ", idle[m][0].n, " of ", idle[m][0].s.addr), fmt.Sprint("session ", t.n, " of ", t.s.addr))
				}
				idle[m] = idle[m][1:]
			}
			lent[m] = append(lent[m], lease{c: c, t: t})
		case x < 7:
			if len(lent[m]) == 0 {
				continue
			}
			j := r.Intn(len(lent[m]))
			l := lent[m][j]
			lent[m] = append(lent[m][:j:j], lent[m][j+1:]...)
			if r.Intn(3) == 0 {
				h.add("Begin on it")
				h.call("Begin", func() { l.c.Begin() })
			}
			h.add("Reclaim the %d. of %s", j, modes[m])
			h.call("Reclaim", func() { err = p.Reclaim(l.c) })
			if err != nil {
				h.fail("reclaiming a live connection fails", "no error", err.Error())
			}
			idle[m] = append(idle[m], l.t)
			if r.Intn(6) == 0 {
				h.add("Reclaim it again")
				h.call("Reclaim", func() { err = p.Reclaim(l.c) })
				if err == nil {
					h.fail("a connection is reclaimed twice", "an error", "nil")
				}
				return // it is closed now, though idle
			}
		default:
			h.add("Reclaim an unknown connection")
			c, err := connection.CreateBoltConn("bolt://neo4j:pw@" + k.ss[0].addr + "?timeout=5")
			if err != nil {
				h.fail("no connection", "a connection", err.Error())
			}
			if r.Intn(2) == 0 {
				c.SetConnectionId("read-x")
			}
			t, _ := h.who(c, k.ss...)
			h.call("Reclaim", func() { err = p.Reclaim(c) })
			if err == nil {
				h.fail("an unknown connection is taken", "an error", "nil")
			}
			if t != nil && !t.waitEOF(2*time.Second) {
				h.fail("an unknown connection is not closed", "closed", "open")
			}
		}
	}
	if err := guardErr(func() error { return p.Reclaim(nil) }); err == nil {
		h.add("Reclaim(nil)")
		h.fail("reclaiming nil is accepted", "an error", "nil")
	}
	for m := range lent {
		for _, l := range lent[m] {
			h.call("Reclaim", func() { p.Reclaim(l.c) })
		}
	}
	h.call("Stop", func() { p.Stop() })
}

// crowd: many borrowers at once
func crowd(r *rand.Rand) {
	h := &story{}
	k := newCluster(4, 4)
	defer k.close()
	rows, _, said := k.roles(r, 4)
	k.set(rows)
	size := 2 + r.Intn(4)
	h.add("servers %s, NewRoutingPool of %d refreshed every 2ms, 6 goroutines borrow and reclaim", said, size)
	p, err := k.pool(h, size, 2*time.Millisecond)
	if err != nil {
		h.fail("the pool does not start", "a pool", err.Error())
	}
	var users sync.Map
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() { // pools do not get into each other's way
			defer wg.Done()
			for i := 0; i < 3; i++ {
				p, err := routing.NewRoutingPool(k.url(), 6, time.Hour, "neo4j:pw", "?timeout=5")
				if err == nil && p.Start() == nil {
					p.Stop()
				}
			}
		}()
	}
	for g := 0; g < 6; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(g)))
			for i := 0; i < 30; i++ {
				f := p.BorrowRConnection
				if r.Intn(2) == 0 {
					f = p.BorrowRWConnection
				}
				c, err := f()
				if err != nil {
					time.Sleep(time.Millisecond)
					continue
				}
				if _, dup := users.LoadOrStore(c, g); dup {
					h.fail("two borrowers have the same connection", "one", "two")
				}
				if r.Intn(4) == 0 {
					c.Query("RETURN 1", nil)
				}
				if r.Intn(8) == 0 {
					c.Close()
				}
				users.Delete(c)
				p.Reclaim(c)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		h.fail("borrowing and reclaiming hang", "an end", "none within a minute")
	}
	var c connection.IConnection
	h.call("Borrow", func() { c, err = p.BorrowRConnection() })
	h.add("Stop")
	h.call("Stop", func() { p.Stop() })
	if err == nil {
		time.Sleep(8 * time.Millisecond)
		h.add("Reclaim")
		h.call("Reclaim after Stop", func() { p.Reclaim(c) })
	}
}

func searchC18(r *rand.Rand) {
	for i := 0; !late(); i++ {
		if i%5 == 1 {
			between(r)
		} else {
			retiring(r)
		}
	}
}

// without drops the bolt rows of a role
func (k *cluster) without(rows [][]interface{}, role []string, leader bool) (rest [][]interface{}, now []string) {
	for _, row := range rows {
		gone := false
		for j, s := range k.ss {
			if role[j] == "" || leader != (role[j] == "LEADER") {
				continue
			}
			for _, a := range row[1].([]interface{}) {
				gone = gone || a == "bolt://"+s.addr
			}
		}
		if !gone {
			rest = append(rest, row)
		}
	}
	if len(rest) == 0 { // no rows at all say nothing
		return rows, role
	}
	for j := range role {
		x := role[j]
		if x != "" && leader == (x == "LEADER") {
			x = ""
		}
		now = append(now, x)
	}
	return
}

// between: what happens from one refresh to the next
func between(r *rand.Rand) {
	h := &story{}
	k := newCluster([]int{4, 3}[r.Intn(2)], 4)
	defer k.close()
	rows, role, said := k.roles(r, 4)
	k.set(rows)
	size := 2 + r.Intn(6)
	every := 150 * time.Millisecond
	h.add("version %d, servers %s, NewRoutingPool of %d refreshed every %v", k.version, said, size, every)
	p, err := k.pool(h, size, every)
	if err != nil {
		h.fail("the pool does not start", "a pool", err.Error())
	}
	borrow := [2]func() (connection.IConnection, error){p.BorrowRWConnection, p.BorrowRConnection}
	modes := [2]string{"BorrowRW", "BorrowR"}
	max := maxima(size)
	var lent [2][]lease
	all := func() {
		for m := range borrow {
			for len(lent[m]) < max[m] {
				h.add("%s", modes[m])
				var c connection.IConnection
				h.call(modes[m], func() { c, err = borrow[m]() })
				if err != nil {
					break
				}
				t, err := h.who(c, k.ss...)
				if err != nil {
					h.fail("a dead connection is lent", "a result", err.Error())
				}
				for j := range k.ss {
					if k.ss[j] == t.s && (role[j] == "" || (m == 0) != (role[j] == "LEADER")) {
						h.fail("a connection is lent whose server left the table of its mode", modes[m], fmt.Sprint("server ", j, " of ", role))
					}
				}
				lent[m] = append(lent[m], lease{c: c, t: t})
			}
		}
	}
	all()
	for i := 0; i < 2; i++ {
		rows, role, said = k.roles(r, 4)
		if r.Intn(3) == 0 {
			rows, role = k.without(rows, role, r.Intn(2) == 0)
			said = fmt.Sprint(role)
		}
		h.add("the table becomes %s; a refresh", said)
		k.set(rows)
		k.refreshed(h)
		for m := range lent {
			for _, l := range lent[m] {
				h.add("Reclaim")
				h.call("Reclaim", func() { p.Reclaim(l.c) })
			}
			lent[m] = nil
		}
		all()
	}
	h.call("Stop", func() { p.Stop() })
}

// retiring: nothing dead or retired is lent, nothing leaks, nothing else is dropped
func retiring(r *rand.Rand) {
	h := &story{}
	base := sockets()
	k := newCluster([]int{4, 3}[r.Intn(2)], 4)
	rows, role, said := k.roles(r, 4)
	k.set(rows)
	size := 2 + r.Intn(6)
	if n := num(r, int64(size)); r.Intn(4) == 0 && n > 1 && n < 30 {
		size = int(n)
	}
	if r.Intn(12) == 0 {
		size = 20 + r.Intn(10)
	}
	h.add("version %d, servers %s, NewRoutingPool of %d", k.version, said, size)
	p, err := k.pool(h, size, 4*time.Millisecond)
	if err != nil {
		h.fail("the pool does not start", "a pool", err.Error())
	}
	borrow := [2]func() (connection.IConnection, error){p.BorrowRWConnection, p.BorrowRConnection}
	modes := [2]string{"BorrowRW", "BorrowR"}
	max := maxima(size)
	var lent [2][]lease
	index := func(s *server) int {
		for i := range k.ss {
			if k.ss[i] == s {
				return i
			}
		}
		return -1
	}
	isLent := func(t *session) bool {
		for m := range lent {
			for _, l := range lent[m] {
				if l.t == t {
					return true
				}
			}
		}
		return false
	}
	overview := func(t *session) bool { // a session that is only for the overview
		for _, e := range t.log() {
			if e.sig == sigRun {
				if q, _ := e.fields[0].(string); strings.Contains(strings.ToLower(q), "overview") {
					return true
				}
			}
		}
		return false
	}
	for i := 5 + r.Intn(30); i > 0; i-- {
		m := r.Intn(2)
		switch x := r.Intn(12); {
		case x < 4:
			h.add("%s", modes[m])
			var c connection.IConnection
			h.call(modes[m], func() { c, err = borrow[m]() })
			if len(lent[m]) >= max[m] {
				if err == nil {
					h.fail("more connections are lent than the pool has for the mode", "an error", "a connection")
				}
				continue
			}
			any := false
			for j := range role {
				any = any || role[j] != "" && (m == 0) == (role[j] == "LEADER")
			}
			if err != nil {
				if any {
					h.fail(fmt.Sprintf("borrowing fails with %d of %d lent although a server is there", len(lent[m]), max[m]), "a connection", err.Error())
				}
				continue
			}
			t, err := h.who(c, k.ss...)
			if err != nil {
				h.fail("a dead connection is lent", "a result", err.Error())
			}
			if j := index(t.s); role[j] == "" || (m == 0) != (role[j] == "LEADER") {
				h.fail("a connection is lent whose server left the table of its mode", modes[m], fmt.Sprint("server ", j, " of ", role))
			}
			lent[m] = append(lent[m], lease{c: c, t: t})
		case x < 7:
			if len(lent[m]) == 0 {
				continue
			}
			j := r.Intn(len(lent[m]))
			l := lent[m][j]
			lent[m] = append(lent[m][:j:j], lent[m][j+1:]...)
			dead := false
			switch r.Intn(4) {
			case 0:
				h.add("the user closes it")
				h.call("Close", func() { l.c.Close() })
				dead = true
			case 1:
				h.add("its server goes away")
				l.t.c.Close()
				l.t.waitEOF(2 * time.Second)
				dead = true
			}
			h.add("Reclaim the %d. of %s (server %d)", j, modes[m], index(l.t.s))
			retired := role[index(l.t.s)] == "" || (m == 0) != (role[index(l.t.s)] == "LEADER")
			h.call("Reclaim", func() { err = p.Reclaim(l.c) })
			if !dead && !retired && !l.left && err != nil {
				h.fail("reclaiming a live connection fails", "no error", err.Error())
			}
			if retired && !l.t.waitEOF(2*time.Second) {
				h.fail("a reclaimed connection to a server that left the table stays open", "closed", "open")
			}
			if !dead && !retired && !l.left && !l.t.open() {
				h.fail("a reclaimed connection to a server of the table is closed", "open", "closed")
			}
		case x < 9:
			var ts []*session
			for _, s := range k.ss {
				for _, t := range s.sessions() {
					if t.open() && !isLent(t) && !overview(t) {
						ts = append(ts, t)
					}
				}
			}
			if len(ts) > 0 {
				t := ts[r.Intn(len(ts))]
				h.add("an idle connection to server %d dies", index(t.s))
				t.c.Close()
				t.waitEOF(2 * time.Second)
			}
		default:
			n := 4
			if r.Intn(8) == 0 {
				n = 1
			}
			before := role
			rows, role, said = k.roles(r, n)
			if r.Intn(5) == 0 {
				rows, role = k.without(rows, role, r.Intn(2) == 0)
				said = fmt.Sprint(role)
			}
			var kept, gone []*session
			k.refreshed(h)
			for j, s := range k.ss {
				for _, t := range s.sessions() {
					if !t.open() || isLent(t) || overview(t) {
						continue
					}
					now, was := role[j], before[j]
					switch {
					case now == "" || was != "" && (now == "LEADER") != (was == "LEADER"):
						gone = append(gone, t)
					case was != "":
						kept = append(kept, t)
					}
				}
			}
			h.add("the table becomes %s; a refresh", said)
			k.set(rows)
			k.refreshed(h)
			for m := range lent {
				for j := range lent[m] {
					if x := role[index(lent[m][j].t.s)]; x == "" || (m == 0) != (x == "LEADER") {
						lent[m][j].left = true
					}
				}
			}
			for _, t := range gone {
				if !overview(t) && !t.waitEOF(2*time.Second) {
					h.fail("an idle connection to a server that left the table stays open", "closed", fmt.Sprint("session ", t.n, " to server ", index(t.s), " is open, was ", before))
				}
			}
			for _, t := range kept {
				if !t.open() && !overview(t) && len(t.log()) > 0 {
					h.fail("a connection to a server still in the table is closed", "open", fmt.Sprint("session ", t.n, " to server ", index(t.s), " is closed, was ", before))
				}
			}
		}
	}
	for m := range lent {
		for len(lent[m]) > 0 && r.Intn(2) == 0 {
			l := lent[m][0]
			lent[m] = lent[m][1:]
			h.add("Reclaim")
			h.call("Reclaim", func() { p.Reclaim(l.c) })
		}
	}
	h.add("Stop")
	h.call("Stop", func() { err = p.Stop() })
	if err != nil {
		h.fail("stopping fails", "no error", err.Error())
	}
	for j, s := range k.ss {
		for _, t := range s.sessions() {
			if !isLent(t) && !t.waitEOF(2*time.Second) {
				h.fail("an idle connection stays open after Stop", "closed", fmt.Sprint("session ", t.n, " to server ", j, " is open"))
			}
		}
	}
	for _, l := range append(lent[0], lent[1]...) {
		if !l.t.open() {
			h.fail("a lent connection is closed by Stop", "open", "closed")
		}
		h.add("Reclaim after Stop")
		h.call("Reclaim", func() { err = p.Reclaim(l.c) })
		if err == nil {
			h.fail("a stopped pool takes a connection", "an error", "nil")
		}
		if !l.t.waitEOF(2 * time.Second) {
			h.fail("a connection reclaimed after Stop stays open", "closed", "open")
		}
	}
	for m := range borrow {
		h.add("%s", modes[m])
		var c connection.IConnection
		h.call(modes[m], func() { c, err = borrow[m]() })
		if err == nil {
			h.fail("a stopped pool lends", "an error", fmt.Sprintf("%T", c))
		}
	}
	k.close()
	if n := settleSockets(base, 2*time.Second); n > base {
		h.fail("sockets are not released", fmt.Sprint(base), fmt.Sprint(n))
	}
}

func init() {
	searches["C15"] = searchC15
	searches["C16"] = searchC16
	searches["C17"] = searchC17
	searches["C18"] = searchC18
	searches["C19"] = searchC19
}
