package main

// A scripted Bolt server on loopback, written from the protocol and not from the code under test.

import (
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"
)

const (
	sigInit     = 0x01
	sigGoodbye  = 0x02
	sigReset    = 0x0F
	sigRun      = 0x10
	sigBegin    = 0x11
	sigCommit   = 0x12
	sigRollback = 0x13
	sigDiscard  = 0x2F
	sigPull     = 0x3F
	sigSuccess  = 0x70
	sigRecord   = 0x71
	sigIgnored  = 0x7E
	sigFailure  = 0x7F
)

// reply is what the server does instead of the normal course
type reply struct {
	kind string // "", "failure", "ignored", "record", "garbage", "badchunk", "drop", "stall", "partial", "weird"
}

// plan says how a query is answered
type plan struct {
	runMeta  map[string]interface{}
	rows     [][]interface{}
	meta     map[string]interface{}
	run      reply
	pull     reply
	afterRow int // pull's reply comes after so many rows
}

type event struct {
	sig    byte
	fields []interface{}
	state  string // of the server when the request came
}

func (e event) String() string {
	n := map[byte]string{1: "INIT/HELLO", 2: "GOODBYE", 0x0F: "RESET", 0x10: "RUN", 0x11: "BEGIN", 0x12: "COMMIT", 0x13: "ROLLBACK", 0x2F: "DISCARD", 0x3F: "PULL"}[e.sig]
	return fmt.Sprintf("%s%v", n, e.fields)
}

type session struct {
	s       *server
	n       int
	c       net.Conn
	mu      sync.Mutex
	hand    []byte
	events  []event
	tx      bool
	eof     bool // the peer closed
	bad     string
	version int
	done    chan struct{}
}

func (t *session) log() []event {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]event{}, t.events...)
}

func (t *session) open() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return !t.eof
}

func (t *session) inTx() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.tx
}

func (t *session) complaint() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.bad
}

// waitEOF tells whether the peer closes its end soon
func (t *session) waitEOF(d time.Duration) bool {
	select {
	case <-t.done:
	case <-time.After(d):
	}
	return !t.open()
}

type server struct {
	version  int
	answer   []byte // the answer to the handshake if not the version
	pieces   bool   // the answer comes byte by byte
	l        net.Listener
	addr     string
	mu       sync.Mutex
	sess     []*session
	query    func(t *session, q string, params map[string]interface{}, meta map[string]interface{}) plan
	onMsg    func(t *session, e event) reply // for anything but RUN and PULL
	onInit   func(t *session, e event) reply
	rnd      func(n int) int
	slow     time.Duration
	frag     bool
	stallTLS bool
	tlsConf  *tls.Config
	stop     chan struct{}
}

func newServer(version int) *server {
	s := &server{version: version, stop: make(chan struct{})}
	s.query = func(t *session, q string, params map[string]interface{}, meta map[string]interface{}) plan {
		return plan{runMeta: map[string]interface{}{"fields": []interface{}{"x"}}, rows: [][]interface{}{{q}}, meta: map[string]interface{}{"type": q}}
	}
	return s
}

func (s *server) start() *server {
	var err error
	for i := 0; i < 50; i++ {
		s.l, err = net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		panic("replay: can not listen: " + err.Error())
	}
	s.addr = s.l.Addr().String()
	go func() {
		for {
			c, err := s.l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			t := &session{s: s, n: len(s.sess), c: c, done: make(chan struct{}), version: s.version}
			s.sess = append(s.sess, t)
			s.mu.Unlock()
			go t.serve()
		}
	}()
	return s
}

func (s *server) close() {
	s.l.Close()
	close(s.stop)
	for _, t := range s.sessions() {
		t.c.Close()
	}
}

func (s *server) sessions() []*session {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*session{}, s.sess...)
}

func (s *server) openCount() int {
	n := 0
	for _, t := range s.sessions() {
		if t.open() {
			n++
		}
	}
	return n
}

// settle waits until so many sessions are open, for a while
func (s *server) settle(n int, d time.Duration) int {
	end := time.Now().Add(d)
	for s.openCount() != n && time.Now().Before(end) {
		time.Sleep(2 * time.Millisecond)
	}
	return s.openCount()
}

func (s *server) last() *session {
	ss := s.sessions()
	if len(ss) == 0 {
		return nil
	}
	return ss[len(ss)-1]
}

func (t *session) fault(f string, a ...interface{}) {
	t.mu.Lock()
	if t.bad == "" {
		t.bad = fmt.Sprintf(f, a...)
	}
	t.mu.Unlock()
}

func (t *session) write(b []byte) {
	if t.s.frag && t.s.rnd != nil {
		for len(b) > 0 {
			n := 1 + t.s.rnd(7)
			if n > len(b) {
				n = len(b)
			}
			t.c.Write(b[:n])
			b = b[n:]
		}
		return
	}
	t.c.Write(b)
}

func (t *session) send(sig byte, fields ...interface{}) {
	msg := minimal.pack(Struct{sig, fields})
	t.write(chunk(msg, func() int {
		if t.s.rnd != nil {
			return 1 + t.s.rnd(40)
		}
		return 8000
	}))
}

func (t *session) readMsg() ([]byte, error) {
	var msg []byte
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(t.c, h); err != nil {
			if len(msg) > 0 {
				t.fault("the stream ended inside a message")
			}
			return nil, err
		}
		n := int(binary.BigEndian.Uint16(h))
		if n == 0 {
			if len(msg) == 0 {
				continue
			}
			return msg, nil
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(t.c, b); err != nil {
			t.fault("the stream ended inside a chunk")
			return nil, err
		}
		msg = append(msg, b...)
	}
}

const (
	failCode = "Neo.ClientError.Statement.SyntaxError"
	failMsg  = "planned failure"
)

var failMeta = map[string]interface{}{"code": failCode, "message": failMsg}

// do carries out an abnormal reply; false ends the session
func (t *session) do(k reply) (goon, failed bool) {
	switch k.kind {
	case "failure":
		t.send(sigFailure, failMeta)
		return true, true
	case "ignored":
		t.send(sigIgnored, map[string]interface{}{})
		return true, false
	case "record":
		t.send(sigRecord, []interface{}{"stray"})
		return true, false
	case "weird":
		t.write(chunk(minimal.pack([]interface{}{int64(1), "what"}), func() int { return 100 }))
		return true, false
	case "garbage":
		t.write([]byte{0, 3, 0xEF, 0xEE, 0xED, 0, 0})
		return true, false
	case "partial":
		t.write([]byte{0, 5, 0xB1, 0x70})
		return false, false
	case "drop":
		return false, false
	case "stall":
		select {
		case <-t.s.stop:
		case <-time.After(30 * time.Second):
		}
		return false, false
	}
	return true, false
}

func (t *session) serve() {
	defer func() {
		t.c.Close()
		t.mu.Lock()
		t.eof = true
		t.mu.Unlock()
		close(t.done)
	}()
	if t.s.stallTLS {
		<-t.s.stop
		return
	}
	if t.s.tlsConf != nil {
		tc := tls.Server(t.c, t.s.tlsConf)
		tc.SetDeadline(time.Now().Add(5 * time.Second))
		if tc.Handshake() != nil {
			return
		}
		tc.SetDeadline(time.Time{})
		t.c = tc
	}
	hand := make([]byte, 20)
	n, err := io.ReadFull(t.c, hand)
	t.mu.Lock()
	t.hand = hand[:n]
	t.mu.Unlock()
	if err != nil {
		return
	}
	ans := []byte{0, 0, 0, byte(t.s.version)}
	if t.s.answer != nil {
		ans = t.s.answer
	}
	if t.s.pieces {
		for i := range ans {
			t.c.Write(ans[i : i+1])
			time.Sleep(3 * time.Millisecond)
		}
	} else {
		t.c.Write(ans)
	}
	if len(ans) < 4 {
		return
	}
	failed := false
	var cur *plan
	for {
		msg, err := t.readMsg()
		if err != nil {
			return
		}
		v, rest, err := parse(msg, 0)
		s, ok := v.(Struct)
		if err != nil || !ok || len(rest) > 0 {
			t.fault("not a message: %x", msg)
			return
		}
		if t.s.slow > 0 {
			time.Sleep(t.s.slow)
		}
		t.mu.Lock()
		st := "ready"
		if failed {
			st = "failed"
		} else if cur != nil {
			st = "streaming"
		}
		e := event{s.Sig, s.Fields, st}
		t.events = append(t.events, e)
		first := len(t.events) == 1
		t.mu.Unlock()
		if first != (s.Sig == sigInit) {
			t.fault("%v as message %d of the session", e, len(t.events))
		}
		if s.Sig == sigInit {
			k := reply{}
			if t.s.onInit != nil {
				k = t.s.onInit(t, e)
			}
			if k.kind != "" {
				if goon, _ := t.do(k); !goon {
					return
				}
				failed = k.kind == "failure"
				continue
			}
			t.send(sigSuccess, map[string]interface{}{"server": "fake"})
			continue
		}
		if s.Sig == sigReset {
			k := reply{}
			if t.s.onMsg != nil {
				k = t.s.onMsg(t, e)
			}
			if goon, _ := t.do(k); !goon {
				return
			}
			if k.kind == "" {
				failed, cur = false, nil
				t.mu.Lock()
				t.tx = false
				t.mu.Unlock()
				t.send(sigSuccess, map[string]interface{}{})
			}
			continue
		}
		if s.Sig == sigGoodbye {
			return
		}
		if failed {
			t.send(sigIgnored, map[string]interface{}{})
			continue
		}
		if s.Sig == sigBegin || s.Sig == sigCommit || s.Sig == sigRollback {
			if cur != nil {
				t.fault("%v while a result is outstanding", e)
			}
			k := reply{}
			if t.s.onMsg != nil {
				k = t.s.onMsg(t, e)
			}
			goon, f := t.do(k)
			if !goon {
				return
			}
			failed = f
			if k.kind == "" {
				t.mark(s.Sig, e)
				t.send(sigSuccess, map[string]interface{}{})
			}
			continue
		}
		switch s.Sig {
		case sigRun:
			if cur != nil {
				t.fault("%v while a result is outstanding", e)
			}
			q := ""
			var params, meta map[string]interface{}
			if len(s.Fields) > 0 {
				q, _ = s.Fields[0].(string)
			}
			if len(s.Fields) > 1 {
				params, _ = s.Fields[1].(map[string]interface{})
			}
			if len(s.Fields) > 2 {
				meta, _ = s.Fields[2].(map[string]interface{})
			}
			if sig := map[string]byte{"BEGIN": sigBegin, "COMMIT": sigCommit, "ROLLBACK": sigRollback}[q]; sig != 0 {
				k := reply{}
				if t.s.onMsg != nil {
					k = t.s.onMsg(t, event{sig, s.Fields, st})
				}
				p := plan{runMeta: map[string]interface{}{"fields": []interface{}{}}, meta: map[string]interface{}{}}
				if len(k.kind) > 2 && k.kind[:2] == "p:" {
					p.pull = reply{k.kind[2:]}
				} else {
					p.run = k
				}
				goon, f := t.do(p.run)
				if !goon {
					return
				}
				failed = f
				if p.run.kind == "" {
					if p.pull.kind == "" {
						t.mark(sig, e)
					}
					t.send(sigSuccess, p.runMeta)
				}
				if !f {
					cur = &p
				}
				continue
			}
			p := t.s.query(t, q, params, meta)
			goon, f := t.do(p.run)
			if !goon {
				return
			}
			failed = f
			if p.run.kind == "" {
				t.send(sigSuccess, p.runMeta)
			}
			if !f {
				cur = &p
			}
		case sigPull, sigDiscard:
			if cur == nil {
				t.fault("%v with no result", e)
				t.send(sigFailure, map[string]interface{}{"code": "Neo.ClientError.Request.Invalid", "message": "no result"})
				failed = true
				continue
			}
			p := cur
			cur = nil
			stopped := false
			for i, row := range p.rows {
				if p.pull.kind != "" && i == p.afterRow {
					stopped = true
					break
				}
				t.send(sigRecord, row)
			}
			_ = stopped
			goon, f := t.do(p.pull)
			if !goon {
				return
			}
			failed = f
			if p.pull.kind == "" {
				t.send(sigSuccess, p.meta)
			}
		default:
			t.fault("unknown request %v", e)
			return
		}
	}
}

func (t *session) mark(sig byte, e event) {
	t.mu.Lock()
	defer t.mu.Unlock()
	switch sig {
	case sigBegin:
		if t.tx && t.bad == "" {
			t.bad = "a second BEGIN inside a transaction"
		}
		t.tx = true
	default:
		if !t.tx && t.bad == "" {
			t.bad = fmt.Sprintf("%v without a transaction", e)
		}
		t.tx = false
	}
}
