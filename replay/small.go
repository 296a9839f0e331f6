package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	bolterr "github.com/mindstand/go-bolt/errors"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/structures"
	"github.com/mindstand/go-bolt/structures/messages"
)

type M = map[string]interface{}

func searchC09(r *rand.Rand) {
	expect := func(in string, got structures.Structure, sig byte, fields ...interface{}) {
		if fields == nil {
			fields = []interface{}{}
		}
		if got == nil {
			found("there is no such request", in, fmt.Sprintf("%#x %v", sig, fields), "nil")
		}
		var g interface{}
		if p := guard(func() { g = lift(got.AllFields()) }); p != "" {
			found("the request panics", in, "its fields", p)
		}
		if byte(got.Signature()) != sig || got.Signature() > 255 {
			found("the request has another signature", in, fmt.Sprintf("%#x", sig), fmt.Sprintf("%#x", got.Signature()))
		}
		if !same(g, lift(fields)) {
			found("the request has other fields", in, show(fields), show(g))
		}
	}
	texts := []string{"", "RETURN 1", "BEGIN TRANSACTION", "x'\"\u00e9 $y", strings.Repeat("long ", 200)}
	pars := []M{nil, {}, {"a": int64(1)}, {"n": int64(2), "mode": "r", "db": "x", "list": []interface{}{"b", nil}}}
	modes := []bolt_mode.AccessMode{bolt_mode.ReadMode, bolt_mode.WriteMode}
	for v := 1; v <= 4; v++ {
		p, n, err := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
		if err != nil || n != v {
			found("a version has no protocol", fmt.Sprint(v), fmt.Sprint(v), fmt.Sprint(n, err))
		}
		in := func(f string, a ...interface{}) string { return fmt.Sprintf("version %d: ", v) + fmt.Sprintf(f, a...) }
		for round := 0; round < 2; round++ {
			texts, dbs := texts, []string{"", "movies"}
			if round > 0 && len(dict.Words) > 0 {
				texts = append([]string{}, dict.Words...)
				if len(texts) > 60 {
					texts = texts[:60]
				}
				dbs = append([]string{""}, texts...)
			}
			for _, t := range texts {
				for _, auth := range []M{{"scheme": "basic", "principal": t, "credentials": "s"}, {}, nil} {
					w := M{}
					for k, x := range auth {
						w[k] = x
					}
					i := in("GetInitMessage(%q, %v)", "agent "+t, auth)
					if v < 3 {
						expect(i, p.GetInitMessage("agent "+t, auth), sigInit, "agent "+t, w)
					} else {
						w["user_agent"] = "agent " + t
						expect(i, p.GetInitMessage("agent "+t, auth), sigInit, w)
					}
				}
				for _, ps := range pars {
					for _, m := range modes {
						for _, auto := range []bool{true, false} {
							for _, db := range dbs {
								if v < 4 && db != "" {
									continue
								}
								i := in("GetRunMessage(%q, %v, %q, mode %v, auto %v)", t, ps, db, m, auto)
								g := p.GetRunMessage(t, ps, db, m, auto)
								if v < 3 {
									expect(i, g, sigRun, t, ps)
									continue
								}
								meta := M{}
								if auto && db != "" {
									meta["db"] = db
								}
								if auto && m == bolt_mode.ReadMode {
									meta["mode"] = "r"
								}
								expect(i, g, sigRun, t, ps, meta)
							}
						}
					}
				}
			}
			if v < 4 {
				expect(in("GetPullAllMessage()"), p.GetPullAllMessage(), sigPull)
				expect(in("GetDiscardAllMessage()"), p.GetDiscardAllMessage(), sigDiscard)
				expect(in("GetDiscardMessage(7)"), p.GetDiscardMessage(7), sigDiscard)
			} else {
				expect(in("GetPullAllMessage()"), p.GetPullAllMessage(), sigPull, M{"n": int64(-1)})
				expect(in("GetDiscardAllMessage()"), p.GetDiscardAllMessage(), sigDiscard, M{"n": int64(-1)})
				for _, q := range []int64{0, 1, 7, -1, -2, 1 << 40} {
					w := M{"n": int64(-1)}
					if q != -1 {
						w["qid"] = q
					}
					expect(in("GetDiscardMessage(%d)", q), p.GetDiscardMessage(q), sigDiscard, w)
				}
			}
			for _, m := range modes {
				for _, db := range dbs {
					if v < 4 && db != "" {
						continue
					}
					i := in("GetTxBeginMessage(%q, %v)", db, m)
					if v < 3 {
						expect(i, p.GetTxBeginMessage(db, m), sigRun, "BEGIN", M{})
						continue
					}
					meta := M{}
					if db != "" {
						meta["db"] = db
					}
					if m == bolt_mode.ReadMode {
						meta["mode"] = "r"
					}
					expect(i, p.GetTxBeginMessage(db, m), sigBegin, meta)
				}
			}
			if v < 3 {
				expect(in("commit"), p.GetTxCommitMessage(), sigRun, "COMMIT", M{})
				expect(in("rollback"), p.GetTxRollbackMessage(), sigRun, "ROLLBACK", M{})
				if g, ok := p.GetCloseMessage(); ok || g != nil {
					found("there is a close message", in("GetCloseMessage()"), "none", show(g))
				}
			} else {
				expect(in("commit"), p.GetTxCommitMessage(), sigCommit)
				expect(in("rollback"), p.GetTxRollbackMessage(), sigRollback)
				g, ok := p.GetCloseMessage()
				if !ok {
					found("there is no close message", in("GetCloseMessage()"), "GOODBYE", "none")
				}
				expect(in("GetCloseMessage()"), g, sigGoodbye)
			}
			if p.SupportsMultiDatabase() != (v >= 4) {
				found("the version is wrong about databases", in("SupportsMultiDatabase()"), fmt.Sprint(v >= 4), fmt.Sprint(v < 4))
			}
		}
	}
	expect("NewResetMessage()", messages.NewResetMessage(), sigReset)
	for _, n := range []int64{-1, 0, 1, 1000} {
		for _, q := range []int64{-1, 0, 5, -7} {
			w := M{"n": n}
			if q != -1 {
				w["qid"] = q
			}
			expect(fmt.Sprintf("NewPullMessage(%d, %d)", n, q), messages.NewPullMessage(n, q), sigPull, w)
			expect(fmt.Sprintf("NewDiscardMessage(%d, %d)", n, q), messages.NewDiscardMessage(n, q), sigDiscard, w)
		}
	}
	for _, d := range []time.Duration{0, 1, 999 * time.Microsecond, time.Millisecond, 1500 * time.Microsecond, time.Hour} {
		for _, md := range []M{nil, {}, {"k": "v"}} {
			for _, m := range modes {
				for _, db := range []string{"", "d"} {
					w := M{}
					if d != 0 {
						w["tx_timeout"] = d.Milliseconds()
					}
					if len(md) > 0 {
						w["tx_metadata"] = md
					}
					if m == bolt_mode.ReadMode {
						w["mode"] = "r"
					}
					if db != "" {
						w["db"] = db
					}
					in := fmt.Sprintf("timeout %v, metadata %v, mode %v, database %q", d, md, m, db)
					d := d
					if g := messages.BuildTxMetadataWithDatabase(&d, md, db, m, nil); !same(lift(g), lift(w)) {
						found("the transaction metadata are others", in, show(w), show(g))
					}
					expect("NewAutoCommitTxRunMessage: "+in, messages.NewAutoCommitTxRunMessage("q", M{"a": "b"}, d, md, db, m), sigRun, "q", M{"a": "b"}, w)
					if db == "" {
						if g := messages.BuildTxMetadata(&d, md, m, nil); !same(lift(g), lift(w)) {
							found("the transaction metadata are others", in, show(w), show(g))
						}
					}
				}
			}
		}
	}
	for _, u := range texts {
		for _, pw := range texts {
			for _, re := range []string{"", "realm"} {
				w := M{"scheme": "basic", "principal": u, "credentials": pw}
				if re != "" {
					w["realm"] = re
				}
				if g := messages.BuildAuthTokenBasicWithRealm(u, pw, re); !same(lift(g), lift(w)) {
					found("the auth token is another", fmt.Sprintf("user %q password %q realm %q", u, pw, re), show(w), show(g))
				}
			}
			if g := messages.BuildAuthTokenBasic(u, pw); !same(lift(g), lift(M{"scheme": "basic", "principal": u, "credentials": pw})) {
				found("the auth token is another", fmt.Sprintf("user %q password %q", u, pw), "basic", show(g))
			}
		}
		if g := messages.BuildAuthTokenKerberos(u); !same(lift(g), lift(M{"scheme": "kerberos", "principal": "", "credentials": u})) {
			found("the auth token is another", fmt.Sprintf("ticket %q", u), "kerberos", show(g))
		}
	}
	// and as connections use them
	searchHistory("C09")(r)
}

func searchC20(r *rand.Rand) {
	vals := []interface{}{nil, int64(0), int64(1), int64(-5), int64(1) << 40, 1.5, float64(3), "7", true, false, []interface{}{int64(1)}, M{}, M{"x": int64(1)}}
	keys := []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}
	for v := 1; v <= 4; v += 3 {
		s := newServer(v)
		var meta M
		s.query = func(t *session, q string, params, m map[string]interface{}) plan {
			return plan{runMeta: M{}, meta: meta}
		}
		s.start()
		c, err := connect(s, "")
		if err != nil {
			found("opening a connection fails", fmt.Sprint(v), "a connection", err.Error())
		}
		try := func(m M) {
			meta = m
			in := fmt.Sprintf("protocol %d, summary %v", v, m)
			doing("%s", in)
			_, res, err := c.Query("q", nil)
			if err != nil {
				found("a query fails", in, "a result", err.Error())
			}
			if !same(lift(res.Metadata()), lift(m)) {
				found("the summary is changed", in, show(m), show(res.Metadata()))
			}
			sm, okm := m["stats"].(M)
			g := guard(func() {
				st, ok := res.GetStats()
				if ok != okm || ok && !same(lift(st), lift(sm)) {
					found("GetStats is wrong", in, fmt.Sprint(sm, okm), fmt.Sprint(st, ok))
				}
				for i, f := range []func() (int64, bool){res.GetNodesCreated, res.GetRelationshipsCreated, res.GetNodesDeleted, res.GetRelationshipsDeleted} {
					w, okw := int64(0), false
					if okm {
						w, okw = sm[keys[i]].(int64)
					}
					n, ok := f()
					if ok != okw || ok && n != w {
						found("a statistic is wrong", in+": "+keys[i], fmt.Sprint(w, okw), fmt.Sprint(n, ok))
					}
				}
			})
			if g != "" {
				found("a statistic panics", in, "a number or its absence", g)
			}
			if !same(lift(res.Metadata()), lift(m)) {
				found("reading a statistic changes the summary", in, show(m), show(res.Metadata()))
			}
		}
		try(M{})
		for _, x := range vals {
			try(M{"stats": x})
			for _, k := range keys {
				try(M{"stats": M{k: x}})
				try(M{"stats": M{k: x, "other": int64(9)}, k: int64(77)})
			}
		}
		for i := 0; i < 200 && !late(); i++ {
			m := M{}
			for j, k := range keys {
				if r.Intn(2) == 0 {
					m[k] = int64(j*100 + r.Intn(50))
				} else if r.Intn(3) == 0 {
					m[k] = vals[r.Intn(len(vals))]
				}
			}
			try(M{"stats": m, "type": "rw"})
		}
		s.close()
	}
}

type custom struct{ s string }

func (c custom) Error() string { return c.s }

func searchC21(r *rand.Rand) {
	for round := 0; round < 3000 && !late(); round++ {
		var root error
		var msgs []string
		switch r.Intn(4) {
		case 0:
			root = custom{fmt.Sprintf("custom %d", round)}
		case 1:
			root = io.EOF
		case 2:
			root = messages.NewFailureMessage(M{"code": "Neo.X", "message": "m"})
		}
		n := r.Intn(12)
		if round == 0 {
			n = 500
		}
		var e error = root
		var first *bolterr.Error
		in := fmt.Sprintf("root %T, %d wraps", root, n)
		if root == nil || n == 0 {
			first = bolterr.New("new %d", round)
			msgs = append(msgs, fmt.Sprintf("new %d", round))
			if root != nil {
				root, e = nil, nil
			}
			e = first
			if first.Inner() != nil {
				found("a new error wraps something", in, "nil", fmt.Sprint(first.Inner()))
			}
			if first.InnerMost() != error(first) {
				found("the innermost of a new error is another", in, "itself", fmt.Sprint(first.InnerMost()))
			}
		} else {
			msgs = append(msgs, root.Error())
		}
		inner := root
		if inner == nil {
			inner = first
		}
		for i := 0; i < n; i++ {
			w := bolterr.Wrap(e, "wrap %d.%s", i, "arg")
			msgs = append(msgs, fmt.Sprintf("wrap %d.arg", i))
			if fmt.Sprintf("%p", w.Inner()) != fmt.Sprintf("%p", e) || fmt.Sprintf("%T", w.Inner()) != fmt.Sprintf("%T", e) {
				found("the wrapped error is not reachable", in, fmt.Sprintf("%T", e), fmt.Sprintf("%T", w.Inner()))
			}
			e = w
		}
		be := e.(*bolterr.Error)
		var im error
		if p := guard(func() { im = be.InnerMost() }); p != "" {
			found("InnerMost panics", in, "the cause", p)
		}
		if fmt.Sprintf("%T %v", im, im) != fmt.Sprintf("%T %v", inner, inner) && !(fmt.Sprintf("%T", im) == fmt.Sprintf("%T", inner) && im != nil && fmt.Sprintf("%p", im) == fmt.Sprintf("%p", inner)) {
			found("the innermost error is not the cause", in, fmt.Sprintf("%T", inner), fmt.Sprintf("%T %.100v", im, im))
		}
		var txt string
		if p := guard(func() { txt = be.Error() }); p != "" {
			found("Error panics", in, "a text", p)
		}
		for _, m := range msgs {
			if !strings.Contains(txt, m) {
				found("the text does not contain every message", in, m, fmt.Sprintf("%.300s", txt))
			}
		}
		_ = errors.Is(e, io.EOF)
	}
	vals := []interface{}{nil, "", "text", int64(3), 2.5, true, []interface{}{"x"}, M{"a": "b"}}
	for _, c := range vals {
		for _, m := range vals {
			for _, have := range []int{0, 1, 2, 3} {
				md := M{}
				if have&1 != 0 {
					md["code"] = c
				}
				if have&2 != 0 {
					md["message"] = m
				}
				tryFailure(md)
			}
		}
	}
	tryFailure(nil)
	faultGrid()
}

func tryFailure(md M) {
	f := messages.NewFailureMessage(md)
	in := fmt.Sprintf("failure metadata %v", md)
	var txt string
	if p := guard(func() { txt = f.Error() }); p != "" {
		found("the text of a failure panics", in, "a text", p)
	}
	if !same(lift(f.Metadata), lift(md)) {
		found("a failure changes its metadata", in, show(md), show(f.Metadata))
	}
	for _, k := range []string{"code", "message"} {
		if s, ok := md[k].(string); ok && !strings.Contains(txt, s) {
			found("the text of a failure does not contain the server's "+k, in, s, txt)
		}
	}
	var c, m string
	if p := guard(func() { c, m = f.GetCode(), f.GetMessage() }); p != "" {
		found("an accessor of a failure panics", in, "text", p)
	}
	if s, ok := md["code"].(string); ok && s != c {
		found("the code of a failure is another", in, s, c)
	}
	if s, ok := md["message"].(string); ok && s != m {
		found("the message of a failure is another", in, s, m)
	}
}

func init() {
	searches["C09"] = searchC09
	searches["C20"] = searchC20
	searches["C21"] = searchC21
}
