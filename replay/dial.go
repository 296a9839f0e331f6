package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/mindstand/go-bolt/connection"
)

// deaf accepts one connection, reads the handshake and the first message, answers, and reads nothing more
func deaf(ans, init []byte) (net.Listener, string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				io.ReadFull(c, make([]byte, 20))
				c.Write(ans)
				t := &session{s: &server{}, c: c}
				t.readMsg()
				c.Write(init)
			}()
		}
	}()
	return l, l.Addr().String()
}

// full is a port whose queue of waiting connections is full: dialling it hangs
func full() (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return "", func() {}
	}
	done := func() { syscall.Close(fd) }
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		done()
		return "", func() {}
	}
	sa, _ := syscall.Getsockname(fd)
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	for i := 0; i < 6; i++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			return addr, done
		}
		_ = c
	}
	done()
	return "", func() {}
}

// dialTimeouts: dialling, plain and with TLS, ends by the timeout
func dialTimeouts() {
	try := func(in, connStr string) {
		t0 := time.Now()
		var err error
		var c connection.IConnection
		within(12*time.Second, "CreateBoltConn", func() string { return in }, func() { c, err = connection.CreateBoltConn(connStr) })
		if err == nil {
			found("a connection to a server that does not answer opens", in, "an error", fmt.Sprint(c))
		}
		if d := time.Since(t0); d > 6*time.Second {
			found("dialling is not bounded by the timeout", in, "an error within a second or so", d.String())
		}
	}
	if addr, done := full(); addr != "" {
		try("a port that does not take connections, timeout 1s", "bolt://neo4j:pw@"+addr+"?timeout=1")
		try("a port that does not take connections, TLS, timeout 1s", "bolt://neo4j:pw@"+addr+"?timeout=1&tls=true")
		done()
	}
	s := newServer(1)
	s.stallTLS = true
	s.start()
	try("a server that never answers the TLS handshake, timeout 1s", "bolt://neo4j:pw@"+s.addr+"?timeout=1&tls=true")
	try("a server that never answers the Bolt handshake, timeout 1s", "bolt://neo4j:pw@"+s.addr+"?timeout=1")
	s.close()
}

var preamble = []byte{0x60, 0x60, 0xB0, 0x17, 0, 0, 0, 4, 0, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0, 1}

func searchC08(r *rand.Rand) {
	try := func(s *server, in string, want bool) {
		s.start()
		defer s.close()
		var c connection.IConnection
		var err error
		doing("%s", in)
		within(20*time.Second, "CreateBoltConn", func() string { return in }, func() {
			c, err = connection.CreateBoltConn("bolt://neo4j:pw@" + s.addr + "?timeout=2")
		})
		t := s.last()
		if want && err != nil {
			found("opening fails although the server acknowledged", in, "a connection", err.Error())
		}
		if !want && err == nil {
			found("opening succeeds although the server did not acknowledge", in, "an error", fmt.Sprintf("a connection of version %d", c.GetProtocolVersionNumber()))
		}
		if err != nil && c != nil && fmt.Sprint(c) != "<nil>" {
			found("a failed opening returns a connection", in, "nil", fmt.Sprintf("%T", c))
		}
		if t == nil {
			return
		}
		t.mu.Lock()
		hand := append([]byte{}, t.hand...)
		t.mu.Unlock()
		if string(hand) != string(preamble) {
			found("the offer is not the preamble and versions 4, 3, 2, 1", in, hex(preamble), hex(hand))
		}
		if !want {
			if !t.waitEOF(3 * time.Second) {
				found("a failed opening leaves a socket open", in, "the socket closed", "still connected")
			}
			return
		}
		if c.GetProtocolVersionNumber() != s.version || hex(c.GetProtocolVersionBytes()) != fmt.Sprintf("%08x", s.version) {
			found("the connection does not use the version the server chose", in, fmt.Sprint(s.version), fmt.Sprintf("%d %x", c.GetProtocolVersionNumber(), c.GetProtocolVersionBytes()))
		}
		within(20*time.Second, "Query", func() string { return in + "; query" }, func() { _, _, err = c.Query("q", nil) })
		if err != nil {
			found("a query on a new connection fails", in, "a result", err.Error())
		}
		q := reqs{s.version}
		if evs := t.log(); !sameEvents(evs[1:], q.run("q", nil, "", false)) {
			found("the connection does not speak the version the server chose", in, fmt.Sprint(q.run("q", nil, "", false)), fmt.Sprint(evs[1:]))
		}
		within(20*time.Second, "Close", func() string { return in + "; close" }, func() { c.Close() })
	}
	for v := 1; v <= 4; v++ {
		for _, p := range []bool{false, true} {
			s := newServer(v)
			s.pieces = p
			try(s, fmt.Sprintf("the server answers version %d, in pieces: %v", v, p), true)
		}
		for _, k := range []string{"failure", "ignored", "record", "weird", "garbage", "partial", "drop"} {
			s := newServer(v)
			k := k
			s.onInit = func(t *session, e event) reply { return reply{k} }
			try(s, fmt.Sprintf("version %d, the server answers the initialisation with %s", v, k), false)
		}
	}
	answers := [][]byte{{0, 0, 0, 0}, {0, 0, 0, 5}, {0, 0, 0, 255}, {1, 0, 0, 4}, {0, 1, 0, 4}, {0, 0, 1, 4}, {4, 0, 0, 0}, {0, 0, 4, 0}, {}, {0}, {0, 0, 0}, []byte("HTTP"), {0, 0, 1, 1}, {0, 0, 4, 4}, {0, 4, 0, 4}, {0, 0, 2, 1}, {0, 0, 2, 3}, {0, 0, 3, 3}, {255, 255, 255, 252}}
	for i := 0; i < 30; i++ {
		answers = append(answers, []byte{byte(r.Intn(3)), byte(r.Intn(256)), byte(1 + r.Intn(255)), byte(r.Intn(6))})
	}
	for _, a := range answers {
		s := newServer(4)
		s.answer = a
		s.pieces = r.Intn(2) == 0
		try(s, fmt.Sprintf("the server answers %x to the offer", a), false)
	}
}

type certs struct {
	dir                       string
	caFile, certFile, keyFile string
	otherCA                   string
	server                    tls.Certificate
	pool                      *x509.CertPool
	clientCert                *x509.Certificate
	bad                       string
}

func makeCerts() *certs {
	dir, err := os.MkdirTemp("", "verifreplay")
	if err != nil {
		panic(err)
	}
	k := &certs{dir: dir, pool: x509.NewCertPool()}
	serial := int64(1)
	mk := func(cn string, parent *x509.Certificate, pkey *ecdsa.PrivateKey, ca bool) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour),
			NotAfter: time.Now().Add(time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, BasicConstraintsValid: true, IsCA: ca}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		if parent == nil {
			parent, pkey = t, key
		}
		der, err := x509.CreateCertificate(crand.Reader, t, parent, &key.PublicKey, pkey)
		if err != nil {
			panic(err)
		}
		c, _ := x509.ParseCertificate(der)
		return c, key, der
	}
	put := func(name, typ string, der []byte) string {
		p := filepath.Join(dir, name)
		os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0600)
		return p
	}
	ca, cakey, cader := mk("ca", nil, nil, true)
	_, _, other := mk("other", nil, nil, true)
	k.caFile = put("ca file.pem", "CERTIFICATE", cader)
	k.otherCA = put("other.pem", "CERTIFICATE", other)
	_, skey, sder := mk("server", ca, cakey, false)
	k.server = tls.Certificate{Certificate: [][]byte{sder}, PrivateKey: skey}
	cl, ckey, clder := mk("client", ca, cakey, false)
	k.clientCert = cl
	k.certFile = put("client.pem", "CERTIFICATE", clder)
	kd, _ := x509.MarshalECPrivateKey(ckey)
	k.keyFile = put("client&key.pem", "EC PRIVATE KEY", kd)
	k.bad = filepath.Join(dir, "absent.pem")
	k.pool.AddCert(ca)
	return k
}

func searchC24(r *rand.Rand) {
	k := makeCerts()
	defer os.RemoveAll(k.dir)
	e := url.QueryEscape
	type cas struct {
		opts      string
		auth      tls.ClientAuthType
		min, max  uint16
		want      bool
		presented bool
		what      string
	}
	cases := []cas{
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile), tls.NoClientCert, 0, 0, true, false, "the CA that signed the server"},
		{"&tls=1&tls_ca_cert_file=" + e(k.caFile), tls.NoClientCert, 0, 0, true, false, "tls=1, the CA that signed the server"},
		{"&tls=true&tls_ca_cert_file=" + e(k.otherCA), tls.NoClientCert, 0, 0, false, false, "another CA"},
		{"&tls=true", tls.NoClientCert, 0, 0, false, false, "no CA"},
		{"&tls=true&tls_no_verify=false", tls.NoClientCert, 0, 0, false, false, "no CA, tls_no_verify=false"},
		{"&tls=true&tls_no_verify=0", tls.NoClientCert, 0, 0, false, false, "no CA, tls_no_verify=0"},
		{"&tls=true&tls_no_verify=", tls.NoClientCert, 0, 0, false, false, "no CA, tls_no_verify empty"},
		{"&tls=true&tls_no_verify=true", tls.NoClientCert, 0, 0, true, false, "tls_no_verify=true"},
		{"&tls=true&tls_no_verify=1", tls.NoClientCert, 0, 0, true, false, "tls_no_verify=1"},
		{"&tls=true&tls_no_verify=true&tls_ca_cert_file=" + e(k.otherCA), tls.NoClientCert, 0, 0, true, false, "another CA and tls_no_verify"},
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile) + "&tls_cert_file=" + e(k.certFile) + "&tls_key_file=" + e(k.keyFile), tls.RequireAndVerifyClientCert, 0, 0, true, true, "CA and client certificate"},
		{"&tls=true&tls_no_verify=true&tls_cert_file=" + e(k.certFile) + "&tls_key_file=" + e(k.keyFile), tls.RequireAndVerifyClientCert, 0, 0, true, true, "client certificate, no verify"},
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile), tls.RequireAndVerifyClientCert, 0, 0, false, false, "CA, no client certificate but one is required"},
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile) + "&tls_cert_file=" + e(k.certFile), tls.NoClientCert, 0, 0, false, false, "client certificate without key"},
		{"&tls=true&tls_no_verify=true&tls_cert_file=" + e(k.certFile), tls.NoClientCert, 0, 0, false, false, "client certificate without key, no verify"},
		{"&tls=true&tls_ca_cert_file=" + e(k.bad), tls.NoClientCert, 0, 0, false, false, "unreadable CA file"},
		{"&tls=true&tls_no_verify=true&tls_ca_cert_file=" + e(k.bad), tls.NoClientCert, 0, 0, false, false, "unreadable CA file, no verify"},
		{"&tls=true&tls_no_verify=true&tls_cert_file=" + e(k.bad) + "&tls_key_file=" + e(k.keyFile), tls.NoClientCert, 0, 0, false, false, "unreadable certificate"},
		{"&tls=true&tls_no_verify=true&tls_cert_file=" + e(k.certFile) + "&tls_key_file=" + e(k.bad), tls.NoClientCert, 0, 0, false, false, "unreadable key"},
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile), tls.NoClientCert, tls.VersionTLS13, tls.VersionTLS13, false, false, "a server of TLS 1.3 only"},
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile), tls.NoClientCert, tls.VersionTLS12, tls.VersionTLS12, true, false, "a server of TLS 1.2 only"},
		{"&tls=true&tls_ca_cert_file=" + e(k.caFile), tls.NoClientCert, tls.VersionTLS10, tls.VersionTLS13, true, false, "a server of TLS 1.0 to 1.3"},
	}
	for _, c := range cases {
		s := newServer(4)
		s.tlsConf = &tls.Config{Certificates: []tls.Certificate{k.server}, ClientAuth: c.auth, ClientCAs: k.pool, MinVersion: c.min, MaxVersion: c.max}
		s.start()
		in := "a TLS server; connection string options " + c.opts + " (" + c.what + ")"
		doing("%s", in)
		var cn connection.IConnection
		var err error
		within(20*time.Second, "CreateBoltConn", func() string { return in }, func() {
			cn, err = connection.CreateBoltConn("bolt://neo4j:pw@" + s.addr + "?timeout=5" + c.opts)
		})
		if c.want && err != nil {
			found("opening fails", in, "a connection", err.Error())
		}
		if !c.want && err == nil {
			found("opening succeeds", in, "an error", "a connection")
		}
		if c.want {
			t := s.last()
			tc, ok := t.c.(*tls.Conn)
			if !ok {
				found("the connection is not encrypted", in, "TLS", "plain text")
			}
			st := tc.ConnectionState()
			if c.presented && (len(st.PeerCertificates) == 0 || !st.PeerCertificates[0].Equal(k.clientCert)) {
				found("the client certificate is not presented", in, "the client certificate", "none")
			}
			if st.Version > tls.VersionTLS12 || st.Version < tls.VersionTLS10 {
				found("a TLS version outside the configured range is negotiated", in, "TLS 1.0 to 1.2", fmt.Sprintf("%x", st.Version))
			}
			cn.Close()
		}
		s.close()
	}
	// a plain server is never spoken to in plain text
	s := newServer(4)
	s.start()
	for _, o := range []string{"&tls=true", "&tls=1", "&tls=TRUE&tls_no_verify=true"} {
		in := "a plain server, options " + o
		var err error
		within(20*time.Second, "CreateBoltConn", func() string { return in }, func() { _, err = connection.CreateBoltConn("bolt://neo4j:pw@" + s.addr + "?timeout=2" + o) })
		if err == nil {
			found("asking for TLS gives a plain connection", in, "an error", "a connection")
		}
		for _, t := range s.sessions() {
			if len(t.log()) > 0 {
				found("asking for TLS sends credentials in plain text", in, "nothing readable", fmt.Sprint(t.log()))
			}
		}
	}
	s.close()
}

func init() {
	searches["C08"] = searchC08
	searches["C24"] = searchC24
}
