package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync/atomic"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/wire"
	"xv/xsrv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"
)

var r *rep.Run
var pki *xsrv.PKI

// server behaviours for the TLS request
const (
	proper = iota
	refuse
	refuseFatal
	refuseAccess
	finNow
	rstNow
	cutOK
	zeroLen
	garbage
	clearOK    // says OK and then goes on in clear, offering success
	thenFin    // OK, then closes
	badUnknown // certificate of an unknown CA
	badName
	badExpired
	stall
	hsGarbage // answers the client hello with something else
	inject    // OK, followed in the same segment by forged messages; then genuine TLS
	noticeOK
	authOKInstead
	contInstead
	capsInstead
	refuseTLS // refuses, yet speaks TLS afterwards
	nTLS
)

var names = []string{"proper", "refuse", "refuseFatal", "refuseAccessDenied", "fin", "rst", "cutOK", "zeroLength", "garbage", "clearOK", "okThenFin", "unknownCA", "wrongName", "expired", "stall", "handshakeGarbage", "inject", "noticeThenOK", "authOKInstead", "continueInstead", "capabilitiesInstead", "refuseThenTLS"}

// forged returns what an attacker on the wire would like the client to act on.
func forged(rng *rand.Rand) ([]byte, string) {
	switch rng.Intn(6) {
	case 0:
		return xsrv.AuthOK(), "AuthenticateOk"
	case 1:
		return append(xsrv.Continue([]byte("attacker challenge!!")), xsrv.AuthOK()...), "AuthenticateContinue+Ok"
	case 2:
		return xsrv.Err(0, 1045, "forged"), "Error 1045"
	case 3:
		return append(fnet.Notice(rng, nil, 20), xsrv.AuthOK()...), "Notice+AuthenticateOk"
	case 4:
		return xsrv.OK(), "Ok"
	default:
		return append(append(xsrv.AuthOK(), xsrv.AuthOK()...), xsrv.OK()...), "3 oks"
	}
}

type plan struct {
	kind   int
	deny   bool // authentication inside TLS is denied
	forged string
}

func (p plan) String() string {
	return fmt.Sprintf("%s(deny=%v %s)", names[p.kind], p.deny, p.forged)
}

func script(p *plan, rng *rand.Rand, acc xsrv.Account, cfg func(tls.Certificate) *tls.Config) (xsrv.Script, *xsrv.Auth) {
	au := &xsrv.Auth{Acc: acc, R: rng}
	if p.deny {
		codes := []uint32{1045, 1045, 1130, 3118}
		code := codes[rng.Intn(len(codes))]
		au.AtStart = rng.Intn(2) == 0
		au.Deny = func(int, string) []byte { return xsrv.Err(0, code, "no") }
	}
	inClear := 0
	return func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
		if !m.TLS && m.Type == 2 {
			switch p.kind {
			case proper:
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: cfg(pki.Good)}
			case noticeOK:
				return xsrv.Action{Reply: append(fnet.Notice(rng, nil, 5000), xsrv.OK()...), StartTLS: cfg(pki.Good)}
			case refuse:
				return xsrv.Action{Reply: xsrv.Err(0, 5001, "Capability prepare failed for 'tls'")}
			case refuseFatal:
				return xsrv.Action{Reply: xsrv.Err(1, 5001, "Capability prepare failed for 'tls'")}
			case refuseAccess:
				return xsrv.Action{Reply: xsrv.Err(0, 1045, "denied")}
			case finNow:
				return xsrv.Action{FIN: true}
			case rstNow:
				return xsrv.Action{RST: true}
			case cutOK:
				return xsrv.Action{Reply: xsrv.OK()[:1+rng.Intn(4)], FIN: true}
			case zeroLen:
				return xsrv.Action{Reply: []byte{0, 0, 0, 0, 0}}
			case garbage:
				return xsrv.Action{Reply: append([]byte{200, 0, 0, 0}, gen.Raw(rng, 50)...), FIN: true}
			case clearOK:
				return xsrv.Action{Reply: xsrv.OK()} // and whatever follows in clear is welcomed below
			case thenFin:
				return xsrv.Action{Reply: xsrv.OK(), FIN: true}
			case badUnknown:
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: cfg(pki.Unknown)}
			case badName:
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: cfg(pki.WrongName)}
			case badExpired:
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: cfg(pki.Expired)}
			case stall:
				return xsrv.Action{Stall: true}
			case hsGarbage:
				return xsrv.Action{Reply: append(xsrv.OK(), []byte("HTTP/1.1 400 Bad Request\r\n\r\n")...), FIN: rng.Intn(2) == 0}
			case inject:
				f, d := forged(rng)
				p.forged = d
				return xsrv.Action{Reply: append(xsrv.OK(), f...), StartTLS: cfg(pki.Good)}
			case authOKInstead:
				return xsrv.Action{Reply: xsrv.AuthOK(), FIN: true}
			case contInstead:
				return xsrv.Action{Reply: xsrv.Continue([]byte("01234567890123456789"))}
			case refuseTLS:
				// refused in one way or another, and yet a TLS session is on offer
				f := [][]byte{
					xsrv.Err(0, 5001, "Capability prepare failed for 'tls'"),
					xsrv.Err(1, 5001, "Capability prepare failed for 'tls'"),
					xsrv.Err(uint64(rng.Intn(2)), uint32(rng.Intn(70000)), "no"),
					xsrv.Err(uint64(rng.Intn(2)), 1045, "no"),
					wire.AppendFrame(nil, 1, []byte{8, 0}),
				}
				k := rng.Intn(len(f))
				p.forged = []string{"error", "fatal error", "random error", "access denied", "undecodable error"}[k]
				if rng.Intn(3) == 0 {
					f[k] = append(fnet.Notice(rng, nil, 20), f[k]...)
				}
				return xsrv.Action{Reply: f[k], StartTLS: cfg(pki.Good)}
			case capsInstead:
				return xsrv.Action{Reply: append(fnetCaps(), xsrv.Err(0, 5001, "no")...)}
			}
		}
		if !m.TLS {
			// authentication attempted in clear: let it succeed, the raw bytes convict
			inClear++
			if m.Type == 4 && inClear > 2 {
				return xsrv.Action{Reply: xsrv.AuthOK()}
			}
			if m.Type == 4 && rng.Intn(2) == 0 {
				return xsrv.Action{Reply: xsrv.AuthOK()}
			}
			if m.Type == 4 {
				return xsrv.Action{Reply: xsrv.Err(0, 1045, "try PLAIN")}
			}
			return xsrv.Action{Reply: xsrv.OK()}
		}
		if a, ok := au.On(m); ok {
			return a
		}
		return xsrv.Work(m)
	}, au
}

func fnetCaps() []byte { return []byte{1, 0, 0, 0, 2} }

func main() {
	r = rep.Start("C15", "exploration", "real connectors against scripted servers on loopback sockets; every byte the client puts on the wire is recorded below TLS and checked: with a TLS configuration only the TLS request and TLS records may appear and a session is required before New may succeed (refusals, clear-text continuation, bad certificates, forged messages injected before the handshake, garbage, stalls, in sequences on one connector); without TLS the password and the PLAIN mechanism may never appear unless configured, whatever the server answers. Non-trivial: distinct (server behaviours, mechanism, outcome).")
	var err error
	if pki, err = xsrv.NewPKI(); err != nil {
		r.Harness("pki: %v", err)
		r.Finish()
	}
	r.EachW("tls", r.N(1500, 40000), 8, withTLS)
	r.EachW("clear", r.N(2500, 60000), 8, clear)
	for k := range names {
		r.Need("server_"+names[k], 5)
	}
	r.Need("tls_sessions", 100)
	r.Need("config_no_name", 50)
	r.Need("config_client_certificate", 50)
	r.Need("config_verify_connection", 50)
	r.Need("config_min_version", 50)
	for _, c := range []string{"time", "max_version", "ciphers", "curves", "protocols"} {
		r.Need("config_"+c, 30)
	}
	r.Need("insecure_reports_tcp", 50)
	r.Need("insecure_reports_unix", 10)
	r.Need("inject_denied", 20)
	r.Finish()
}

func withTLS(i int, rng *rand.Rand) {
	s, network, err := xsrv.ListenTCP(rng.Intn(10))
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	s.Limit = patience() // closing is not judged here
	acc := xsrv.NewAccount(rng)
	mk := rng.Intn(3)
	mname, mech := xsrv.Mech(mk)
	tc := &tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}
	reject := false
	trusting := false
	either := false // whether a proper server is good enough is left open
	clientCert, oldServer := false, false
	var tweak func(*tls.Config) // of the server's side
	switch rng.Intn(17) {
	case 10: // by its own clock every certificate has expired
		tc.Time = func() time.Time { return time.Now().Add(100 * 365 * 24 * time.Hour) }
		reject = true
		r.Count("config_time", 1)
	case 11: // older than the server
		tc.MaxVersion = tls.VersionTLS12
		tweak = func(x *tls.Config) { x.MinVersion = tls.VersionTLS13 }
		reject = true
		r.Count("config_max_version", 1)
	case 12: // no cipher in common
		tc.MaxVersion = tls.VersionTLS12
		tc.CipherSuites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384}
		tweak = func(x *tls.Config) {
			x.MaxVersion = tls.VersionTLS12
			x.CipherSuites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}
		}
		reject = true
		r.Count("config_ciphers", 1)
	case 13: // no curve in common
		tc.CurvePreferences = []tls.CurveID{tls.CurveP384}
		tweak = func(x *tls.Config) { x.CurvePreferences = []tls.CurveID{tls.X25519} }
		reject = true
		r.Count("config_curves", 1)
	case 14: // a protocol negotiated inside TLS
		tc.NextProtos = []string{"other", "mysqlx"}
		tc.VerifyConnection = func(cs tls.ConnectionState) error {
			if cs.NegotiatedProtocol != "mysqlx" {
				return fmt.Errorf("negotiated %q", cs.NegotiatedProtocol)
			}
			return nil
		}
		tweak = func(x *tls.Config) { x.NextProtos = []string{"mysqlx"} }
		r.Count("config_protocols", 1)
	case 4: // no name to verify
		tc.ServerName = ""
		either = true
		r.Count("config_no_name", 1)
	case 5: // the server requires a client certificate, and there is one
		tc.Certificates = []tls.Certificate{pki.Good}
		clientCert = true
		r.Count("config_client_certificate", 1)
	case 6:
		crt := pki.Good
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &crt, nil }
		clientCert = true
		r.Count("config_client_certificate", 1)
	case 7:
		tc.VerifyConnection = func(tls.ConnectionState) error { return errors.New("not pinned") }
		reject = true
		r.Count("config_verify_connection", 1)
	case 8: // newer than the server
		tc.MinVersion = tls.VersionTLS13
		oldServer, reject = true, true
		r.Count("config_min_version", 1)
	case 9: // the server's name is another one
		tc.ServerName = "other.example"
		reject = true
	case 0:
		tc = &tls.Config{InsecureSkipVerify: true}
		trusting = true
	case 1:
		tc.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	case 2:
		tc.MaxVersion = tls.VersionTLS12
	case 3:
		tc = &tls.Config{InsecureSkipVerify: true, VerifyPeerCertificate: func([][]byte, [][]*x509.Certificate) error { return errors.New("not pinned") }}
		trusting, reject = true, true
	}
	opts := []connector.Option{connector.WithTLSConfig(tc), connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB)}
	if mk != 0 || rng.Intn(2) == 0 {
		opts = append(opts, connector.WithAuthentication(mech))
	}
	cn, err := connector.New(network, s.Addr(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	cfg := func(c tls.Certificate) *tls.Config {
		x := &tls.Config{Certificates: []tls.Certificate{c}}
		if clientCert {
			x.ClientAuth = tls.RequireAnyClientCert
		}
		if oldServer {
			x.MaxVersion = tls.VersionTLS12
		}
		if tweak != nil {
			tweak(x)
		}
		return x
	}
	hist := ""
	n := 1 + rng.Intn(4)
	if i%300 == 42 {
		n = 60
	}
	for k := 0; k < n; k++ {
		if len(hist) > 2000 {
			hist = "..." + hist[len(hist)-1500:]
		}
		p := &plan{kind: (i + k*7) % nTLS}
		if rng.Intn(3) == 0 {
			p.kind = []int{proper, inject, refuse, clearOK}[rng.Intn(4)]
		}
		if p.kind == proper || p.kind == inject || p.kind == noticeOK || p.kind >= badUnknown && p.kind <= badExpired {
			p.deny = rng.Intn(2) == 0
		}
		sc, au := script(p, rng, acc, cfg)
		t := s.Next(sc)
		d := 40 * time.Second
		if p.kind == stall {
			d = 60 * time.Millisecond
		}
		ctx, cancel := context.WithTimeout(context.Background(), d)
		what := func() string {
			return fmt.Sprintf("tls case %d connection %d over %s, mechanism %s, server %v, earlier on this connector: %s", i, k, network, mname, *p, hist)
		}
		var c netx.Conn
		var err error
		r.Watch(120*time.Second, what, func() { c, err = cn.New(ctx) })
		good := err == nil && c != nil
		works := ""
		if good {
			x := xtorm.New(64)
			x.StmtExecute("SELECT 1")
			x.StmtExecute("SELECT 2")
			resp, serr := x.Send(ctx, c)
			if serr != nil || len(resp) != 2 || resp[0] != nil || resp[1] != nil {
				works = fmt.Sprintf("%v %v", resp, serr)
			}
			if !c.IsSecure() {
				works += " a connection inside TLS does not report itself secure"
			}
			r.Count("secure_reports", 1)
			c.Close()
		}
		if err != nil && !t.Came(500*time.Millisecond) {
			r.Count("never_reached_the_server", 1)
			cancel()
			return
		}
		if !t.Over(60 * time.Second) {
			r.Harness("%s: server still busy", what())
			cancel()
			return
		}
		if !t.EOF && !t.Gone {
			atomic.AddInt64(&unclosed, 1)
		}
		cancel()
		outcome := fmt.Sprintf("New: %v; server: handshake %v (%v) accepted %v, client messages %s", err, t.Handshake, t.HSErr, t.Accepted, msgs(t))
		if e := xsrv.ClearOK(t.Raw); e != nil {
			r.Violation("%s\n%v\n%s", what(), e, outcome)
			return
		}
		for _, w := range []string{acc.PW, acc.User, acc.DB} {
			if bytes.Contains(t.Raw, []byte(w)) {
				r.Violation("%s\n%q was sent in clear\n%s", what(), w, outcome)
				return
			}
		}
		if s.Conns() != k+1 {
			r.Violation("%s\nthe client opened another connection: %s\n%s", what(), msgs(s.Traces[len(s.Traces)-1]), outcome)
			return
		}
		bad := p.kind >= badUnknown && p.kind <= badExpired && !trusting
		authMsgs := 0
		for _, m := range t.Msgs {
			if m.Type == 4 || m.Type == 5 {
				authMsgs++
			}
		}
		if (bad || reject) && authMsgs > 0 {
			r.Violation("%s\nauthentication was attempted although the session does not satisfy the TLS configuration\n%s", what(), outcome)
			return
		}
		if good && !(t.Handshake && t.Accepted) {
			r.Violation("%s\nNew succeeded without an authentication accepted inside TLS\n%s", what(), outcome)
			return
		}
		if good && (bad || reject) {
			r.Violation("%s\nNew succeeded although the session does not satisfy the TLS configuration\n%s", what(), outcome)
			return
		}
		if good && p.kind == refuseTLS {
			r.Violation("%s\nNew succeeded although TLS was refused\n%s", what(), outcome)
			return
		}
		if p.kind == refuseTLS && authMsgs > 0 {
			r.Violation("%s\nauthentication was attempted although TLS was refused\n%s", what(), outcome)
			return
		}
		if good && works != "" {
			r.Violation("%s\nthe connection does not answer as the server does: %s\n%s", what(), works, outcome)
			return
		}
		if (p.kind == proper || p.kind == noticeOK) && !p.deny && !reject && !either && !good {
			r.Violation("%s\nNew failed against a proper server\n%s", what(), outcome)
			return
		}
		if p.kind == inject {
			// the genuine server saw a complete authentication of its own, or none was accepted
			if p.deny {
				r.Count("inject_denied", 1)
			} else {
				r.Count("inject_accepted", 1)
			}
			if good {
				r.Count("inject_session_survived", 1)
			}
			_ = au
		}
		if t.Handshake {
			r.Count("tls_sessions", 1)
		}
		r.Count("server_"+names[p.kind], 1)
		r.Count("network_"+network, 1)
		r.Count("wire_bytes_checked", len(t.Raw))
		r.Eval(fmt.Sprintf("%v/%s/%v/%v/%s/%d", *p, mname, good, trusting, hist, len(t.Msgs)))
		if i < 6 {
			r.Sample("%s -> %s", what(), outcome)
		}
		hist += " " + p.String()
	}
}

func msgs(t *xsrv.Trace) string {
	s := ""
	for i, m := range t.Msgs {
		if i == 8 {
			s += "..."
			break
		}
		if mech, _, ok := m.Start(); ok {
			s += fmt.Sprintf("[AuthenticateStart %s tls=%v]", mech, m.TLS)
		} else {
			s += fmt.Sprintf("[type %d tls=%v]", m.Type, m.TLS)
		}
	}
	return s
}

// clear: no TLS configured, a server that tries to get the password.
func clear(i int, rng *rand.Rand) {
	var s *xsrv.Server
	var err error
	network, net := "unix", "unix"
	if i%5 == 0 {
		s, err = xsrv.Listen("unix", fmt.Sprintf("%s/c15-%d.sock", os.Getenv("XV_WORK"), i))
	} else {
		network = "tcp"
		s, net, err = xsrv.ListenTCP(rng.Intn(10))
	}
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	s.Limit = patience() // closing is not judged here
	acc := xsrv.NewAccount(rng)
	mk := rng.Intn(7) % 3
	mname, mech := xsrv.Mech(mk)
	opts := []connector.Option{connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB)}
	if mk != 0 || rng.Intn(2) == 0 {
		opts = append(opts, connector.WithAuthentication(mech))
	}
	cn, err := connector.New(net, s.Addr(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	hist := ""
	for k, n := 0, 1+rng.Intn(3); k < n; k++ {
		desc := ""
		sc := func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
			var b []byte
			if rng.Intn(4) == 0 {
				b = fnet.Notice(rng, b, 30)
			}
			if m.Type != 4 && m.Type != 5 {
				return xsrv.Work(m)
			}
			k := rng.Intn(12)
			desc += fmt.Sprintf(" %d", k)
			switch k {
			case 0, 1, 2:
				return xsrv.Action{Reply: append(b, xsrv.Err(0, 1045, "Access denied")...)}
			case 3:
				return xsrv.Action{Reply: append(b, xsrv.Err(1, 1045, "Access denied")...)}
			case 4:
				return xsrv.Action{Reply: append(b, xsrv.Err(0, []uint32{1251, 1524, 3118, 1130, 2061, 2054}[rng.Intn(6)], "Authentication plugin requires secure connection")...)}
			case 5, 6, 7:
				ch := gen.Raw(rng, []int{20, 20, 0, 1, 200}[rng.Intn(5)])
				if rng.Intn(5) == 0 {
					ch = []byte("PLAIN")
				}
				return xsrv.Action{Reply: append(b, xsrv.Continue(ch)...)}
			case 8:
				return xsrv.Action{Reply: append(b, xsrv.AuthOK()...), Accept: true}
			case 9:
				return xsrv.Action{FIN: true}
			case 10:
				return xsrv.Action{Reply: append(b, append(xsrv.Err(0, 1045, "x"), xsrv.Err(0, 1045, "y")...)...)}
			default:
				return xsrv.Action{Reply: append([]byte{byte(rng.Intn(256)), byte(rng.Intn(256)), byte(rng.Intn(4)), 0}, gen.Raw(rng, 30)...), FIN: true}
			}
		}
		t := s.Next(sc)
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		what := func() string {
			return fmt.Sprintf("clear case %d connection %d over %s, mechanism %s, server answers%s, earlier: %s", i, k, net, mname, desc, hist)
		}
		var c netx.Conn
		r.Watch(120*time.Second, what, func() { c, err = cn.New(ctx) })
		if err == nil && c != nil {
			if c.IsSecure() != (network == "unix") {
				r.Violation("%s\na connection over %s reports IsSecure() = %v", what(), network, c.IsSecure())
			}
			r.Count("insecure_reports_"+network, 1)
			c.Close()
		}
		cancel()
		if err != nil && !t.Came(500*time.Millisecond) {
			r.Count("never_reached_the_server", 1)
			cancel()
			return
		}
		if !t.Over(60 * time.Second) {
			r.Harness("%s: server still busy", what())
			return
		}
		if !t.EOF && !t.Gone {
			atomic.AddInt64(&unclosed, 1)
		}
		if mname != "PLAIN" && network == "tcp" {
			if bytes.Contains(t.Raw, []byte(acc.PW)) {
				r.Violation("%s\nthe password was sent in clear: %s", what(), msgs(t))
				return
			}
			for _, m := range t.Msgs {
				if mech, _, ok := m.Start(); ok && mech == "PLAIN" {
					r.Violation("%s\nPLAIN was attempted in clear: %s", what(), msgs(t))
					return
				}
			}
			r.Count("clear_connections_checked", 1)
		}
		if s.Conns() != k+1 {
			last := s.Traces[len(s.Traces)-1]
			last.Over(time.Second)
			if mname != "PLAIN" && network == "tcp" && bytes.Contains(last.Raw, []byte(acc.PW)) {
				r.Violation("%s\nthe password was sent in clear on another connection", what())
			}
			return
		}
		r.Count("wire_bytes_checked", len(t.Raw))
		r.Eval(fmt.Sprintf("clear/%s/%s/%v/%d", mname, desc, err == nil, len(t.Msgs)))
		hist += desc + ";"
	}
}

var unclosed int64

// patience is how long to watch a socket the client left open: long enough for
// what it sent to arrive, less once that has happened often.
func patience() time.Duration {
	if atomic.LoadInt64(&unclosed) > 50 {
		return 100 * time.Millisecond
	}
	return 3 * time.Second
}
