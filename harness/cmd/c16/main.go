package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"time"

	"xv/fnet"
	"xv/rep"
	"xv/wire"
	"xv/xsrv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector"
)

var r *rep.Run
var pki *xsrv.PKI

// transports
const (
	clearTCP = iota
	tlsTCP
	unixSock
	unixTLSCfg // TLS configured, but a Unix socket
	nTransport
)

var tnames = []string{"tcp", "tcp+tls", "unix", "unix with TLS configuration"}

// what the server does with the k-th authentication attempt
const (
	accept = iota
	denyAccess
	denyAccessFatal
	denyOther
	denyOtherFatal
	finStart
	finCont
	rst
	zeroLen
	undecodable
	twice     // demands authentication data again
	cut       // its reply is cut at a chosen byte
	stall     // never answers; the context has a deadline
	wrongPW   // verifies, but the account has another password
	okAtStart // accepts without a challenge
	badCont   // undecodable challenge
	nBehave
)

var bnames = []string{"accept", "denyAccess", "denyAccessFatal", "denyOther", "denyOtherFatal", "finAtStart", "finAtContinue", "reset", "zeroLength", "undecodableError", "demandsTwice", "cut", "stall", "wrongPassword", "acceptAtStart", "badChallenge"}

type plan struct {
	transport int
	mech      int
	b         [3]int // behaviour per attempt
	atStart   bool
	cutAt     int
	noise     bool
	tag       string
	code      uint32 // of a denial for another reason
	state     string // SQL state of denials
	cancel    int    // the context is cancelled when the server has the n-th message; -1: at any time
}

// codes servers refuse a login with
var refusals = []uint32{1040, 1044, 1049, 1129, 1130, 1131, 1132, 1133, 1142, 1158, 1159, 1184, 1203, 1226, 1227, 1251, 1275, 1298, 1449, 1524, 1527, 1698, 1820, 1862, 3118, 3150, 3159, 3168, 3202, 3878, 3955, 4055, 4056, 4151, 5000, 5001, 5010, 5011, 10000, 10054, 11045, 1, 2, 0, 65535, 1046, 66581}

func refine(p *plan, rng *rand.Rand) *plan {
	p.code = refusals[rng.Intn(len(refusals))]
	p.state = []string{"28000", "HY000", "42000", "08004", ""}[rng.Intn(5)]
	return p
}

func (p *plan) String() string {
	m, _ := xsrv.Mech(p.mech)
	c := ""
	if p.cancel != 0 {
		c = fmt.Sprintf("; context cancelled at message %d", p.cancel)
	}
	return fmt.Sprintf("%s, %s, server: first attempt %s, second %s (denies at start %v, other code %d, state %q, cut at %d, notices %v%s)", tnames[p.transport], m, bnames[p.b[0]], bnames[p.b[1]], p.atStart, p.code, p.state, p.cutAt, p.noise, c)
}

func (p *plan) denial(k, b int) []byte {
	msg := fmt.Sprintf("%s-%d", p.tag, k)
	switch b {
	case denyAccess:
		return xsrv.ErrState(0, 1045, p.state, msg)
	case denyAccessFatal:
		return xsrv.ErrState(1, 1045, p.state, msg)
	case denyOther:
		return xsrv.ErrState(0, p.code, p.state, msg)
	case denyOtherFatal:
		return xsrv.ErrState(1, p.code, p.state, msg)
	}
	return nil
}

type state struct {
	attempts  []string // mechanisms tried
	challenge []byte
	cont      int
	blind     int // answers to a challenge that cannot be decoded
}

func (p *plan) script(rng *rand.Rand, acc xsrv.Account, st *state) xsrv.Script {
	return func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
		if m.Type == 2 && !m.TLS && p.transport == tlsTCP {
			return xsrv.Action{Reply: xsrv.OK(), StartTLS: &tls.Config{Certificates: []tls.Certificate{pki.Good}}}
		}
		var pre []byte
		if p.noise {
			pre = fnet.Notice(rng, nil, 40)
		}
		out := func(b []byte) []byte { return append(append([]byte(nil), pre...), b...) }
		if m.Type != 4 && m.Type != 5 {
			return xsrv.Work(m)
		}
		var mech string
		var proof []byte
		if m.Type == 4 {
			var ok bool
			if mech, proof, ok = m.Start(); !ok {
				return xsrv.Action{Reply: xsrv.Err(1, 5000, "bad start"), FIN: true}
			}
			st.attempts = append(st.attempts, mech)
			st.cont = 0
		} else {
			n, err := wire.Decode("AuthenticateContinue", m.Payload)
			if err != nil || len(st.attempts) == 0 {
				return xsrv.Action{Reply: xsrv.Err(1, 5000, "bad continue"), FIN: true}
			}
			mech, proof = st.attempts[len(st.attempts)-1], n.Get(1).B
			st.cont++
		}
		k := len(st.attempts) - 1
		b := p.b[min(k, 2)]
		if b == badCont && m.Type == 5 {
			st.blind++
			return xsrv.Action{Reply: out(xsrv.AuthOK()), Accept: true}
		}
		final := mech == "PLAIN" || m.Type == 5
		if p.noise && len(st.attempts) > 1 {
			pre = fnet.Notice(rng, pre, 5000)
		}
		// behaviours that strike at the start message
		if m.Type == 4 {
			switch b {
			case finStart:
				return xsrv.Action{FIN: true}
			case okAtStart:
				return xsrv.Action{Reply: out(xsrv.AuthOK()), Accept: true}
			case badCont:
				return xsrv.Action{Reply: out(wire.AppendFrame(nil, 3, []byte{0x0a, 0x50, 1}))}
			}
			if p.atStart {
				if d := p.denial(k, b); d != nil {
					return xsrv.Action{Reply: out(d)}
				}
				switch b {
				case rst:
					return xsrv.Action{RST: true}
				case zeroLen:
					return xsrv.Action{Reply: []byte{0, 0, 0, 0, 4}}
				case undecodable:
					return xsrv.Action{Reply: out(wire.AppendFrame(nil, 1, []byte{8, 0}))}
				case stall:
					return xsrv.Action{Stall: true}
				case cut:
					full := out(xsrv.Continue([]byte("01234567890123456789")))
					return xsrv.Action{Reply: full[:p.cutAt%len(full)], FIN: true}
				}
			}
			if mech == "PLAIN" && b == twice {
				return xsrv.Action{Reply: out(xsrv.Continue([]byte("01234567890123456789")))}
			}
			if mech != "PLAIN" {
				n := 20
				if rng.Intn(4) == 0 { // an odd challenge is a challenge
					n = []int{0, 0, 1, 8, 19, 21, 32, 200, 5000}[rng.Intn(9)]
					r.Count("odd_challenges", 1)
				}
				st.challenge = make([]byte, n)
				rng.Read(st.challenge)
				return xsrv.Action{Reply: out(xsrv.Continue(st.challenge))}
			}
		}
		_ = final
		switch b {
		case accept:
			if !xsrv.Verify(mech, proof, st.challenge, acc.User, acc.PW, acc.DB) {
				return xsrv.Action{Reply: out(xsrv.Err(0, 1045, "proof does not verify"))}
			}
			return xsrv.Action{Reply: out(xsrv.AuthOK()), Accept: true}
		case wrongPW:
			if !xsrv.Verify(mech, proof, st.challenge, acc.User, acc.PW+"x", acc.DB) {
				return xsrv.Action{Reply: out(xsrv.Err(0, 1045, fmt.Sprintf("%s-%d", p.tag, k)))}
			}
			return xsrv.Action{Reply: out(xsrv.AuthOK()), Accept: true}
		case finCont:
			return xsrv.Action{FIN: true}
		case rst:
			return xsrv.Action{RST: true}
		case zeroLen:
			return xsrv.Action{Reply: out([]byte{0, 0, 0, 0, 4})}
		case undecodable:
			return xsrv.Action{Reply: out(wire.AppendFrame(nil, 1, []byte{8, 0}))}
		case twice:
			return xsrv.Action{Reply: out(xsrv.Continue([]byte("01234567890123456789")))}
		case stall:
			return xsrv.Action{Stall: true}
		case cut:
			full := out(xsrv.AuthOK())
			return xsrv.Action{Reply: full[:p.cutAt%len(full)], FIN: true}
		}
		if d := p.denial(k, b); d != nil {
			return xsrv.Action{Reply: out(d)}
		}
		return xsrv.Action{FIN: true}
	}
}

func listen(transport, i int) (*xsrv.Server, string, error) {
	if transport == unixSock || transport == unixTLSCfg {
		path := filepath.Join(os.Getenv("XV_WORK"), fmt.Sprintf("c16-%d.s", i))
		switch i % 6 {
		case 1: // in the abstract name space
			path = fmt.Sprintf("@xv-c16-%d-%d", os.Getpid(), i)
			r.Count("abstract_sockets", 1)
		case 2:
			path = filepath.Join(os.Getenv("XV_WORK"), fmt.Sprintf("c16 %d:ü.S ", i))
		}
		s, err := xsrv.Listen("unix", path)
		return s, "unix", err
	}
	return xsrv.ListenTCP(i)
}

func run(fam string, i int, rng *rand.Rand, p *plan) {
	refine(p, rng)
	sequenceOf(fam, i, rng, []*plan{p})
}

// sequence opens several connections with one connector: what happened to one
// must not change how the next is opened.
func sequence(i int, rng *rand.Rand) {
	tr, m := rng.Intn(nTransport), rng.Intn(3)
	var ps []*plan
	for n := 2 + rng.Intn(4); n > 0; n-- {
		p := &plan{transport: tr, mech: m, b: [3]int{rng.Intn(nBehave), rng.Intn(nBehave), rng.Intn(nBehave)}, atStart: rng.Intn(2) == 0, cutAt: rng.Intn(5000), noise: rng.Intn(2) == 0}
		switch rng.Intn(4) {
		case 0:
			p.b[0], p.b[1] = denyAccess, accept
		case 1:
			p.b[0] = accept
		}
		ps = append(ps, refine(p, rng))
	}
	sequenceOf("sequences", 2000000+i, rng, ps)
}

func sequenceOf(fam string, i int, rng *rand.Rand, ps []*plan) {
	p := ps[0]
	s, network, err := listen(p.transport, i)
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	acc := xsrv.NewAccount(rng)
	switch rng.Intn(12) {
	case 0:
		acc.DB = ""
	case 1:
		acc.User = ""
	case 2:
		acc.DB, acc.User = acc.User, acc.User
	case 3:
		acc.PW = acc.User
	case 4, 5:
		if p.mech != 1 { // SHA256_MEMORY has no proof for an empty password
			acc.PW = ""
		}
	}
	mname, mech := xsrv.Mech(p.mech)
	opts := []connector.Option{connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB)}
	if p.mech != 0 || rng.Intn(2) == 0 {
		opts = append(opts, connector.WithAuthentication(mech))
	}
	if p.transport == tlsTCP || p.transport == unixTLSCfg {
		tc := &tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}
		if rng.Intn(3) == 0 {
			tc.MaxVersion = tls.VersionTLS12
		}
		opts = append(opts, connector.WithTLSConfig(tc))
	}
	cn, err := connector.New(network, s.Addr(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	hist := ""
	for k, p := range ps {
		if !one(fam, i, rng, p, s, k, cn, acc, mname, hist) {
			return
		}
		if hist += fmt.Sprintf(" [%v]", p); len(hist) > 4000 {
			hist = fmt.Sprintf("... (%d)", k+1) + hist[len(hist)-3000:]
		}
	}
}

// one opens one connection and judges it.
func one(fam string, i int, rng *rand.Rand, p *plan, s *xsrv.Server, nth int, cn *connector.Connector, acc xsrv.Account, mname, hist string) bool {
	p.tag = fmt.Sprintf("t%d", rng.Int31())
	st := &state{}
	sc := p.script(rng, acc, st)
	var stop context.CancelFunc
	got := 0
	t := s.Next(func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
		if got++; got == p.cancel {
			stop()
		}
		return sc(t, m)
	})
	d := 60 * time.Second
	if p.b[0] == stall || p.b[1] == stall {
		d = 80 * time.Millisecond
	}
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	if p.cancel != 0 && d > time.Second && rng.Intn(2) == 0 {
		ctx, cancel = context.WithCancel(context.Background())
		defer cancel()
	}
	if p.cancel < 0 {
		time.AfterFunc(time.Duration(rng.Intn(200))*time.Microsecond, cancel)
	}
	stop = cancel
	what := func() string {
		q := fmt.Sprintf("%s %d: %v", fam, i, p)
		if nth > 0 {
			q += fmt.Sprintf(" (earlier with the same connector:%s)", hist)
		}
		return q
	}
	var c netx.Conn
	var err error
	r.Watch(150*time.Second, what, func() { c, err = cn.New(ctx) })
	good := err == nil
	if good && c == nil {
		r.Violation("%s: New returned neither connection nor error", what())
		return false
	}
	works := ""
	if good {
		for k := 0; k < 2; k++ {
			x := xtorm.New(64)
			x.StmtExecute("SELECT 1", k)
			x.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { b.StmtExecute("SELECT 2"); return nil })
			resp, serr := x.Send(context.Background(), c)
			if serr != nil || len(resp) != 4 {
				works = fmt.Sprintf("%v %v", resp, serr)
			}
			for _, q := range resp {
				if q != nil {
					works = fmt.Sprintf("%v", resp)
				}
			}
		}
		c.Close()
	}
	if p.cancel < 0 && !good && !t.Came(time.Second) {
		r.Count("cancelled_before_connecting", 1)
		return false
	}
	if p.cancel >= 0 && !good && !t.Came(10*time.Second) {
		if d > time.Second {
			r.Violation("%s\nNew returned %v without trying to reach the server", what(), err)
		}
		return false
	}
	if !t.Over(100 * time.Second) {
		r.Harness("%s: server still busy", what())
		return false
	}
	outcome := fmt.Sprintf("New: %v; server: accepted %v, attempts %v, socket closed %v", err, t.Accepted, st.attempts, t.EOF)
	if p.cancel != 0 {
		// How far a cancelled attempt gets is open; what it leaves is not.
		switch {
		case !good && !t.EOF && !t.Gone:
			r.Violation("%s\nthe socket was still open %v after New returned\n%s", what(), s.Limit, outcome)
		case good && (!t.Accepted || works != ""):
			r.Violation("%s\nNew returned a connection that is not authenticated or does not work (%s)\n%s", what(), works, outcome)
		case good:
			r.Count("cancelled_connected", 1)
		default:
			r.Count("cancelled_failed", 1)
		}
		r.Eval(fmt.Sprintf("%v/%v", p, good))
		return false
	}
	if s.Conns() != nth+1 {
		r.Violation("%s\nthe client opened %d connections\n%s", what(), s.Conns()-nth, outcome)
		return false
	}
	if st.blind > 0 {
		r.Violation("%s\nthe client answered a challenge that cannot be decoded\n%s", what(), outcome)
		return false
	}
	if d > time.Second && good != t.Accepted || good && !t.Accepted {
		r.Violation("%s\nreturned a connection: %v, server accepted: %v\n%s", what(), good, t.Accepted, outcome)
		return false
	}
	if good && works != "" {
		r.Violation("%s\nthe returned connection does not work: %s\n%s", what(), works, outcome)
		return false
	}
	if !t.EOF && !t.Gone {
		r.Violation("%s\nthe socket was still open %v after New returned\n%s", what(), s.Limit, outcome)
		return false
	}
	secure := p.transport != clearTCP
	first := p.b[0] == denyAccess || p.b[0] == denyAccessFatal || p.b[0] == wrongPW
	if secure && first && d > time.Second {
		r.Count("fallback_expected", 1)
		if len(st.attempts) != 2 || st.attempts[1] != "PLAIN" {
			r.Violation("%s\naccess denied on a secure channel: attempts were %v, want %s then PLAIN\n%s", what(), st.attempts, mname, outcome)
			return false
		}
		if good {
			r.Count("fallback_accepted", 1)
		} else {
			r.Count("fallback_failed", 1)
			var m *connection.MySqlXError
			if !errors.As(err, &m) || m.Code != 1045 || m.Msg != p.tag+"-0" {
				r.Violation("%s\nwant the first error (%s-0) reported\n%s", what(), p.tag, outcome)
				return false
			}
		}
	}
	if d > time.Second && !good && (p.b[0] == denyOther || p.b[0] == denyOtherFatal) {
		var m *connection.MySqlXError
		if !errors.As(err, &m) || m.Code != p.code || m.SqlState != p.state || m.Msg != p.tag+"-0" {
			r.Violation("%s\nthe server's error is not reported\n%s", what(), outcome)
			return false
		}
	}
	if !(secure && first) && len(st.attempts) > 1 {
		r.Violation("%s\nno access denied on a secure channel, yet attempts were %v\n%s", what(), st.attempts, outcome)
		return false
	}
	if len(st.attempts) > 0 && st.attempts[0] != mname {
		r.Violation("%s\nfirst attempt used %s\n%s", what(), st.attempts[0], outcome)
		return false
	}
	if t.Gone {
		r.Count("closure_not_observable", 1)
	} else {
		r.Count("closures_observed", 1)
	}
	if good {
		r.Count("connected", 1)
	} else {
		r.Count("failed", 1)
	}
	r.Count("first_"+bnames[p.b[0]], 1)
	r.Eval(fmt.Sprintf("%v/%v", p, good))
	if i%97 == 0 {
		r.Sample("%v -> %s", p, outcome)
	}
	if nth > 0 {
		r.Count("followed_on_same_connector", 1)
	}
	return true
}

func main() {
	r = rep.Start("C16", "fault_enumeration", "every combination of transport (TCP, TCP+TLS, Unix socket), mechanism and server behaviour on the first authentication attempt (accept, denials, fatal errors, closing or resetting at each step, zero-length or undecodable frames, repeated demands, replies cut at every byte, stalls) and on the PLAIN retry, against real sockets with garbage collection off; observed: what New returned, what the server accepted, the attempts made, the first error, and whether the client's socket was seen closed. Plus failures of dialling and of the TLS request. Non-trivial: distinct (combination, outcome).")
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(6 << 30)
	var err error
	if pki, err = xsrv.NewPKI(); err != nil {
		r.Harness("pki: %v", err)
		r.Finish()
	}
	// full matrix; the second attempt matters only after access denied
	var ps []*plan
	for tr := 0; tr < nTransport; tr++ {
		for m := 0; m < 3; m++ {
			for b := 0; b < nBehave; b++ {
				seconds := []int{accept}
				if b == denyAccess || b == denyAccessFatal || b == wrongPW {
					seconds = nil
					for k := 0; k < nBehave; k++ {
						seconds = append(seconds, k)
					}
				}
				for _, b2 := range seconds {
					for as := 0; as < 2; as++ {
						cuts := 1
						if b == cut {
							cuts = 35
						} else if b2 == cut {
							cuts = 5
						}
						for q := 0; q < cuts; q++ {
							ps = append(ps, &plan{transport: tr, mech: m, b: [3]int{b, b2, accept}, atStart: as == 1, cutAt: q})
						}
					}
				}
			}
		}
	}
	r.EachW("matrix", len(ps), 16, func(i int, rng *rand.Rand) { run("matrix", i, rng, ps[i]) })
	r.EachW("random", r.N(600, 30000), 16, func(i int, rng *rand.Rand) {
		run("random", 1000000+i, rng, &plan{transport: rng.Intn(nTransport), mech: rng.Intn(3), b: [3]int{rng.Intn(nBehave), rng.Intn(nBehave), rng.Intn(nBehave)}, atStart: rng.Intn(2) == 0, cutAt: rng.Intn(5000), noise: rng.Intn(2) == 0})
	})
	r.EachW("sequences", r.N(400, 10000), 16, sequence)
	// every code a login can be refused with, on the channels where PLAIN would be allowed
	r.EachW("codes", 420, 16, func(i int, rng *rand.Rand) {
		tr := []int{unixSock, unixSock, unixSock, unixSock, unixTLSCfg, tlsTCP}[i%6]
		var ps []*plan
		for k := 0; k < 20; k++ {
			p := refine(&plan{transport: tr, mech: i % 3, b: [3]int{denyOther, accept, accept}, atStart: k%2 == 0}, rng)
			if p.code = uint32(20*i + k); p.code == 1045 {
				continue
			}
			ps = append(ps, p)
			// the PLAIN retry refused with this code
			q := refine(&plan{transport: tr, mech: i % 3, b: [3]int{denyAccess, denyOther, accept}, atStart: k%4 < 2}, rng)
			q.code = p.code
			ps = append(ps, q)
		}
		sequenceOf("codes", 3000000+i, rng, ps)
	})
	// one connector for a long time
	r.EachW("life", r.N(12, 60), 16, func(i int, rng *rand.Rand) {
		tr := []int{unixSock, clearTCP, unixSock, tlsTCP, unixSock, unixTLSCfg}[i%6]
		n := 400
		if tr == tlsTCP {
			n = 120
		}
		var ps []*plan
		for len(ps) < n {
			p := &plan{transport: tr, mech: i / 2 % 3, b: [3]int{rng.Intn(nBehave), rng.Intn(nBehave), rng.Intn(nBehave)}, atStart: rng.Intn(2) == 0, cutAt: rng.Intn(5000), noise: rng.Intn(2) == 0}
			if p.b[0] == stall || p.b[1] == stall || p.b[2] == stall {
				continue
			}
			switch rng.Intn(6) {
			case 0, 1:
				p.b[0] = denyAccess
			case 2:
				p.b[0] = accept
			}
			ps = append(ps, refine(p, rng))
		}
		sequenceOf("life", 5000000+i, rng, ps)
	})
	r.EachW("cancels", r.N(3000, 60000), 16, func(i int, rng *rand.Rand) {
		p := &plan{transport: rng.Intn(nTransport), mech: rng.Intn(3), b: [3]int{accept, accept, accept}, cancel: rng.Intn(5)}
		switch rng.Intn(3) {
		case 0:
			p.b[0] = denyAccess
		case 1:
			p.b[0] = rng.Intn(nBehave)
		}
		if p.cancel == 0 {
			p.cancel, p.transport = -1, []int{unixSock, clearTCP, tlsTCP}[rng.Intn(3)]
		}
		run("cancels", 4000000+i, rng, p)
	})
	r.EachW("tlsphase", r.N(400, 8000), 16, tlsPhase)
	r.EachW("dial", 30, 4, dial)
	r.Each("options", r.N(2000, 20000), options)
	r.Need("cancelled_connected", 100)
	r.Need("fallback_accepted", 20)
	r.Need("fallback_failed", 100)
	r.Need("connected", 50)
	r.Need("closures_observed", 500)
	r.Need("contexts_over", 5)
	r.Finish()
}

// tlsPhase: failures while TLS is being set up.
func tlsPhase(i int, rng *rand.Rand) {
	s, err := xsrv.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	acc := xsrv.NewAccount(rng)
	cn, err := connector.New("tcp", s.Addr(), connector.WithUserPassword(acc.User, acc.PW), connector.WithTLSConfig(&tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}))
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	kind := i % 14
	d := 60 * time.Second
	if kind == 11 || kind == 12 {
		d = 80 * time.Millisecond
	}
	t := s.Next(func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
		cfg := func(c tls.Certificate) *tls.Config { return &tls.Config{Certificates: []tls.Certificate{c}} }
		switch kind {
		case 0:
			return xsrv.Action{Reply: xsrv.Err(0, 5001, "no tls")}
		case 1:
			return xsrv.Action{Reply: xsrv.Err(1, 5001, "no tls")}
		case 2:
			return xsrv.Action{FIN: true}
		case 3:
			return xsrv.Action{Reply: xsrv.OK()[:i/14%5], FIN: true}
		case 4:
			return xsrv.Action{Reply: []byte{0, 0, 0, 0, 0}}
		case 5:
			return xsrv.Action{Reply: wire.AppendFrame(nil, 1, []byte{8})}
		case 6:
			return xsrv.Action{Reply: xsrv.OK(), FIN: true}
		case 7:
			return xsrv.Action{Reply: append(xsrv.OK(), "this is not a server hello"...)}
		case 8:
			return xsrv.Action{Reply: xsrv.OK(), StartTLS: cfg(pki.Unknown)}
		case 9:
			return xsrv.Action{Reply: xsrv.OK(), StartTLS: cfg(pki.WrongName)}
		case 10:
			return xsrv.Action{Reply: xsrv.Continue([]byte("x"))}
		case 11:
			return xsrv.Action{Stall: true}
		case 12:
			return xsrv.Action{Reply: xsrv.OK(), Stall: true}
		default:
			return xsrv.Action{Reply: xsrv.Err(0, 1045, "no tls")}
		}
	})
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	what := func() string { return fmt.Sprintf("TLS set-up failure kind %d", kind) }
	r.Watch(150*time.Second, what, func() { _, err = cn.New(ctx) })
	if err != nil && !t.Came(10*time.Second) {
		if d > time.Second {
			r.Violation("%s: New returned %v without trying to reach the server", what(), err)
		}
		return
	}
	if !t.Over(100 * time.Second) {
		r.Harness("%s: server still busy", what())
		return
	}
	if err == nil {
		r.Violation("%s: New returned no error", what())
		return
	}
	if !t.EOF {
		r.Violation("%s: the socket was still open %v after New returned %v", what(), s.Limit, err)
		return
	}
	r.Count("closures_observed", 1)
	r.Count("tls_phase_failures", 1)
	r.Eval(fmt.Sprintf("tlsphase/%d/%d", kind, i/14%5))
}

// dial: nobody there.
func dial(i int, rng *rand.Rand) {
	network, address := "tcp", ""
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	switch i % 5 {
	case 3, 4:
		over(i, rng)
		return
	case 0:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		address = l.Addr().String()
		l.Close()
	case 1:
		network, address = "unix", filepath.Join(os.Getenv("XV_WORK"), "nobody.s")
	default:
		address = "127.0.0.1:1"
		cancel()
	}
	cn, err := connector.New(network, address, connector.WithUserPassword("u", "p"))
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	r.Watch(100*time.Second, func() string { return "dial " + address }, func() { _, err = cn.New(ctx) })
	if err == nil && i%5 != 0 {
		r.Violation("dialling %s %s (nobody listens) returned no error", network, address)
	}
	r.Eval(fmt.Sprintf("dial/%d", i%5))
}

// over: everything is fine except that the context is over before the call.
func over(i int, rng *rand.Rand) {
	s, network, err := listen(i%nTransport, 4000000+i)
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	acc := xsrv.NewAccount(rng)
	au := &xsrv.Auth{Acc: acc, R: rng}
	t := s.Next(func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
		if a, ok := au.On(m); ok {
			return a
		}
		return xsrv.Work(m)
	})
	cn, err := connector.New(network, s.Addr(), connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB))
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	how := "cancelled"
	if i%2 == 0 {
		how = "past its deadline"
		ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	}
	cancel()
	var c netx.Conn
	r.Watch(100*time.Second, func() string { return "New with a context " + how }, func() { c, err = cn.New(ctx) })
	if err == nil {
		if c != nil {
			c.Close()
		}
		r.Violation("over %d: New on %s with a context already %s succeeded", i, network, how)
		return
	}
	if t.Came(time.Millisecond) { // reached the server all the same: then it must have been closed
		if !t.Over(60*time.Second) || !t.EOF && !t.Gone {
			r.Violation("over %d: New on %s with a context already %s returned %v and left the socket open", i, network, how, err)
			return
		}
	}
	r.Count("contexts_over", 1)
	r.Eval(fmt.Sprintf("over/%d/%s", i%nTransport, how))
}

// options: a failing option fails the construction, with its own error.
func options(i int, rng *rand.Rand) {
	var opts []connector.Option
	n, bad := rng.Intn(8), -1
	errBad := fmt.Errorf("option %d", i)
	if rng.Intn(4) != 0 {
		n++
		bad = rng.Intn(n)
	}
	user, pw, db := "", "", ""
	for k := 0; k < n; k++ {
		if k == bad {
			opts = append(opts, func(*connector.Connector) error { return errBad })
			continue
		}
		switch rng.Intn(4) {
		case 0:
			u, p := fmt.Sprintf("user%d", rng.Intn(100)), fmt.Sprintf("pw%d", rng.Intn(100))
			user, pw = u, p
			opts = append(opts, connector.WithUserPassword(u, p))
		case 1:
			db = fmt.Sprintf("db%d", rng.Intn(100))
			opts = append(opts, connector.WithDatabase(db))
		case 2:
			_, m := xsrv.Mech(rng.Intn(3))
			opts = append(opts, connector.WithAuthentication(m))
		default:
			opts = append(opts, connector.WithTLSConfig(nil))
		}
	}
	what := func() string { return fmt.Sprintf("options %d: %d options, failing: %d", i, n, bad) }
	var cn *connector.Connector
	var err error
	network, address := []string{"tcp", "unix"}[rng.Intn(2)], fmt.Sprintf("127.0.0.1:%d", rng.Intn(65536))
	if !r.Guard(what, func() { cn, err = connector.New(network, address, opts...) }) {
		return
	}
	r.Eval(fmt.Sprintf("options/%d/%d/%s%s%s", n, bad, user, pw, db))
	if bad >= 0 {
		r.Count("failing_options", 1)
		if !errors.Is(err, errBad) {
			r.Violation("%s: connector.New returned %v", what(), err)
		}
		return
	}
	if err != nil || cn == nil {
		r.Violation("%s: connector.New returned %v, %v", what(), cn, err)
		return
	}
	if cn.UserName() != user || cn.Password() != pw || cn.Database() != db || cn.Network() != network || cn.String() != address {
		r.Violation("%s: connector for %q/%q/%q at %s %s has %q/%q/%q at %s %s", what(), user, pw, db, network, address, cn.UserName(), cn.Password(), cn.Database(), cn.Network(), cn.String())
	}
}
