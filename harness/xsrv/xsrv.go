// Package xsrv runs scripted X Protocol servers on real loopback TCP and Unix
// sockets and records everything the client does on the wire.
package xsrv

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"xv/wire"
)

// Msg is one client message.
type Msg struct {
	TLS     bool
	Type    byte
	Payload []byte
}

// Trace is everything observed on one accepted connection.
type Trace struct {
	Raw       []byte // every byte the client sent, as it was on the wire
	Msgs      []Msg
	Handshake bool // TLS established
	HSErr     error
	Accepted  bool // the script sent a genuine authentication OK
	EOF       bool // the client's socket was seen closed
	Gone      bool // the server went away by itself (closure not observable)
	done      chan struct{}

	mu  sync.Mutex
	c   net.Conn
	end time.Time // the client has returned: read no longer than this
	lim time.Duration
}

func (t *Trace) attach(c net.Conn) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.c = c
	if !t.end.IsZero() {
		c.SetReadDeadline(t.end)
	}
}

// Came tells whether the connection was accepted, waiting at most d for it.
func (t *Trace) Came(d time.Duration) bool {
	for end := time.Now().Add(d); ; time.Sleep(5 * time.Millisecond) {
		t.mu.Lock()
		c := t.c
		t.mu.Unlock()
		if c != nil || time.Now().After(end) {
			return c != nil
		}
	}
}

// left starts the time the client's socket has to be closed in.
func (t *Trace) left() {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.end.IsZero() {
		t.end = time.Now().Add(t.lim)
		if t.c != nil {
			t.c.SetReadDeadline(t.end)
		}
	}
}

// Action is the script's answer to a message.
type Action struct {
	Reply    []byte
	StartTLS *tls.Config // after the reply
	FIN      bool        // half close after the reply, then keep watching
	RST      bool
	Stall    bool // say nothing more, keep watching
	Accept   bool // this reply is the authentication OK
}

// Script decides per message.
type Script func(t *Trace, m Msg) Action

type rec struct {
	net.Conn
	t *Trace
}

func (r *rec) Read(b []byte) (int, error) {
	n, err := r.Conn.Read(b)
	r.t.Raw = append(r.t.Raw, b[:n]...)
	return n, err
}

type Server struct {
	L       net.Listener
	mu      sync.Mutex
	scripts []Script
	Traces  []*Trace
	wg      sync.WaitGroup
	Limit   time.Duration // how long closure may take
	Host    string        // dialled by this name
}

func Listen(network, address string) (*Server, error) {
	l, err := net.Listen(network, address)
	if err != nil {
		return nil, err
	}
	s := &Server{L: l, Limit: 30 * time.Second}
	go s.accept()
	return s, nil
}

// ListenTCP listens on a loopback address for one of the TCP networks ("tcp" and
// "tcp4" over IPv4, "tcp" and "tcp6" over IPv6 where there is any).
func ListenTCP(k int) (*Server, string, error) {
	switch k % 5 {
	case 1:
		s, err := Listen("tcp4", "127.0.0.1:0")
		return s, "tcp4", err
	case 3, 4:
		if s, err := Listen("tcp6", "[::1]:0"); err == nil {
			return s, []string{"tcp", "tcp6"}[k%5-3], nil
		}
	}
	s, err := Listen("tcp", "127.0.0.1:0")
	if err == nil && k/5%2 == 1 {
		s.Host = local
	}
	return s, "tcp", err
}

// Addr is the address to dial.
func (s *Server) Addr() string {
	if s.Host != "" {
		if _, port, err := net.SplitHostPort(s.L.Addr().String()); err == nil {
			return net.JoinHostPort(s.Host, port)
		}
	}
	return s.L.Addr().String()
}

// local is the name of the loopback address, if it has one.
var local = func() string {
	if l, err := net.LookupHost("localhost"); err == nil {
		for _, a := range l {
			if a == "127.0.0.1" {
				return "localhost"
			}
		}
	}
	return ""
}()

// Next queues the script of the next connection and returns its trace.
func (s *Server) Next(sc Script) *Trace {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := &Trace{done: make(chan struct{}), lim: s.Limit}
	s.scripts = append(s.scripts, sc)
	s.Traces = append(s.Traces, t)
	return t
}

// Wait waits for the end of a connection's observation.
func (t *Trace) Wait() { <-t.done }

// Over waits for the end of the observation. Called once the client has
// returned (and closed what it got): the socket then has to be seen closed.
func (t *Trace) Over(d time.Duration) bool {
	t.left()
	select {
	case <-t.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (s *Server) Close() { s.L.Close() }

func (s *Server) accept() {
	for i := 0; ; i++ {
		c, err := s.L.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if i >= len(s.scripts) {
			// a connection nobody asked for: record it
			s.scripts = append(s.scripts, func(*Trace, Msg) Action { return Action{FIN: true} })
			s.Traces = append(s.Traces, &Trace{done: make(chan struct{}), lim: s.Limit})
		}
		sc, t := s.scripts[i], s.Traces[i]
		s.mu.Unlock()
		go s.serve(c, sc, t)
	}
}

// Conns is the number of connections accepted or expected.
func (s *Server) Conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.Traces)
}

func readFrame(r io.Reader) (typ byte, p []byte, err error) {
	var h [5]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	n := binary.LittleEndian.Uint32(h[:])
	if n == 0 || n > 1<<24 || h[0] == 22 && h[1] == 3 {
		return 0, nil, fmt.Errorf("client frame length %d", n)
	}
	p = make([]byte, n-1)
	_, err = io.ReadFull(r, p)
	return h[4], p, err
}

func (s *Server) serve(c net.Conn, sc Script, t *Trace) {
	defer close(t.done)
	defer c.Close()
	t.attach(c)
	raw := &rec{c, t}
	var rw net.Conn = raw
	secure := false
	for {
		typ, p, err := readFrame(rw)
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return // nothing came any more, and the socket is open
			}
			if !secure { // not a message (a client hello, say): offer success in clear and hang up
				c.Write(AuthOK())
				c.(interface{ CloseWrite() error }).CloseWrite()
			}
			break
		}
		m := Msg{secure, typ, p}
		t.Msgs = append(t.Msgs, m)
		a := sc(t, m)
		if a.Accept {
			t.Accepted = true
		}
		if len(a.Reply) > 0 {
			if _, err := rw.Write(a.Reply); err != nil {
				break
			}
		}
		if a.RST {
			t.Gone = true
			if tc, ok := c.(*net.TCPConn); ok {
				tc.SetLinger(0)
			}
			return
		}
		if a.FIN {
			c.(interface{ CloseWrite() error }).CloseWrite()
			break
		}
		if a.Stall {
			break
		}
		if a.StartTLS != nil {
			tc := tls.Server(raw, a.StartTLS)
			if t.HSErr = tc.Handshake(); t.HSErr != nil {
				// drain below; the client sees our alert
				c.(interface{ CloseWrite() error }).CloseWrite()
				break
			}
			t.Handshake, secure, rw = true, true, tc
		}
	}
	// watch for the close of the client's socket
	buf := make([]byte, 4096)
	for {
		_, err := raw.Read(buf)
		if err != nil {
			ne, ok := err.(net.Error)
			t.EOF = !(ok && ne.Timeout())
			return
		}
	}
}

// Frame builders for server messages.
func OK() []byte     { return wire.AppendFrame(nil, 0, nil) }
func AuthOK() []byte { return wire.AppendFrame(nil, 4, nil) }
func Continue(ch []byte) []byte {
	return wire.AppendFrame(nil, 3, wire.AppendBytes(nil, 1, ch))
}
func Err(sev uint64, code uint32, msg string) []byte {
	return ErrState(sev, code, "28000", msg)
}
func ErrState(sev uint64, code uint32, state, msg string) []byte {
	return wire.AppendFrame(nil, 1, wire.ErrorPayload(sev, code, state, msg))
}

// Start decodes an AuthenticateStart.
func (m Msg) Start() (mech string, data []byte, ok bool) {
	if m.Type != 4 {
		return
	}
	n, err := wire.Decode("AuthenticateStart", m.Payload)
	if err != nil {
		return
	}
	if v := n.Get(2); v != nil {
		data = v.B
	}
	return string(n.Get(1).B), data, true
}

// IsTLSRequest: a CapabilitiesSet with exactly tls=true.
func (m Msg) IsTLSRequest() bool {
	if m.Type != 2 {
		return false
	}
	n, err := wire.Decode("CapabilitiesSet", m.Payload)
	if err != nil {
		return false
	}
	caps := n.Get(1).N.All(1)
	if len(caps) != 1 || string(caps[0].N.Get(1).B) != "tls" {
		return false
	}
	v := caps[0].N.Get(2).N.Get(2)
	if v == nil || v.N == nil {
		return false
	}
	bv := v.N.Get(8)
	return bv != nil && bv.U == 1
}

// Verify checks a Continue or PLAIN payload against the account.
func Verify(mech string, data, challenge []byte, user, pw, db string) bool {
	pre := []byte(db + "\x00" + user + "\x00")
	if !bytes.HasPrefix(data, pre) {
		return false
	}
	proof := data[len(pre):]
	switch mech {
	case "PLAIN":
		return string(proof) == pw
	case "MYSQL41":
		if pw == "" {
			return len(proof) == 0
		}
		if len(proof) != 41 || proof[0] != '*' {
			return false
		}
		p, err := hex.DecodeString(string(proof[1:]))
		if err != nil {
			return false
		}
		h1 := sha1.Sum([]byte(pw))
		h2 := sha1.Sum(h1[:])
		h3 := sha1.Sum(append(append([]byte(nil), challenge...), h2[:]...))
		for i := range p {
			p[i] ^= h3[i]
		}
		got := sha1.Sum(p)
		return got == h2
	case "SHA256_MEMORY":
		p, err := hex.DecodeString(string(proof))
		if err != nil || len(p) != 32 {
			return false
		}
		h1 := sha256.Sum256([]byte(pw))
		h2 := sha256.Sum256(h1[:])
		h3 := sha256.Sum256(append(append([]byte(nil), h2[:]...), challenge...))
		for i := range p {
			p[i] ^= h3[i]
		}
		return sha256.Sum256(p) == h2
	}
	return false
}

// ClearOK checks the raw bytes of a connection that was to be protected: one
// request to enable TLS, then nothing but TLS records.
func ClearOK(raw []byte) error {
	if len(raw) == 0 {
		return nil
	}
	if len(raw) < 5 {
		return nil // cut short
	}
	n := int(binary.LittleEndian.Uint32(raw))
	if n < 1 || n > 200 {
		return fmt.Errorf("first bytes in clear are not a TLS request: %x", raw[:min(len(raw), 60)])
	}
	if len(raw) < 4+n {
		return nil
	}
	if !(Msg{Type: raw[4], Payload: raw[5 : 4+n]}).IsTLSRequest() {
		return fmt.Errorf("first message in clear is not the request to enable TLS: %x", raw[:4+n])
	}
	raw = raw[4+n:]
	for len(raw) >= 2 {
		if raw[0] < 20 || raw[0] > 23 || raw[1] != 3 {
			return fmt.Errorf("bytes in clear after the TLS request: %x", raw[:min(len(raw), 60)])
		}
		if len(raw) < 5 {
			return nil
		}
		l := int(raw[3])<<8 | int(raw[4])
		if len(raw) < 5+l {
			return nil
		}
		raw = raw[5+l:]
	}
	return nil
}

func decodeContinue(p []byte) ([]byte, error) {
	n, err := wire.Decode("AuthenticateContinue", p)
	if err != nil {
		return nil, err
	}
	return n.Get(1).B, nil
}

// Work answers an ordinary message with success (ok frame or execute ok).
func Work(m Msg) Action {
	switch m.Type {
	case 24, 25, 40, 42, 6:
		return Action{Reply: OK()}
	case 3, 7:
		return Action{Reply: OK(), FIN: true}
	}
	return Action{Reply: wire.AppendFrame(nil, 17, nil)}
}
