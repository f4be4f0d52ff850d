package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/wire"

	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	xsha "github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/xproto"
)

var r *rep.Run

type creds struct{ u, p, d string }

func (c creds) UserName() string { return c.u }
func (c creds) Password() string { return c.p }
func (c creds) Database() string { return c.d }

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}
func (c creds) String() string {
	return fmt.Sprintf("user %s password %s database %s", short(c.u), short(c.p), short(c.d))
}

// ---- the server's side, written from MySQL's definition of the mechanisms ----

func s1(b ...[]byte) []byte {
	h := sha1.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}
func s2(b ...[]byte) []byte {
	h := sha256.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}
func xor(a, b []byte) []byte {
	c := make([]byte, len(a))
	for i := range a {
		c[i] = a[i] ^ b[i]
	}
	return c
}

// check41 decides whether proof (what follows "db\0user\0") proves knowledge of
// the password whose double hash is stored (nil: no password).
func check41(proof, challenge, stored []byte) bool {
	if stored == nil {
		return len(proof) == 0
	}
	if len(proof) != 1+2*sha1.Size || proof[0] != '*' {
		return false
	}
	p, err := hex.DecodeString(string(proof[1:]))
	if err != nil {
		return false
	}
	return bytes.Equal(s1(xor(p, s1(challenge, stored))), stored)
}

func check256(proof, challenge, stored []byte) bool {
	p, err := hex.DecodeString(string(proof))
	if err != nil || len(p) != sha256.Size {
		return false
	}
	return bytes.Equal(s2(xor(p, s2(stored, challenge))), stored)
}

func stored41(pw string) []byte {
	if pw == "" {
		return nil
	}
	return s1(s1([]byte(pw)))
}
func stored256(pw string) []byte { return s2(s2([]byte(pw))) }

const mStart, mContinue = 4, 5

// parse decodes exactly one frame.
func parse(b []byte, typ byte) (*wire.Node, error) {
	fr, err := wire.Split(b)
	if err != nil {
		return nil, err
	}
	if len(fr) != 1 || fr[0].Type != typ {
		return nil, fmt.Errorf("%d frames, want one of type %d", len(fr), typ)
	}
	return fr[0].Decode()
}

type mech struct {
	name string
	s    authentication.Starter
}

var mechs = []mech{{"MYSQL41", mysql41.New()}, {"SHA256_MEMORY", xsha.New()}, {"PLAIN", plain.New()}}

func start(m mech, b []byte, c creds) error {
	n, err := parse(b, mStart)
	if err != nil {
		return fmt.Errorf("start message: %v (%x)", err, b[:min(len(b), 200)])
	}
	if v := n.Get(1); v == nil || string(v.B) != m.name {
		return fmt.Errorf("start names mechanism %v, want %s", n, m.name)
	}
	var data []byte
	if v := n.Get(2); v != nil {
		data = v.B
	}
	if n.Get(3) != nil && len(n.Get(3).B) > 0 {
		return fmt.Errorf("start carries an initial response: %v", n)
	}
	if m.name == "PLAIN" {
		want := c.d + "\x00" + c.u + "\x00" + c.p
		if string(data) != want {
			return fmt.Errorf("PLAIN data is %d bytes %s, want %d bytes %s", len(data), short(string(data)), len(want), short(want))
		}
	} else if len(data) != 0 {
		return fmt.Errorf("%s start carries %d bytes of data", m.name, len(data))
	}
	return nil
}

func cont(m mech, b []byte, c creds, challenge []byte, wrong string) error {
	n, err := parse(b, mContinue)
	if err != nil {
		return fmt.Errorf("continue message: %v (%x)", err, b[:min(len(b), 200)])
	}
	data := string(n.Get(1).B)
	pre := c.d + "\x00" + c.u + "\x00"
	if len(data) < len(pre) || data[:len(pre)] != pre {
		return fmt.Errorf("continue data %s (%d bytes) does not start with database and user", short(data), len(data))
	}
	proof := []byte(data[len(pre):])
	if m.name == "MYSQL41" {
		if !check41(proof, challenge, stored41(c.p)) {
			return fmt.Errorf("a server that stores the hash of the password rejects proof %q", proof)
		}
		if c.p != wrong && check41(proof, challenge, stored41(wrong)) {
			return fmt.Errorf("proof %q is accepted for another password %q", proof, wrong)
		}
		return nil
	}
	if c.p == "" {
		return nil
	}
	if !check256(proof, challenge, stored256(c.p)) {
		return fmt.Errorf("a server that stores the hash of the password rejects proof %q", proof)
	}
	if c.p != wrong && check256(proof, challenge, stored256(wrong)) {
		return fmt.Errorf("proof %q is accepted for another password %q", proof, wrong)
	}
	return nil
}

// buffer is an initial buffer: length, capacity, dirty content.
func buffer(rng *rand.Rand, l, c int) []byte {
	if c < 0 {
		return nil
	}
	b := make([]byte, l, c)
	d := b[:c]
	rng.Read(d)
	return b
}

// strip allows a message to be returned after what the buffer already held.
func strip(out, pre []byte, typ byte) []byte {
	if len(pre) > 0 && len(out) > len(pre) && bytes.Equal(out[:len(pre)], pre) {
		if _, err := parse(out[len(pre):], typ); err == nil {
			return out[len(pre):]
		}
	}
	return out
}

func direct(what string, m mech, c creds, challenge []byte, l, capacity int, rng *rand.Rand) {
	desc := func() string {
		return fmt.Sprintf("%s %s: %v, challenge %x (%d), buffer len %d cap %d", what, m.name, c, challenge[:min(len(challenge), 40)], len(challenge), l, capacity)
	}
	wrong := ""
	switch rng.Intn(4) {
	case 0:
		wrong = c.p + "x"
	case 1:
		if len(c.p) > 0 {
			wrong = c.p[:len(c.p)-1]
		}
	case 2:
		wrong = "other"
	}
	r.Guard(desc, func() {
		b := buffer(rng, l, capacity)
		pre := append([]byte(nil), b...)
		out := m.s.Start(b, c)
		if err := start(m, strip(out, pre, mStart), c); err != nil {
			r.Violation("%s\n%v", desc(), err)
			return
		}
		r.EvalBytes(append(append([]byte(nil), out[:min(len(out), 4000)]...), byte(l), byte(capacity)))
		sc, ok := m.s.(authentication.StartContinuer)
		if !ok {
			if m.name != "PLAIN" {
				r.Violation("%s cannot continue", m.name)
			}
			return
		}
		b = buffer(rng, l, capacity)
		pre = append([]byte(nil), b...)
		ch := append([]byte(nil), challenge...)
		out = sc.Continue(b, c, ch)
		if err := cont(m, strip(out, pre, mContinue), c, challenge, wrong); err != nil {
			r.Violation("%s\n%v", desc(), err)
			return
		}
		if !bytes.Equal(ch, challenge) {
			r.Violation("%s\nthe challenge was modified", desc())
		}
		r.EvalBytes(append(append([]byte(nil), out[:min(len(out), 4000)]...), byte(l), byte(capacity)))
		r.Count("proofs_verified", 1)
	})
}

func randCreds(rng *rand.Rand, max int) creds {
	s := func() string {
		n := rng.Intn(20)
		switch rng.Intn(8) {
		case 0:
			n = 0
		case 1:
			n = rng.Intn(140)
		case 2:
			n = rng.Intn(max + 1)
		}
		b := gen.Raw(rng, n)
		return string(b)
	}
	return creds{s(), s(), s()}
}

func challengeOf(rng *rand.Rand) []byte {
	n := 20
	switch rng.Intn(6) {
	case 0:
		n = rng.Intn(70)
	case 1:
		n = rng.Intn(500)
	}
	b := make([]byte, n)
	rng.Read(b)
	if rng.Intn(6) == 0 {
		for i := range b {
			b[i] = []byte{0, 0xff}[rng.Intn(2)]
		}
	}
	return b
}

func fill(n int, k byte) string { return string(bytes.Repeat([]byte{k}, n)) }

func main() {
	r = rep.Start("C14", "exploration", "each mechanism's messages for swept credential lengths (every total length across the scratch buffer and length-varint boundaries), swept buffer capacities random credentials and challenges, and the messages of user-defined mechanisms (any name and data) are decoded and verified by an independently written server side (stored double hash), for the right password and for near misses; and whole authentications through the real connection against such a server, including wrong passwords, consecutive authentications and servers that refuse. Non-trivial: distinct messages.")
	// every length of one part, others small x a few capacities
	tops := r.N(420, 1200)
	r.Each("lengths", tops*3*3, func(i int, rng *rand.Rand) {
		n, part, m := i%tops, i/tops%3, mechs[i/tops/3]
		c := creds{"u", "p", "d"}
		switch part {
		case 0:
			c.u = fill(n, 'u')
		case 1:
			c.p = fill(n, 'p')
		default:
			c.d = fill(n, 'd')
		}
		for _, capacity := range []int{-1, 0, 1, 64, 128, 129, 200, 256, 512, 2000} {
			direct("length sweep", m, c, challengeOf(rng), 0, capacity, rng)
		}
	})
	// every capacity for a few credentials
	caps := r.N(300, 1500)
	r.Each("capacities", caps*3*6, func(i int, rng *rand.Rand) {
		capacity, m, k := i%caps, mechs[i/caps%3], i/caps/3
		c := []creds{{"root", "secret", ""}, {"", "", ""}, {"u", "", "db"}, {fill(40, 'x'), fill(30, 'y'), fill(20, 'z')}, {fill(100, 'x'), fill(100, 'y'), fill(64, 'z')}, {"a", "b", "c"}}[k]
		direct("capacity sweep", m, c, challengeOf(rng), 0, capacity, rng)
		if capacity > 0 {
			direct("capacity sweep", m, c, challengeOf(rng), rng.Intn(capacity+1), capacity, rng)
		}
	})
	r.Each("boundaries", 3*3*40, func(i int, rng *rand.Rand) {
		m, part, k := mechs[i%3], i/3%3, i/9
		n := []int{1<<14 - 20, 1<<21 - 20}[k%2] + k
		c := creds{"u", "p", "d"}
		switch part {
		case 0:
			c.u = fill(n, 'u')
		case 1:
			c.p = fill(n, 'p')
		default:
			c.d = fill(n, 'd')
		}
		direct("varint boundary", m, c, challengeOf(rng), 0, []int{-1, 128, n + 400}[k%3], rng)
	})
	r.Each("random", r.N(60000, 2000000), func(i int, rng *rand.Rand) {
		c := randCreds(rng, 3000)
		capacity := []int{-1, 0, 128, rng.Intn(400), rng.Intn(8000)}[rng.Intn(5)]
		l := 0
		if capacity > 0 && rng.Intn(5) == 0 {
			l = rng.Intn(capacity + 1)
		}
		m := mechs[rng.Intn(3)]
		if i < 3 {
			r.Sample("%s %v cap %d", m.name, c, capacity)
		}
		direct(fmt.Sprintf("random %d", i), m, c, challengeOf(rng), l, capacity, rng)
	})
	r.Each("messages", r.N(20000, 400000), messages)
	r.Each("exchange", r.N(15000, 500000), exchange)
	r.Need("accepted", 1000)
	r.Need("denied", 1000)
	r.Finish()
}

// messages: what a mechanism of the user's own would send, with any name and data.
func messages(i int, rng *rand.Rand) {
	size := func() int {
		switch rng.Intn(12) {
		case 0:
			return 0
		case 1:
			return 1<<14 - 3 + rng.Intn(6)
		case 2:
			return 100 + rng.Intn(200)
		case 3:
			if i%50 == 0 {
				return 1<<21 - 3 + rng.Intn(6)
			}
			return 127 + rng.Intn(3)
		default:
			return rng.Intn(40)
		}
	}
	name, data := string(gen.Raw(rng, size())), gen.Raw(rng, size())
	if rng.Intn(4) == 0 {
		data = nil
	}
	capacity := []int{-1, 0, 5, 128, rng.Intn(400), rng.Intn(40000)}[rng.Intn(6)]
	l := 0
	if capacity > 0 && rng.Intn(3) == 0 {
		l = rng.Intn(capacity + 1)
	}
	desc := func() string {
		return fmt.Sprintf("message %d: mechanism name of %d bytes, data of %d, buffer len %d cap %d", i, len(name), len(data), l, capacity)
	}
	keep := append([]byte(nil), data...)
	for _, typ := range []byte{mStart, mContinue} {
		r.Guard(desc, func() {
			b := buffer(rng, l, capacity)
			pre := append([]byte(nil), b...)
			var out []byte
			f := 1
			if typ == mStart {
				out = xproto.AuthenticateStart(b, name, data)
				f = 2
			} else {
				out = xproto.AuthenticateContinue(b, data)
			}
			if !bytes.Equal(b, pre) {
				r.Violation("%s\nwhat the buffer held was modified", desc())
				return
			}
			n, err := parse(strip(out, pre, typ), typ)
			if err != nil {
				r.Violation("%s\ntype %d: %v (%x)", desc(), typ, err, out[:min(len(out), 100)])
				return
			}
			var got []byte
			if v := n.Get(f); v != nil {
				got = v.B
			}
			if !bytes.Equal(got, keep) || !bytes.Equal(data, keep) || typ == mStart && (n.Get(1) == nil || string(n.Get(1).B) != name) {
				r.Violation("%s\ntype %d arrives as %v", desc(), typ, n)
			}
			r.Count("own_messages", 1)
			r.EvalBytes(append(append([]byte(nil), out[:min(len(out), 4000)]...), byte(l), byte(capacity)))
		})
	}
}

// exchange authenticates one to three times over one real connection against a
// server that verifies.
func exchange(i int, rng *rand.Rand) {
	c := &fnet.Conn{}
	if rng.Intn(2) == 0 {
		c.Rng, c.Max = rng, 30
	}
	cn := connection.New(c)
	for k, n := 0, 1+rng.Intn(3); k < n; k++ {
		m := mechs[rng.Intn(3)]
		cl := randCreds(rng, 600)
		if rng.Intn(3) == 0 { // around the 128-byte scratch
			t := 60 + rng.Intn(90)
			a := rng.Intn(t)
			cl = creds{fill(a, 'u'), string(gen.Raw(rng, rng.Intn(30))), fill(t-a, 'd')}
		}
		if m.name == "SHA256_MEMORY" && cl.p == "" {
			cl.p = "p"
		}
		real := cl
		if rng.Intn(2) == 0 {
			real.p = []string{cl.p + " ", "x" + cl.p, string(gen.Raw(rng, 1+len(cl.p))), ""}[rng.Intn(4)]
		}
		if real.p == "" && m.name == "SHA256_MEMORY" {
			real.p = "zz" + cl.p
		}
		challenge := challengeOf(rng)
		step := 0
		var trouble error
		verdict := func(ok bool) {
			if rng.Intn(3) == 0 {
				c.In = fnet.Notice(rng, c.In, 30)
			}
			if ok {
				var p []byte
				if rng.Intn(2) == 0 {
					p = wire.AppendBytes(nil, 1, []byte("info"))
				}
				c.In = wire.AppendFrame(c.In, fnet.SAuthOK, p)
			} else {
				c.In = fnet.ErrFrame(c.In, fnet.Outcome{Err: true, Severity: uint64(rng.Intn(2)), Code: 1045, State: "28000", Msg: "Access denied"})
			}
		}
		c.OnWrite = func(c *fnet.Conn, b []byte) {
			step++
			switch {
			case step == 1:
				if trouble = start(m, b, cl); trouble != nil {
					verdict(false)
					return
				}
				if m.name == "PLAIN" {
					verdict(cl.p == real.p)
					return
				}
				c.In = wire.AppendFrame(c.In, fnet.SAuthContinue, wire.AppendBytes(nil, 1, challenge))
			case step == 2 && m.name != "PLAIN":
				if trouble = cont(m, b, cl, challenge, real.p); trouble != nil {
					verdict(false)
					return
				}
				verdict(cl.p == real.p)
			default:
				trouble = fmt.Errorf("message %d in the exchange: %x", step, b[:min(len(b), 100)])
			}
		}
		what := fmt.Sprintf("exchange %d.%d %s: client %v, account password %s, challenge of %d bytes", i, k, m.name, cl, short(real.p), len(challenge))
		var err error
		r.Watch(60*time.Second, func() string { return what }, func() {
			r.Guard(func() string { return what }, func() { err = cn.Authenticate(context.Background(), cl, m.s) })
		})
		if trouble != nil {
			r.Violation("%s\n%v", what, trouble)
			return
		}
		good := cl.p == real.p
		if good != (err == nil) {
			r.Violation("%s\nAuthenticate returned %v", what, err)
			return
		}
		if err != nil {
			var me *connection.MySqlXError
			if !errors.As(err, &me) || me.Code != 1045 {
				r.Violation("%s\nAuthenticate returned %T %v, server said access denied (1045)", what, err, err)
				return
			}
			r.Count("denied", 1)
		} else {
			r.Count("accepted", 1)
		}
		r.Eval(what)
	}
}
