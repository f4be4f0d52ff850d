package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/vtime"
	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

// exchange is what the server does about one write of the client, and when.
type exchange struct {
	frames      int
	before, mid time.Duration // before it starts and while it is reading
	chunks      [][]byte      // of the reply
	delays      []time.Duration
}

func (e *exchange) total() time.Duration {
	t := e.before + e.mid
	for _, d := range e.delays {
		t += d
	}
	return t
}

func (e *exchange) String() string {
	return fmt.Sprintf("%d messages, %v before reading, %v while reading, %d reply pieces after %v", e.frames, e.before, e.mid, len(e.chunks), e.delays)
}

// some is often no time at all.
func some(rng *rand.Rand) time.Duration {
	if rng.Intn(3) > 0 {
		return 0
	}
	return vtime.Span(rng)
}

func exch(rng *rand.Rand, frames int, reply []byte) *exchange {
	e := &exchange{frames: frames, before: some(rng), mid: some(rng)}
	for n := rng.Intn(4); n > 0 && len(reply) > 0; n-- {
		k := 1 + rng.Intn(len(reply))
		e.chunks, e.delays = append(e.chunks, reply[:k]), append(e.delays, some(rng))
		reply = reply[k:]
	}
	if len(reply) > 0 {
		e.chunks, e.delays = append(e.chunks, reply), append(e.delays, some(rng))
	}
	return e
}

type vserver struct {
	q    chan *exchange
	conn net.Conn
}

func (s *vserver) run() {
	defer s.conn.Close()
	for e := range s.q {
		time.Sleep(e.before)
		var h [3]byte
		if _, err := io.ReadFull(s.conn, h[:]); err != nil {
			return
		}
		time.Sleep(e.mid)
		rd := io.MultiReader(strings.NewReader(string(h[:])), s.conn)
		for k := 0; k < e.frames; k++ {
			if _, _, err := frame(rd); err != nil {
				return
			}
		}
		for k, c := range e.chunks {
			time.Sleep(e.delays[k])
			if _, err := s.conn.Write(c); err != nil {
				return
			}
		}
	}
}

// vnet opens virtual connections the way a connector does: dial, authenticate.
type vnet struct {
	dial    time.Duration
	auth    []*exchange
	mech    authentication.Starter
	servers []*vserver
	opened  int
}

func (v *vnet) New(ctx context.Context) (netx.Conn, error) {
	v.opened++
	t := time.NewTimer(v.dial)
	defer t.Stop()
	select {
	case <-t.C:
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	a, b := net.Pipe()
	s := &vserver{q: make(chan *exchange, 100), conn: b}
	v.servers = append(v.servers, s)
	go s.run()
	c := connection.New(a)
	for _, e := range v.auth {
		s.q <- e
	}
	if err := c.Authenticate(ctx, vcreds{}, v.mech); err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

type vcreds struct{}

func (vcreds) UserName() string { return "user" }
func (vcreds) Password() string { return "password" }
func (vcreds) Database() string { return "" }

// opening plans how the next connection is opened; it returns how long it takes.
func (v *vnet) opening(rng *rand.Rand) time.Duration {
	v.dial = some(rng)
	v.auth = nil
	var b []byte
	if rng.Intn(3) == 0 {
		b = fnet.Notice(rng, b, 100)
	}
	switch rng.Intn(3) {
	case 0:
		v.mech = plain.New()
	default:
		v.mech = []authentication.Starter{mysql41.New(), sha256.New()}[rng.Intn(2)]
		v.auth = append(v.auth, exch(rng, 1, wire.AppendFrame(b, 3, wire.AppendBytes(nil, 1, gen.Raw(rng, 20)))))
		b = nil
	}
	v.auth = append(v.auth, exch(rng, 1, wire.AppendFrame(b, 4, nil)))
	t := v.dial
	for _, e := range v.auth {
		t += e.total()
	}
	return t
}

// virtual follows a connection, or a pool with one, through a long life on a
// virtual clock: each call is waited for as long as its own deadline allows and
// ends with it.
func virtual(i int, rng *rand.Rand) {
	v := &vnet{}
	viaPool := i%2 == 0
	var to netx.Sender
	var conn netx.Conn
	pl := fifoch.New(v, 1+rng.Intn(3))
	if viaPool {
		to = pl
	}
	defer func() {
		pl.Close(context.Background())
		if conn != nil {
			conn.Close()
		}
		for _, s := range v.servers {
			close(s.q)
		}
	}()
	var trace strings.Builder
	have := false // an open connection
	for k := 0; k < 2+rng.Intn(5); k++ {
		time.Sleep(some(rng))
		// the plan
		var t time.Duration
		open := !have
		if open {
			t = v.opening(rng)
			fmt.Fprintf(&trace, "opening: dial %v, %v\n", v.dial, v.auth)
		}
		n := 1 + rng.Intn(4)
		x := xtorm.New(64)
		var reply []byte
		for m := 0; m < n; m++ {
			x.StmtExecute("SELECT 1", make([]byte, rng.Intn(200)))
			reply = fnet.Reply(rng, reply, 12, fnet.Outcome{}, 300)
		}
		e := exch(rng, n, reply)
		if open {
			v.auth = append(v.auth, e) // served after the authentication
		}
		t += e.total()
		fmt.Fprintf(&trace, "sending: %v\n", e)
		// the deadline
		ctx, cancel := context.Background(), func() {}
		var d time.Duration
		short := false
		switch rng.Intn(3) {
		case 0:
			if t > 2*time.Millisecond {
				short = true
				d = time.Duration(1 + rng.Int63n(int64(t-time.Millisecond)))
				break
			}
			fallthrough
		case 1:
			d = t + time.Second + vtime.Span(rng)
		}
		if d > 0 {
			ctx, cancel = context.WithTimeout(ctx, d)
		}
		fmt.Fprintf(&trace, "deadline in %v, the server needs %v\n", d, t)
		began := time.Now()
		var err error
		if !open {
			v.servers[len(v.servers)-1].q <- e
		}
		if viaPool {
			_, err = x.Send(ctx, to)
		} else {
			if open {
				var c netx.Conn
				if c, err = v.New(ctx); err == nil {
					conn, to = c, c
				}
			}
			if err == nil {
				_, err = x.Send(ctx, to)
			}
		}
		took := time.Since(began)
		cancel()
		r.Count("virtual_calls", 1)
		r.Count("virtual_hours", int(took/time.Hour))
		switch {
		case short && err == nil:
			r.Violation("virtual clock, through a pool %v: the call reports success %v after it began, beyond its deadline\n%s", viaPool, took, trace.String())
			return
		case short && took > d+time.Second:
			r.Violation("virtual clock, through a pool %v: the call returned %v (%v) after it began\n%s", viaPool, took, err, trace.String())
			return
		case short && took < d:
			r.Violation("virtual clock, through a pool %v: the call gave up after %v: %v\n%s", viaPool, took, err, trace.String())
			return
		case !short && err != nil:
			r.Violation("virtual clock, through a pool %v: the call gave up after %v: %v\n%s", viaPool, took, err, trace.String())
			return
		}
		have = err == nil
		if short {
			r.Count("virtual_deadlines_met", 1)
			if conn != nil {
				conn.Close()
				conn = nil
			}
		} else {
			r.Count("virtual_waited_for", 1)
		}
	}
	r.Eval(trace.String())
	if i == 3 {
		r.Sample("%s", trace.String())
	}
}
