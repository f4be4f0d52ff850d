package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

var r *rep.Run

// tap keeps the bytes the pipe hands to its sender.
type tap struct {
	s netx.Sender
	b []byte
}

func (t *tap) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	t.b = append([]byte(nil), b...)
	return t.s.Send(ctx, b)
}

type fixed struct{ c netx.Conn }

func (f fixed) New(context.Context) (netx.Conn, error) { return f.c, nil }

type odd struct { // a caller-defined context
	context.Context
	d  time.Time
	ok bool
}

func (o odd) Deadline() (time.Time, bool) { return o.d, o.ok }

type key struct{}

func ctxOf(rng *rand.Rand) (ctx context.Context, dl time.Time, desc string, dead bool, cancel func()) {
	cancel = func() {}
	base := time.Now()
	switch rng.Intn(10) {
	case 0, 1, 2:
		return context.Background(), dl, "no deadline", false, cancel
	case 3:
		ctx, cancel = context.WithCancel(context.WithValue(context.Background(), key{}, 1))
		return ctx, dl, "cancellable, no deadline", false, cancel
	case 4:
		dl = base.Add(time.Duration(1+rng.Intn(100)) * time.Hour)
		ctx, cancel = context.WithDeadline(context.Background(), dl)
		return ctx, dl, "deadline", false, cancel
	case 5:
		dl = base.Add(time.Hour)
		c1, f1 := context.WithDeadline(context.Background(), dl)
		c2, f2 := context.WithDeadline(c1, dl.Add(time.Hour)) // the outer one wins
		return c2, dl, "nested deadlines", false, func() { f2(); f1() }
	case 6:
		dl = time.Date(2100, 1, 2, 3, 4, 5, rng.Intn(1e9), time.FixedZone("x", 3600)).Add(time.Duration(rng.Intn(1e9)))
		ctx, cancel = context.WithDeadline(context.WithValue(context.Background(), key{}, 1), dl)
		return ctx, dl, "wall clock deadline", false, cancel
	case 7:
		dl = base.Add(time.Duration(rng.Int63n(int64(1000 * time.Hour)))).Add(time.Hour)
		return odd{context.Background(), dl, true}, dl, "custom context with deadline", false, cancel
	case 8:
		ctx, cancel = context.WithCancel(context.Background())
		cancel()
		return ctx, dl, "cancelled", true, cancel
	default:
		dl = base.Add(-time.Duration(1+rng.Intn(100)) * time.Second)
		ctx, cancel = context.WithDeadline(context.Background(), dl)
		return ctx, dl, "expired deadline", true, cancel
	}
}

func same(a, b time.Time) bool { return a.IsZero() == b.IsZero() && a.Equal(b) }

func events(ev []fnet.Ev) string {
	var s string
	for i, e := range ev {
		if i == 12 {
			s += "..."
			break
		}
		s += fmt.Sprintf("%v(n=%d, deadline %v) ", e.Kind, e.N, e.Deadline)
	}
	return s
}

func main() {
	r = rep.Start("C13", "exploration", "histories of 1..8 sends with changing contexts (none, cancellable, expired, nested, custom, wall-clock deadlines) over one recording net.Conn, directly and through a pool; every Write, Read and deadline change is logged with the deadline in force and each send's log slice is checked: one Write of exactly the built bytes, before any Read, all under the context's deadline. Also writes that fail after any number of bytes (permanently or once), failing SetDeadline, and real TCP/Unix peers that stall or answer after an old deadline passed. Non-trivial: distinct (bytes, context kind, previous kind, transport).")
	r.Each("histories", r.N(15000, 400000), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{}
		if rng.Intn(3) == 0 { // whatever was set before
			c.SetDeadline(time.Now().Add(time.Duration(rng.Int63n(int64(100 * time.Hour)))))
		}
		cn := connection.New(c)
		var s netx.Sender = cn
		via := "connection"
		if rng.Intn(3) == 0 {
			s = fifoch.New(fixed{cn}, 1)
			via = "pool"
		}
		if rng.Intn(3) == 0 {
			c.Rng, c.Max = rng, 40
		}
		prev := "fresh"
		x := xtorm.New(rng.Intn(300))
		for k, n := 0, 1+rng.Intn(8); k < n; k++ {
			ctx, dl, desc, dead, cancel := ctxOf(rng)
			max := 60
			if rng.Intn(40) == 0 {
				max = 40000
			}
			if i%3000 == 5 && k == 0 {
				max = 4 << 20
			}
			p := gen.Program(rng, max, 2, 1+rng.Intn(4), true)
			x.Reset()
			p.Run(&x.Builder)
			t := &tap{s: s}
			c.OnWrite = func(c *fnet.Conn, b []byte) {
				fr, err := wire.Split(b)
				if err != nil {
					return // reported below: not the built bytes
				}
				for _, f := range fr {
					o := fnet.Outcome{}
					if via == "connection" && rng.Intn(6) == 0 {
						o = fnet.Failure(rng, 50)
					}
					c.In = fnet.Reply(rng, c.In, f.Type, o, 100)
				}
			}
			if rng.Intn(6) == 0 { // another use of the connection in between, under another context
				how := rng.Intn(3)
				if how == 0 { // it is moved to another network connection
					c2 := &fnet.Conn{Rng: c.Rng, Max: c.Max, OnWrite: c.OnWrite}
					if rng.Intn(2) == 0 {
						c2.SetDeadline(time.Now().Add(time.Duration(rng.Int63n(int64(100 * time.Hour)))))
					}
					c = c2
					cn.Reset(c)
				} else {
					ow := c.OnWrite
					c.OnWrite = func(c *fnet.Conn, b []byte) { c.In = wire.AppendFrame(c.In, 4, nil) }
					ctx2, _, d2, _, cancel2 := ctxOf(rng)
					if how == 1 {
						cn.Authenticate(ctx2, nobody{}, plain.New())
					} else {
						cn.WriteOne(ctx2, []byte{1, 0, 0, 0, 25})
					}
					cancel2()
					c.OnWrite, c.In = ow, nil
					prev += ", then " + d2
				}
				r.Count("uses_in_between", 1)
			}
			mark := len(c.Log)
			resp, err := x.Send(ctx, t)
			cancel()
			ev := c.Log[mark:]
			what := fmt.Sprintf("history %d send %d via %s, context: %s (deadline %v), previous context: %s", i, k, via, desc, dl, prev)
			if t.b == nil && err == nil {
				r.Violation("%s: nothing was handed to the sender", what)
				return
			}
			if len(t.b) == 0 {
				return // an empty unit of work, or nothing to judge
			}
			var w []fnet.Ev
			read := false
			for _, e := range ev {
				switch e.Kind {
				case fnet.Write:
					if read {
						r.Violation("%s: a Write after a Read: %s", what, events(ev))
						return
					}
					w = append(w, e)
				case fnet.Read:
					if len(w) == 0 {
						r.Violation("%s: a Read before the Write: %s", what, events(ev))
						return
					}
					read = true
				}
				if e.Kind == fnet.Write || e.Kind == fnet.Read {
					if !same(e.Deadline, dl) {
						r.Violation("%s: %v under deadline %v, want %v\n%s", what, e.Kind, e.Deadline, dl, events(ev))
						return
					}
					r.Count("io_calls_checked", 1)
				}
			}
			if dead && via == "pool" && len(w) == 0 && err != nil {
				r.Count("refused_dead_context", 1) // nothing written, an error reported: also fine
				return
			}
			if len(w) != 1 {
				r.Violation("%s: %d Writes: %s", what, len(w), events(ev))
				return
			}
			if !bytes.Equal(w[0].Data, t.b) {
				r.Violation("%s: wrote %d bytes, the unit of work has %d; first difference at %d", what, len(w[0].Data), len(t.b), diffAt(w[0].Data, t.b))
				return
			}
			if err != nil && dead {
				r.Count("refused_dead_context", 1)
				return
			}
			if err != nil {
				r.Violation("%s: Send returned %v (%d responses)", what, err, len(resp))
				return
			}
			r.Count("sends_checked", 1)
			r.Count("context_"+desc, 1)
			r.Eval(fmt.Sprintf("%x/%s/%s/%s", t.b[:min(len(t.b), 200)], desc, prev, via))
			if i < 5 && k > 0 {
				r.Sample("%s: %s", what, events(ev))
			}
			prev = desc
		}
	})
	// many sends on one connection, one context after another
	r.Each("life", r.N(6, 48), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{}
		cn := connection.New(c)
		u := []byte{1, 0, 0, 0, 25}
		c.OnWrite = func(c *fnet.Conn, b []byte) { c.In = wire.AppendFrame(c.In, fnet.SOK, nil) }
		n := r.N(12000, 60000)
		period := 1 + rng.Intn(3) // how many sends in a row are under the same kind of context
		dl := time.Time{}
		for k := 0; k < n; k++ {
			ctx, cancel := context.Background(), func() {}
			if k%(2*period) < period {
				dl = time.Now().Add(time.Hour + time.Duration(k)*time.Millisecond)
				ctx, cancel = context.WithDeadline(ctx, dl)
			} else {
				dl = time.Time{}
			}
			c.Log = c.Log[:0]
			_, err := cn.Send(ctx, u)
			cancel()
			what := fmt.Sprintf("send %d of %d on one connection, context with deadline %v", k, n, dl)
			if err != nil {
				r.Violation("%s: Send returned %v", what, err)
				return
			}
			writes := 0
			for _, e := range c.Log {
				if e.Kind == fnet.Write {
					if writes++; !bytes.Equal(e.Data, u) {
						r.Violation("%s: wrote %x", what, e.Data)
						return
					}
				}
				if (e.Kind == fnet.Write || e.Kind == fnet.Read) && !same(e.Deadline, dl) {
					r.Violation("%s: %v under deadline %v\n%s", what, e.Kind, e.Deadline, events(c.Log))
					return
				}
			}
			if writes != 1 {
				r.Violation("%s: %d Writes: %s", what, writes, events(c.Log))
				return
			}
			r.Count("sends_of_one_connection", 1)
		}
	})
	r.Need("sends_of_one_connection", 60000)
	// large units of work: still one write
	r.EachW("large", r.N(60, 600), 4, func(i int, rng *rand.Rand) {
		c := &fnet.Conn{}
		cn := connection.New(c)
		x := xtorm.New(rng.Intn(100))
		n := 1 << uint(12+i%14)
		n += rng.Intn(n) - rng.Intn(20)
		parts := 1
		if rng.Intn(2) == 0 {
			parts = 1 + rng.Intn(40)
		}
		for k := 0; k < parts; k++ {
			x.StmtExecute("INSERT INTO t VALUES (?)", bytes.Repeat([]byte{byte(k)}, n/parts))
		}
		c.OnWrite = func(c *fnet.Conn, b []byte) {
			fr, err := wire.Split(b)
			if err != nil {
				return
			}
			for range fr {
				c.In = wire.AppendFrame(c.In, fnet.SExecOK, nil)
			}
		}
		t := &tap{s: cn}
		resp, err := x.Send(context.Background(), t)
		what := fmt.Sprintf("%d statements, %d bytes", parts, len(t.b))
		var w []fnet.Ev
		for _, e := range c.Log {
			if e.Kind == fnet.Write {
				w = append(w, e)
			}
		}
		if len(w) != 1 || !bytes.Equal(w[0].Data, t.b) {
			r.Violation("%s: %d Writes: %s", what, len(w), events(c.Log))
			return
		}
		if err != nil || len(resp) != parts {
			r.Violation("%s: Send returned %d responses, %v", what, len(resp), err)
			return
		}
		r.Count("large_units", 1)
		r.Count(fmt.Sprintf("large_units_2^%02d", 12+i%14), 1)
		r.Eval(what)
	})
	// a connection on which the deadline cannot be set must not be written under the wrong one
	r.Each("cannot_set", r.N(300, 3000), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{}
		cn := connection.New(c)
		for k := 0; k < 3; k++ {
			ctx, dl, desc, dead, cancel := ctxOf(rng)
			if k == 2 {
				c.DeadErr = io.ErrClosedPipe
			}
			c.OnWrite = func(c *fnet.Conn, b []byte) { c.In = wire.AppendFrame(c.In, fnet.SOK, nil) }
			mark := len(c.Log)
			_, err := cn.Send(ctx, []byte{1, 0, 0, 0, 25})
			cancel()
			if err != nil && k < 2 && dead {
				return
			}
			if err != nil && k < 2 {
				r.Violation("send %d (%s) failed: %v", k, desc, err)
			}
			for _, e := range c.Log[mark:] {
				if (e.Kind == fnet.Write || e.Kind == fnet.Read) && !same(e.Deadline, dl) {
					r.Violation("setting the deadline failed, yet %v happened under deadline %v, want %v", e.Kind, e.Deadline, dl)
				}
			}
		}
		r.Count("cannot_set", 1)
	})
	// a write that fails or stops half way is the only write, and is reported
	r.Each("failing_write", r.N(6000, 100000), failingWrite)
	r.EachW("sockets", r.N(40, 400), 8, sockets)
	r.Need("sends_checked", 5000)
	r.Need("stalled_peers", 5)
	r.Need("failing_writes", 1000)
	r.Finish()
}

// failingWrite: with once, writes succeed again after the first failure, so a
// hidden second try would reach the server.
func failingWrite(i int, rng *rand.Rand) {
	c := &fnet.Conn{}
	var s netx.Sender = connection.New(c)
	via := "connection"
	if rng.Intn(3) == 0 {
		s = fifoch.New(fixed{connection.New(c)}, 1)
		via = "pool"
	}
	reply := func(c *fnet.Conn, b []byte) {
		fr, err := wire.Split(b)
		if err != nil {
			c.In = wire.AppendFrame(c.In, fnet.SOK, nil)
			return
		}
		for _, f := range fr {
			c.In = fnet.Reply(rng, c.In, f.Type, fnet.Outcome{}, 100)
		}
	}
	before := rng.Intn(3) // good sends first
	for k := 0; k <= before; k++ {
		ctx, dl, desc, dead, cancel := ctxOf(rng)
		if dead {
			cancel()
			continue
		}
		max := 60
		if rng.Intn(30) == 0 {
			max = 40000
		}
		x := xtorm.New(rng.Intn(300))
		p := gen.Program(rng, max, 2, 1+rng.Intn(4), true)
		p.Run(&x.Builder)
		t := &tap{s: s}
		c.OnWrite = reply
		mark := len(c.Log)
		fail := k == before
		var limit int
		var werr error
		once := rng.Intn(2) == 0
		probe := &tap{s: dummy{}}
		x.Send(context.Background(), probe)
		if len(probe.b) == 0 {
			cancel()
			return
		}
		if fail {
			switch rng.Intn(4) {
			case 0:
				limit = 0
			case 1:
				limit = len(probe.b) - 1
			case 2:
				limit = min(4, len(probe.b)-1)
			default:
				limit = rng.Intn(len(probe.b))
			}
			werr = []error{fnet.ErrBroken, fnet.ErrTimeout, io.ErrShortWrite, fnet.ErrReset, net.ErrClosed, temporary{}, io.EOF}[rng.Intn(7)]
			c.FailNext(limit, werr, once)
		}
		_, err := x.Send(ctx, t)
		cancel()
		ev := c.Log[mark:]
		if !fail {
			if err != nil {
				r.Violation("history %d via %s, context %s: Send returned %v", i, via, desc, err)
				return
			}
			continue
		}
		what := fmt.Sprintf("history %d via %s, context %s, the write of %d bytes fails with %v after %d bytes (later writes succeed: %v)", i, via, desc, len(t.b), werr, limit, once)
		var w []fnet.Ev
		for _, e := range ev {
			if e.Kind == fnet.Write {
				w = append(w, e)
			}
			if (e.Kind == fnet.Write || e.Kind == fnet.Read) && !same(e.Deadline, dl) {
				r.Violation("%s: %v under deadline %v, want %v\n%s", what, e.Kind, e.Deadline, dl, events(ev))
				return
			}
		}
		if len(w) != 1 || !bytes.Equal(w[0].Data, t.b) {
			r.Violation("%s: %d Writes: %s", what, len(w), events(ev))
			return
		}
		if err == nil {
			r.Violation("%s: Send reported success", what)
			return
		}
		r.Count("failing_writes", 1)
		r.Eval(fmt.Sprintf("fail/%d/%d/%v/%v/%s", len(t.b), limit, werr, once, via))
	}
}

type dummy struct{}

func (dummy) Send(context.Context, []byte) ([]netx.Response, error) { return nil, nil }

// temporary is a network error that invites a retry.
type temporary struct{}

func (temporary) Error() string   { return "temporarily unavailable" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

func diffAt(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// sockets: on a real connection the deadline must bite when the server stalls,
// and an old deadline must not bite later sends.
func sockets(i int, rng *rand.Rand) {
	network, address := "tcp", "127.0.0.1:0"
	if i%2 == 1 {
		network, address = "unix", filepath.Join(os.Getenv("XV_WORK"), fmt.Sprintf("c13-%d.sock", i))
	}
	l, err := net.Listen(network, address)
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer l.Close()
	stall := i%4 < 2
	partial := rng.Intn(2) == 0
	quit := make(chan struct{})
	defer close(quit)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		b := make([]byte, 5)
		for {
			if _, err := io.ReadFull(c, b); err != nil {
				return
			}
			if stall {
				if partial {
					c.Write([]byte{5, 0, 0, 0, 11, 8})
				}
				<-quit
				return
			}
			c.Write([]byte{1, 0, 0, 0, 0})
		}
	}()
	nc, err := net.Dial(network, l.Addr().String())
	if err != nil {
		r.Harness("dial: %v", err)
		return
	}
	defer nc.Close()
	cn := connection.New(nc)
	msg := []byte{1, 0, 0, 0, 25}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	desc := func() string {
		return fmt.Sprintf("%s peer, stalls %v (after a partial frame %v), context deadline 200ms", network, stall, partial)
	}
	if stall {
		var err error
		r.Watch(60*time.Second, desc, func() { _, err = cn.Send(ctx, msg) })
		if err == nil {
			r.Violation("%s: Send returned no error", desc())
		}
		r.Count("stalled_peers", 1)
		r.Eval(fmt.Sprintf("stall/%s/%v", network, partial))
		return
	}
	if _, err := cn.Send(ctx, msg); err != nil {
		r.Count("slow_machine", 1)
		return
	}
	time.Sleep(250 * time.Millisecond)
	ctx2 := context.Background()
	if partial {
		var c2 func()
		ctx2, c2 = context.WithTimeout(ctx2, time.Hour)
		defer c2()
	}
	r.Watch(60*time.Second, desc, func() {
		if _, err := cn.Send(ctx2, msg); err != nil {
			r.Violation("%s: the next send, under a context whose deadline has not passed, failed: %v", desc(), err)
		}
	})
	r.Count("old_deadline", 1)
	r.Eval(fmt.Sprintf("old/%s/%v", network, partial))
}

type nobody struct{}

func (nobody) UserName() string { return "u" }
func (nobody) Password() string { return "p" }
func (nobody) Database() string { return "" }
