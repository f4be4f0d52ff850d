package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

var r *rep.Run

type key struct{}

// sender records a hand-over and answers as told.
type sender struct {
	calls  int
	b      []byte
	ctx    context.Context
	resp   []netx.Response
	err    error
	cancel context.CancelFunc // called during the hand-over
	live   error              // ctx.Err() afterwards
	alive  error              // ctx.Err() before
}

func (s *sender) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.calls++
	s.b, s.ctx, s.alive = bytes.Clone(b), ctx, ctx.Err()
	if s.cancel != nil {
		s.cancel()
		// a derived context would learn of it at once as well
		s.live = ctx.Err()
	}
	return s.resp, s.err
}

type anError struct{ n int }

func (e *anError) Error() string   { return fmt.Sprintf("error %d", e.n) }
func (e *anError) Timeout() bool   { return e.n%2 == 0 }
func (e *anError) Temporary() bool { return e.n%3 == 0 }

func someErr(rng *rand.Rand) error {
	all := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, pool.ErrPoolClosed, connection.ErrUnexpectedAuthenticateContinue,
		&anError{rng.Intn(1000)}, &connection.MySqlXError{Severity: 1, Code: uint32(rng.Intn(6000)), SqlState: "HY000", Msg: "m"}, &connection.MySqlXError{Code: 1045},
		&net.OpError{Op: []string{"write", "read", "dial"}[rng.Intn(3)], Net: "tcp", Err: &anError{rng.Intn(1000)}}, errors.New("plain")}
	e := all[rng.Intn(len(all))]
	if rng.Intn(3) == 0 {
		return fmt.Errorf("wrapped: %w", e)
	}
	return e
}

func someResp(rng *rand.Rand) []netx.Response {
	if rng.Intn(5) == 0 {
		return nil
	}
	n := rng.Intn(6)
	if rng.Intn(20) == 0 {
		n = rng.Intn(400)
	}
	p := make([]netx.Response, n)
	for i := range p {
		switch rng.Intn(4) {
		case 0:
			p[i] = &connection.MySqlXError{Code: uint32(rng.Intn(6000)), Msg: fmt.Sprint(i)}
		case 1:
			p[i] = errors.New(fmt.Sprint("response ", i))
		case 2:
			p[i] = &anError{i}
		}
	}
	return p
}

// build makes a pipe holding one generated unit of work of at least one message, or one without any.
func build(rng *rand.Rand, empty bool) (*xtorm.XPipe, *gen.Prog) {
	for {
		p := gen.Program(rng, []int{30, 300, 5000}[rng.Intn(3)], 2, 1+rng.Intn(5), true)
		if len(p.Frames()) == 0 && !empty {
			continue
		}
		x := xtorm.New([]int{0, 1, 16, 256, 4096, 100000}[rng.Intn(6)])
		p.Run(&x.Builder)
		return x, p
	}
}

// context draws the caller's context.
func someCtx(rng *rand.Rand) (context.Context, context.CancelFunc, string) {
	ctx := context.WithValue(context.Background(), key{}, rng.Int63())
	switch rng.Intn(6) {
	case 0:
		c, f := context.WithCancel(ctx)
		return c, f, "cancellable"
	case 3:
		c, f := context.WithCancel(ctx)
		f()
		return c, f, "cancelled"
	case 4:
		c, f := context.WithDeadline(ctx, time.Now().Add(-time.Duration(rng.Int63n(int64(time.Hour)))))
		return c, f, "expired"
	case 1:
		c, f := context.WithDeadline(ctx, time.Now().Add(time.Hour+time.Duration(rng.Int63n(int64(1000*time.Hour)))))
		return c, f, "with deadline"
	case 2:
		c, f := context.WithDeadline(ctx, time.Now().Add(20*365*24*time.Hour))
		c, _ = context.WithCancel(c)
		return c, f, "with far deadline"
	default:
		return ctx, func() {}, "plain"
	}
}

func handOver(i int, rng *rand.Rand) {
	x, p := build(rng, true)
	if i%50 == 7 {
		x, p = xtorm.New(i%3), &gen.Prog{}
	}
	var first []byte
	total := ""
	for n := 0; n < 1+rng.Intn(6); n++ {
		s := &sender{resp: someResp(rng)}
		if rng.Intn(2) == 0 {
			s.err = someErr(rng)
		}
		ctx, cancel, cd := someCtx(rng)
		if rng.Intn(3) == 0 && cd != "plain" {
			s.cancel = cancel
		}
		was0 := ctx.Err()
		was := append([]netx.Response(nil), s.resp...)
		total += fmt.Sprintf(" [%s; %d responses; error %v]", cd, len(s.resp), s.err)
		what := func() string { return fmt.Sprintf("hand-over %d of %s;%s", n+1, p, total) }
		var resp []netx.Response
		var err error
		if !r.Guard(what, func() { resp, err = x.Send(ctx, s) }) {
			return
		}
		r.Count("hand_overs", 1)
		if s.calls != 1 {
			r.Violation("%s: the sender was called %d times", what(), s.calls)
			return
		}
		if n == 0 {
			first = s.b
			if len(first) == 0 {
				r.Count("empty_units", 1)
			}
			if class, d := p.Compare(s.b); class != "" {
				r.Violation("%s: %s", what(), d)
				return
			}
			r.EvalBytes(first)
		} else {
			r.Count("repeats", 1)
		}
		if !bytes.Equal(first, s.b) {
			r.Violation("%s: handed over %d bytes %.200x, at first it was %d bytes %.200x", what(), len(s.b), s.b, len(first), first)
			return
		}
		// the caller's context
		d0, ok0 := ctx.Deadline()
		d1, ok1 := s.ctx.Deadline()
		if ok0 != ok1 || !d0.Equal(d1) || s.ctx.Value(key{}) != ctx.Value(key{}) || s.alive != was0 {
			r.Violation("%s: the sender did not get the caller's context: deadline %v %v / %v %v, value %v / %v, %v", what(), d0, ok0, d1, ok1, ctx.Value(key{}), s.ctx.Value(key{}), s.alive)
		}
		if s.cancel != nil && s.live == nil {
			r.Violation("%s: cancelling the caller's context does not cancel the sender's", what())
		}
		cancel()
		// the outcome
		if (s.err == nil) != (err == nil) || s.err != nil && !errors.Is(err, s.err) {
			r.Violation("%s: Send returned error %v", what(), err)
			return
		}
		var m0, m1 *connection.MySqlXError
		if errors.As(s.err, &m0) && (!errors.As(err, &m1) || *m0 != *m1) {
			r.Violation("%s: Send returned error %v", what(), err)
		}
		if len(resp) != len(was) {
			r.Violation("%s: Send returned %d responses", what(), len(resp))
			return
		}
		for k := range was {
			if resp[k] != was[k] {
				r.Violation("%s: response %d is %v, the sender returned %v", what(), k, resp[k], was[k])
				return
			}
		}
		if i < 4 && n == 0 {
			r.Sample("%s", total)
		}
	}
	// more is appended behind what was sent
	if rng.Intn(2) == 0 {
		x.StmtExecute("SELECT ?", 7)
		s := &sender{}
		x.Send(context.Background(), s)
		fr, err := wire.Split(s.b)
		if err != nil || len(s.b) <= len(first) || !bytes.Equal(s.b[:len(first)], first) || len(fr) != len(p.Frames())+1 {
			r.Violation("%s;%s then a statement was added: %d bytes sent, %d before; %v", p, total, len(s.b), len(first), err)
		}
		r.Count("extended", 1)
	}
	// and Reset starts over
	x.Reset()
	y := xtorm.New(0)
	x.Deallocate(9)
	y.Deallocate(9)
	s, t := &sender{}, &sender{}
	x.Send(context.Background(), s)
	y.Send(context.Background(), t)
	if !bytes.Equal(s.b, t.b) {
		r.Violation("%s;%s after Reset, a new unit of work is %x, not %x", p, total, s.b, t.b)
	}
}

// connector gives connections over faulty networks; the last one works.
type connector struct {
	rng   *rand.Rand
	fails int
	conns []*fnet.Conn
	wrote [][]byte
	types []byte
	bad   []string
}

func (c *connector) New(ctx context.Context) (netx.Conn, error) {
	n := &fnet.Conn{NoLog: true}
	c.conns = append(c.conns, n)
	c.wrote = append(c.wrote, nil)
	k := len(c.conns) - 1
	how := ""
	if k < c.fails {
		switch c.rng.Intn(5) {
		case 0:
			how = "no connection"
			c.bad = append(c.bad, how)
			return nil, someErr(c.rng)
		case 1:
			how = "write fails"
			n.WriteErr, n.WriteLimit = someErr(c.rng), c.rng.Intn(40)
		case 2:
			how = "reset before the reply"
			n.End = fnet.ErrReset
		case 3:
			how = "end of stream within the reply"
			n.End = io.EOF
		default:
			how = "deadline cannot be set"
			n.DeadErr = someErr(c.rng)
		}
		c.bad = append(c.bad, how)
	}
	n.OnWrite = func(n *fnet.Conn, b []byte) {
		c.wrote[k] = append(c.wrote[k], b...)
		if how == "" || n.End == io.EOF {
			for _, t := range c.types {
				n.In = fnet.Reply(c.rng, n.In, t, fnet.Outcome{}, 60)
			}
			if n.End == io.EOF {
				n.In = n.In[:c.rng.Intn(len(n.In))]
			}
		}
	}
	return connection.New(n), nil
}

// retry sends a unit of work through a pool again and again until it succeeds.
func retry(i int, rng *rand.Rand) {
	x, p := build(rng, false)
	c := &connector{rng: rng, fails: rng.Intn(5)}
	rec := &sender{}
	if _, err := x.Send(context.Background(), rec); err != nil {
		r.Violation("%s: %v", p, err)
		return
	}
	fr, err := wire.Split(rec.b)
	if err != nil {
		r.Violation("%s: %v", p, err)
		return
	}
	for _, f := range fr {
		c.types = append(c.types, f.Type)
	}
	pl := fifoch.New(c, 1+rng.Intn(3))
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	what := func() string { return fmt.Sprintf("%s; failures %q", p, c.bad) }
	for n := 0; ; n++ {
		var resp []netx.Response
		var err error
		ok := true
		r.Watch(60*time.Second, what, func() { ok = r.Guard(what, func() { resp, err = x.Send(ctx, pl) }) })
		if !ok {
			return
		}
		r.Count("pool_sends", 1)
		if n < c.fails {
			if err == nil {
				r.Violation("%s: attempt %d succeeded", what(), n+1)
				return
			}
			continue
		}
		if err != nil {
			r.Violation("%s: attempt %d failed: %v", what(), n+1, err)
			return
		}
		if len(resp) != len(fr) {
			r.Violation("%s: %d responses for %d messages", what(), len(resp), len(fr))
		}
		break
	}
	for k, w := range c.wrote {
		if w != nil && !bytes.Equal(w, rec.b) {
			r.Violation("%s: attempt %d transmitted %d bytes %.200x, not the unit's %d bytes %.200x", what(), k+1, len(w), w, len(rec.b), rec.b)
			return
		}
	}
	if !bytes.Equal(c.wrote[len(c.wrote)-1], rec.b) {
		r.Violation("%s: the attempt that succeeded transmitted %d bytes, the unit has %d", what(), len(c.wrote[len(c.wrote)-1]), len(rec.b))
	}
	r.EvalBytes(append([]byte(fmt.Sprint(c.bad)), rec.b...))
	if len(c.bad) > 0 {
		r.Count("retried_units", 1)
	}
	pl.Close(context.Background())
}

func main() {
	r = rep.Start("C26", "exploration", "generated units of work handed over 1..6 times in a row to senders that succeed or fail with every kind of error and response list under every kind of context, and sent again through a pool over failing networks until they succeed. Each hand-over: the sender is called once, with the caller's context and the unit's bytes, the same each time; its responses and error come back. Afterwards more can be appended, and Reset starts over. Non-trivial: distinct units (with their failures).")
	r.Each("hand_over", r.N(6000, 300000), handOver)
	r.Each("life", r.N(6, 60), func(i int, rng *rand.Rand) { // one unit of work, again and again
		x, p := build(rng, false)
		var first []byte
		for n := 0; n < r.N(4000, 30000); n++ {
			s := &sender{resp: someResp(rng)}
			if rng.Intn(2) == 0 {
				s.err = someErr(rng)
			}
			resp, err := x.Send(context.Background(), s)
			if first == nil {
				first = s.b
			}
			if s.calls != 1 || !bytes.Equal(first, s.b) || len(resp) != len(s.resp) || (err == nil) != (s.err == nil) || err != nil && !errors.Is(err, s.err) {
				r.Violation("hand-over %d of %s: %d calls, %d bytes (at first %d), Send returned %d responses of %d and %v for %v", n, p, s.calls, len(s.b), len(first), len(resp), len(s.resp), err, s.err)
				return
			}
			r.Count("repeats", 1)
		}
	})
	r.Each("retry", r.N(3000, 150000), retry)
	r.Need("repeats", 5000)
	r.Need("retried_units", 1000)
	r.Finish()
}
