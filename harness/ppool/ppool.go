// Package ppool drives the real connection pool with fake connections under a
// gate-based scheduler: every call into the connector or a connection stops at
// a gate, the scheduler picks what happens next, and a reference model of the
// pool's contract judges each observed step. A second, ungated mode runs free
// concurrency and checks the recorded history.
package ppool

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"xv/rep"
	"xv/vtime"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

// Property classes of a violation.
const (
	C17 = "C17"
	C18 = "C18"
	C19 = "C19"
)

type opKey struct{}

const (
	evNew   = "opening a connection"
	evSend  = "sending on a connection"
	evClose = "closing a connection"
	evDone  = "returned"
)

type event struct {
	kind string
	conn *fconn
	buf  []byte
}

type release struct {
	err  error
	resp []netx.Response
	conn *fconn
}

type op struct {
	id      int
	close   bool
	ctx     context.Context
	cancel  func()
	dead    bool // context cancelled
	ev      chan event
	go_     chan release
	at      event // gate it stands at
	conn    *fconn
	buf     []byte
	sends   int
	resp    []netx.Response
	err     error
	pan     string
	want    release // what its connection answered
	started string  // pool state when started
	room    bool    // there was room for its connection when it was answered
	state   string  // pool state when it was answered
	done    bool

	closeFailed bool // the Close of some connection it closed failed
}

// passed tells how the context a connector or connection got differs from the caller's.
func (o *op) passed(ctx context.Context) string {
	d0, ok0 := o.ctx.Deadline()
	d1, ok1 := ctx.Deadline()
	switch {
	case ok0 && !ok1:
		return "without the caller's deadline"
	case ok1 && !ok0:
		return fmt.Sprintf("with a deadline (in %v), the caller set none", time.Until(d1))
	case ok0 && !d0.Equal(d1):
		return fmt.Sprintf("with a deadline in %v, the caller's is in %v", time.Until(d1), time.Until(d0))
	case o.ctx.Err() == nil && ctx.Err() != nil:
		return "already done, unlike the caller's"
	}
	return ""
}

type fconn struct {
	id       int
	badClose bool // its Close reports an error
	s        *sched
	owner    *op
	inUse    int
	closed   bool
	spoilt   bool
	uses     int
}

type sched struct {
	virtual bool
	rng     *rand.Rand
	run     *rep.Run
	only    string
	p       pool.Pool
	size    int
	mu      sync.Mutex
	conns   []*fconn
	idle    []*fconn // model: idle connections, oldest first
	ops     []*op    // not finished
	nops    int
	close   *op    // running Close
	state   string // "open", "closing", "limbo" (a Close failed), "closed"
	trace   strings.Builder
	bad     bool
	gateC   bool // closing a connection stops at a gate too
	fly     bool // no gates at all: finishing
}

func (s *sched) logf(f string, a ...interface{}) { fmt.Fprintf(&s.trace, f+"\n", a...) }

func (s *sched) violate(class, f string, a ...interface{}) {
	s.bad = true
	if !strings.Contains(class, s.only) { // a finding may break several properties
		s.run.Count("stopped_by_other_property", 1)
		return
	}
	t := s.trace.String()
	if len(t) > 4500 {
		t = "..." + t[len(t)-4500:]
	}
	s.run.Violation("%s\npool of size %d; history:\n%s", fmt.Sprintf(f, a...), s.size, t)
}

// ---- fakes ----

func (s *sched) New(ctx context.Context) (netx.Conn, error) {
	o, _ := ctx.Value(opKey{}).(*op)
	if o == nil {
		s.mu.Lock()
		s.violate(C17, "a connection was opened with a context that is not the caller's")
		s.mu.Unlock()
		return nil, errors.New("no op")
	}
	if d := o.passed(ctx); d != "" {
		s.mu.Lock()
		s.violate(C17, "send %d opens its connection under a context %s", o.id, d)
		s.mu.Unlock()
	}
	o.ev <- event{kind: evNew}
	g := <-o.go_
	if g.err != nil {
		return nil, g.err
	}
	return g.conn, nil
}

func (c *fconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	o, _ := ctx.Value(opKey{}).(*op)
	if o == nil {
		return nil, errors.New("no op")
	}
	c.s.mu.Lock()
	c.inUse++
	c.uses++
	if c.inUse > 1 {
		c.s.violate(C17, "connection %d is used by two sends at once", c.id)
	}
	if d := o.passed(ctx); d != "" {
		c.s.violate(C17, "send %d uses connection %d under a context %s", o.id, c.id, d)
	}
	if c.closed {
		c.s.violate(C18, "connection %d is used after it was closed", c.id)
	}
	c.s.mu.Unlock()
	o.ev <- event{evSend, c, append([]byte(nil), b...)}
	g := <-o.go_
	c.s.mu.Lock()
	c.inUse--
	c.s.mu.Unlock()
	return g.resp, g.err
}

func (c *fconn) Close() error {
	c.s.mu.Lock()
	if c.inUse > 0 {
		c.s.violate(C17+C19, "connection %d is closed while a send is using it", c.id)
	}
	c.closed = true
	o := c.owner
	if o == nil {
		o = c.s.close
	}
	gate := c.s.gateC && !c.s.fly
	c.s.mu.Unlock()
	if gate && o != nil {
		o.ev <- event{kind: evClose, conn: c}
		<-o.go_
	}
	if c.badClose {
		if o != nil {
			c.s.mu.Lock()
			o.closeFailed = true
			c.s.mu.Unlock()
		}
		return fmt.Errorf("closing connection %d: %w", c.id, net.ErrClosed)
	}
	return nil
}

func (c *fconn) IsSecure() bool { return false }

// ---- scheduler ----

func (s *sched) wait(o *op, why string) event {
	select {
	case e := <-o.ev:
		return e
	case <-time.After(60 * time.Second):
	}
	class := C17
	if o.close || s.state != "open" {
		class = C19
	} else if s.only == C18 {
		class = C18 // an opening or a use under way holds up other callers
	}
	// A pool that stands still again and again cannot be observed any further:
	// no property of it can be relied on.
	if atomic.AddInt64(&stalls, 1) >= 4 {
		class = s.only
	}
	s.violate(class, "op %d does not proceed: %s", o.id, why)
	return event{kind: "hung"}
}

var stalls int64

func (s *sched) isClosed(c *fconn) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return c.closed
}

func (s *sched) idleLive() []*fconn {
	var l []*fconn
	for _, c := range s.idle {
		if !s.isClosed(c) {
			l = append(l, c)
		}
	}
	s.idle = l
	return l
}

// quiet checks the conservation invariant at a quiet moment.
func (s *sched) quiet() {
	if s.bad {
		return
	}
	live := s.idleLive()
	if s.state != "closing" && len(live) > s.size {
		s.violate(C18, "%d connections idle in a pool of size %d", len(live), s.size)
	}
}

func (s *sched) startSend(dead bool) {
	s.nops++
	o := &op{id: s.nops, ev: make(chan event), go_: make(chan release), started: s.state}
	ctx := context.WithValue(context.Background(), opKey{}, o)
	switch {
	case dead:
		o.ctx, o.cancel = context.WithCancel(ctx)
		o.cancel()
		o.dead = true
	case s.rng.Intn(3) == 0:
		o.ctx, o.cancel = ctx, func() {}
	default:
		d := time.Hour
		if s.virtual {
			d = 200 * 8760 * time.Hour
		}
		o.ctx, o.cancel = context.WithTimeout(ctx, d)
	}
	o.buf = []byte(fmt.Sprintf("unit of work %d", o.id))
	switch s.rng.Intn(60) {
	case 0:
		o.buf = []byte{}
	case 1:
		o.buf = bytes.Repeat(o.buf, 1+s.rng.Intn(5000))
	}
	s.logf("send %d starts (context dead %v, pool %s, idle %v)", o.id, dead, s.state, ids(s.idleLive()))
	s.ops = append(s.ops, o)
	s.run.Count("sends", 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				o.pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			o.ev <- event{kind: evDone}
		}()
		o.resp, o.err = s.p.Send(o.ctx, o.buf)
	}()
	e := s.wait(o, "Send neither returned nor reached the connector or a connection")
	s.arrive(o, e, true)
}

func ids(l []*fconn) []int {
	r := make([]int, len(l))
	for i, c := range l {
		r[i] = c.id
	}
	return r
}

// arrive judges where a send got to after starting (first) or after its
// connection was opened.
func (s *sched) arrive(o *op, e event, first bool) {
	if s.bad {
		return
	}
	o.at = e
	idle := s.idleLive()
	switch e.kind {
	case evDone:
		if first {
			s.finishOp(o)
			if s.bad {
				return
			}
			switch {
			case o.pan != "":
			case s.state == "closed":
				if !errors.Is(o.err, pool.ErrPoolClosed) && !(o.dead && errors.Is(o.err, context.Canceled)) {
					s.violate(C19, "send %d after Close returned %v, %v, want ErrPoolClosed", o.id, o.resp, o.err)
				}
				s.run.Count("sends_after_close", 1)
			case o.err == nil:
				class := C17
				if o.dead {
					class += C18
				}
				s.violate(class, "send %d returned %v without error although its bytes were never sent", o.id, o.resp)
			case s.state != "open":
			case o.dead:
				if !errors.Is(o.err, context.Canceled) {
					s.violate(C18, "send %d under a cancelled context returned %v", o.id, o.err)
				}
				s.run.Count("cancelled_reported", 1)
			default:
				s.violate(C17+C18, "send %d returned %v, %v without using a connection", o.id, o.resp, o.err)
			}
			return
		}
	case evNew:
		s.logf("  send %d is opening a connection", o.id)
		if !first {
			s.violate(C17, "send %d opens a second connection", o.id)
			return
		}
		if s.state == "closed" {
			s.violate(C19, "send %d, started after Close had returned, opens a connection", o.id)
			return
		}
		if len(idle) > 0 && s.state == "open" && !o.dead {
			s.violate(C17, "send %d opens a connection although %v are idle", o.id, ids(idle))
			return
		}
		return
	case evSend:
		c := e.conn
		s.logf("  send %d uses connection %d", o.id, c.id)
		o.sends++
		if string(e.buf) != string(o.buf) {
			s.violate(C17, "send %d transmitted %q, its bytes are %q", o.id, e.buf, o.buf)
			return
		}
		if o.sends > 1 {
			s.violate(C17, "send %d transmitted its bytes %d times", o.id, o.sends)
			return
		}
		if c.spoilt {
			s.violate(C18, "send %d uses connection %d, which was spoiled by an earlier send", o.id, c.id)
			return
		}
		if !first {
			if c != o.conn {
				s.violate(C17, "send %d opened connection %d and then used %d", o.id, o.conn.id, c.id)
			}
			return
		}
		if s.state == "closed" {
			s.violate(C19, "send %d, started after Close had returned, uses connection %d", o.id, c.id)
			return
		}
		if len(idle) == 0 || idle[0] != c {
			for _, x := range idle {
				if x == c {
					s.violate(C17, "send %d uses connection %d, but %d has been idle longer (idle %v)", o.id, c.id, idle[0].id, ids(idle))
					return
				}
			}
			s.violate(C17+C18, "send %d uses connection %d, which is not idle (idle %v)", o.id, c.id, ids(idle))
			return
		}
		s.idle = s.idle[1:]
		s.own(c, o)
		s.run.Count("idle_reused", 1)
		if len(idle) > 1 {
			s.run.Count("fifo_choices", 1)
		}
		return
	case evClose:
		s.logf("  send %d is closing connection %d", o.id, e.conn.id)
		return
	}
}

func (s *sched) own(c *fconn, o *op) {
	s.mu.Lock()
	c.owner = o
	s.mu.Unlock()
	o.conn = c
}

func (s *sched) finishOp(o *op) {
	o.done = true
	for i, x := range s.ops {
		if x == o {
			s.ops = append(append([]*op(nil), s.ops[:i]...), s.ops[i+1:]...)
		}
	}
	if o.conn != nil {
		s.mu.Lock()
		o.conn.owner = nil
		s.mu.Unlock()
	}
	o.cancel()
	s.logf("  op %d returned %d responses, error %v", o.id, len(o.resp), o.err)
	if o.pan != "" {
		class := C17
		if o.close || s.state != "open" || o.started != "open" {
			class = C19
		}
		s.violate(class, "op %d panicked: %s", o.id, o.pan)
	}
}

func (s *sched) step(o *op) {
	switch o.at.kind {
	case evNew:
		if s.rng.Intn(5) == 0 || o.dead {
			err := anError(s.rng.Uint64(), o.id)
			if o.dead && s.rng.Intn(2) == 0 {
				err = o.ctx.Err()
			}
			s.logf("opening the connection of send %d fails: %v", o.id, err)
			before := ids(s.idleLive())
			o.go_ <- release{err: err}
			e := s.wait(o, "its connection could not be opened")
			if s.bad {
				return
			}
			if e.kind != evDone {
				s.violate(C18, "send %d, whose connection could not be opened, goes on: %s", o.id, e.kind)
				return
			}
			s.finishOp(o)
			if s.bad {
				return
			}
			if !errors.Is(o.err, err) {
				s.violate(C18, "send %d got %v, opening its connection failed with %v", o.id, o.err, err)
			}
			if fmt.Sprint(before) != fmt.Sprint(ids(s.idleLive())) {
				s.violate(C18, "a failed attempt to open a connection closed idle ones: %v before, %v after", before, ids(s.idleLive()))
			}
			s.run.Count("open_failures", 1)
			return
		}
		s.mu.Lock()
		c := &fconn{id: len(s.conns) + 1, s: s, owner: o, badClose: s.rng.Intn(5) == 0}
		s.conns = append(s.conns, c)
		s.mu.Unlock()
		o.conn = c
		s.logf("connection %d opened for send %d", c.id, o.id)
		o.go_ <- release{conn: c}
		s.run.Count("connections", 1)
		e := s.wait(o, "its connection was opened")
		if e.kind == evDone && !s.bad {
			s.finishOp(o)
			if !s.bad {
				s.violate(C17+C18, "send %d returned %v, %v without using the connection opened for it", o.id, o.resp, o.err)
			}
			return
		}
		s.arrive(o, e, false)
	case evSend:
		c := o.at.conn
		var g release
		fail := s.rng.Intn(10)
		if s.size > 8 && s.rng.Intn(max(50, 4*s.size)) > 0 {
			fail = 9 // so that many are idle
		}
		n := s.rng.Intn(5)
		if s.rng.Intn(40) == 0 {
			n = []int{15, 16, 17, 64, 70, 130, 300, 1100}[s.rng.Intn(8)]
		}
		for i := 0; i < n; i++ {
			g.resp = append(g.resp, nil)
		}
		kind := "fine"
		switch {
		case fail == 0:
			g.err = anError(s.rng.Uint64(), o.id)
			if s.rng.Intn(3) == 0 {
				g.resp = nil
			}
			kind = "failed"
		case fail == 1:
			g.err = &connection.MySqlXError{Severity: 1, Code: 1053, Msg: fmt.Sprint(o.id)}
			g.resp = append(g.resp, g.err)
			kind = "fatal"
		case fail <= 3:
			at := s.rng.Intn(n + 1)
			g.resp = append(append(append([]netx.Response(nil), g.resp[:at]...), anErrorResponse(s.rng.Uint64(), o.id)), g.resp[at:]...)
			if s.rng.Intn(2) == 0 {
				g.resp = append(g.resp, &connection.MySqlXError{Code: 5159, SqlState: "HY000", Msg: "Expectation failed: no_error"})
			}
			kind = "error response"
		case fail == 4:
			g.err = context.DeadlineExceeded
			g.resp = append(g.resp, nil)
			kind = "timed out"
		}
		if g.resp != nil || g.err == nil {
			g.resp = append(g.resp, o.id) // a response only this send may get
		}
		s.logf("connection %d answers send %d: %s %v", c.id, o.id, kind, g.err)
		s.run.Count("answers_"+kind, 1)
		spoil := kind != "fine"
		if spoil {
			c.spoilt = true
		}
		o.want = g
		o.room, o.state = len(s.idleLive()) < s.size, s.state
		o.go_ <- g
		e := s.wait(o, "its connection answered")
		if s.bad {
			return
		}
		if e.kind == evClose {
			o.at = e
			return
		}
		s.sendReturned(o, e)
	case evClose:
		c := o.at.conn
		s.logf("connection %d is closed (for op %d)", c.id, o.id)
		o.go_ <- release{}
		e := s.wait(o, "its connection was closed")
		if s.bad {
			return
		}
		if o.close {
			s.closeGoes(o, e)
			return
		}
		if e.kind == evClose {
			o.at = e
			return
		}
		s.sendReturned(o, e)
	}
}

func sameResp(a, b []netx.Response) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sendReturned judges a send that had its answer.
func (s *sched) sendReturned(o *op, e event) {
	if e.kind == evSend {
		s.violate(C17, "send %d transmits its bytes again, on connection %d", o.id, e.conn.id)
		return
	}
	if e.kind != evDone {
		s.violate(C17, "send %d, already answered, is %s", o.id, e.kind)
		return
	}
	c := o.conn
	room := o.room
	s.finishOp(o)
	if s.bad {
		return
	}
	class := C17
	if s.state != "open" {
		class += C19
	}
	if o.want.err == nil && (o.err != nil || !sameResp(o.resp, o.want.resp)) {
		s.violate(class, "send %d returned %v, %v; its connection answered %v, %v", o.id, o.resp, o.err, o.want.resp, o.want.err)
		return
	}
	if o.want.err != nil && o.err != nil && !sameResp(o.resp, o.want.resp) {
		s.violate(class, "send %d returned %v with error %v; its connection answered %v before it failed", o.id, o.resp, o.err, o.want.resp)
		return
	}
	if o.want.err != nil && !errors.Is(o.err, o.want.err) {
		s.violate(class, "send %d returned error %v; its connection failed with %v", o.id, o.err, o.want.err)
		return
	}
	closed := s.isClosed(c)
	switch {
	case c.spoilt:
		if !closed {
			s.violate(C18, "connection %d was spoiled (%v, %v) and was not closed when send %d returned", c.id, o.want.resp, o.want.err, o.id)
		}
	case o.state == "closed":
		if !closed {
			s.violate(C19, "connection %d, in flight when the pool was closed, was not closed when send %d returned", c.id, o.id)
		}
		s.run.Count("in_flight_at_close", 1)
	case o.state == "open":
		if closed && room {
			s.violate(C17+C18, "connection %d is healthy and there is room (idle %v of %d), yet it was closed", c.id, ids(s.idleLive()), s.size)
			return
		}
		if !closed && !room {
			s.violate(C18, "connection %d is surplus (idle %v of %d) and was not closed", c.id, ids(s.idleLive()), s.size)
			return
		}
		if closed {
			s.run.Count("surplus_closed", 1)
		}
	}
	if !closed {
		s.idle = append(s.idle, c)
	}
}

func (s *sched) startClose(dead bool) {
	s.nops++
	o := &op{id: s.nops, close: true, ev: make(chan event), go_: make(chan release), started: s.state, cancel: func() {}}
	o.ctx = context.Background()
	if dead {
		o.ctx, o.cancel = context.WithCancel(o.ctx)
		o.cancel()
		o.dead = true
	}
	s.logf("Close %d starts (context dead %v, pool %s, idle %v, %d sends in flight)", o.id, dead, s.state, ids(s.idleLive()), len(s.ops))
	s.run.Count("closes", 1)
	s.run.Count("closes_with_in_flight", min(1, len(s.ops)))
	s.mu.Lock()
	s.close = o
	s.mu.Unlock()
	if s.state == "open" || s.state == "limbo" {
		s.state = "closing"
	}
	s.ops = append(s.ops, o)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				o.pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			o.ev <- event{kind: evDone}
		}()
		o.err = s.p.Close(o.ctx)
	}()
	s.closeGoes(o, s.wait(o, "Close has nothing to wait for"))
}

func (s *sched) closeGoes(o *op, e event) {
	if s.bad {
		return
	}
	o.at = e
	if e.kind == evClose {
		s.logf("  Close %d is closing connection %d", o.id, e.conn.id)
		if e.conn.owner != nil {
			s.violate(C17+C19, "Close closes connection %d, which send %d is using", e.conn.id, e.conn.owner.id)
		}
		return
	}
	s.mu.Lock()
	s.close = nil
	s.mu.Unlock()
	s.finishOp(o)
	if s.bad {
		return
	}
	switch {
	case o.err == nil || !o.dead && o.closeFailed:
		if l := s.idleLive(); len(l) > 0 {
			s.violate(C19, "Close returned (error %v, one of its connections failed to close: %v), connections %v are idle and not closed", o.err, o.closeFailed, ids(l))
			return
		}
		if o.closeFailed {
			s.run.Count("closes_with_failing_connections", 1)
		}
		s.state = "closed"
	case !o.dead:
		s.violate(C19, "Close returned %v", o.err)
	default:
		if s.state == "closing" && o.started != "closed" {
			s.state = "limbo"
		}
		if o.started == "closed" {
			s.state = "closed"
		}
	}
}

// Scenario runs one gated scenario.
func Scenario(run *rep.Run, only string, i int, rng *rand.Rand, closes bool) {
	scenario(run, only, i, rng, closes, nil)
}

// Virtual runs gated scenarios on a virtual clock, with pauses of up to a year
// between the steps.
func Virtual(run *rep.Run, only string, n int, closes func(i int) bool) {
	vtime.Each(run, "virtual", n, func(i int, rng *rand.Rand) {
		var slept time.Duration
		scenario(run, only, i%300, rng, closes(i), func() {
			if rng.Intn(2) == 0 {
				d := vtime.Span(rng)
				slept += d
				time.Sleep(d)
			}
		})
		run.Count("virtual_hours", int(slept/time.Hour))
	}, func(i int) {
		run.Violation("virtual case %d: the pool's callers and the scheduler wait for each other for ever", i)
	})
	run.Need("virtual_hours", int64(n))
}

func scenario(run *rep.Run, only string, i int, rng *rand.Rand, closes bool, between func()) {
	size := rng.Intn(5)
	maxOps := 1 + rng.Intn(7)
	steps := 10 + rng.Intn(60)
	start := 45
	switch i % 400 {
	case 3, 103, 203: // larger pools
		size = []int{9, 17, 33, 65, 130}[rng.Intn(5)]
		maxOps, steps, start = size+1+rng.Intn(6), 8*size, 55
	case 303: // a long life
		steps = 1500
	case 353: // a very large pool
		size = []int{260, 1030}[rng.Intn(2)]
		maxOps, steps, start = size+1+rng.Intn(6), 5*size, 75
	}
	s := &sched{rng: rng, run: run, only: only, size: size, state: "open", gateC: rng.Intn(2) == 0}
	s.p = fifoch.New(s, size)
	s.virtual = between != nil
	if between == nil {
		between = func() {}
	}
	for k := 0; k < steps && !s.bad; k++ {
		between()
		sends := 0
		for _, o := range s.ops {
			if !o.close {
				sends++
			}
		}
		x := rng.Intn(100)
		switch {
		case closes && x < 6 && s.close == nil:
			s.startClose(rng.Intn(4) == 0)
		case x < start && sends < maxOps:
			s.startSend(rng.Intn(12) == 0)
		case len(s.ops) > 0:
			s.step(s.ops[rng.Intn(len(s.ops))])
		}
		s.quiet()
	}
	// let everything finish
	for len(s.ops) > 0 && !s.bad {
		between()
		s.step(s.ops[rng.Intn(len(s.ops))])
		s.quiet()
	}
	if !s.bad {
		s.checkRest()
	}
	s.drain()
	run.Eval(s.trace.String())
	run.Count("scheduler_steps", steps)
	if i < 2 {
		run.Sample("%s", s.trace.String())
	}
}

// checkRest: at rest every connection is idle (as modelled) or closed, and one
// final Close closes the idle ones.
func (s *sched) checkRest() {
	live := map[*fconn]bool{}
	for _, c := range s.idleLive() {
		live[c] = true
	}
	for _, c := range s.conns {
		if !c.closed && !live[c] {
			s.violate(C18, "connection %d is neither idle nor closed", c.id)
			return
		}
	}
	was := s.state
	s.gateC = false
	s.startClose(false)
	if s.bad {
		return
	}
	for _, c := range s.conns {
		if !c.closed {
			class := C18
			if was != "open" {
				class = C19
			}
			s.violate(class, "connection %d is still open after the final Close", c.id)
			return
		}
	}
}

// drain lets leftover goroutines of an abandoned scenario run out.
func (s *sched) drain() {
	if !s.bad {
		return
	}
	s.mu.Lock()
	s.fly = true
	s.mu.Unlock()
	for _, o := range s.ops {
		o := o
		go func() {
			for {
				select {
				case e := <-o.ev:
					if e.kind == evDone {
						return
					}
				case o.go_ <- release{err: errors.New("abandoned")}:
				case <-time.After(5 * time.Second):
					return
				}
			}
		}()
	}
}
