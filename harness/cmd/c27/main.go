package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"xv/fnet"
	"xv/rep"
	"xv/vtime"
	"xv/wire"
	"xv/xsrv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

var r *rep.Run
var pki *xsrv.PKI

// transports
const (
	tcp = iota
	tcpTLS
	unix
	nTransport
)

var tnames = []string{"tcp", "tcp+tls", "unix"}

// stages at which the server stops cooperating
const (
	atFirst    = iota // the very first message
	atHello           // after agreeing to TLS, before any handshake byte
	inHello           // in the middle of the handshake
	atStart           // authentication start
	atContinue        // authentication continue
	atRetry           // the PLAIN retry
	atWork            // a unit of work
	atWrite           // a unit of work it does not even read
	never             // cooperates all along
	nStage
)

var snames = []string{"first message", "TLS hello", "inside the TLS handshake", "authentication start", "authentication continue", "PLAIN retry", "unit of work", "unread unit of work", "never"}

// what it does instead
const (
	silent  = iota
	partial // part of the reply it owes
	trickle // notices, a few milliseconds apart, for ever
	flood   // notices as fast as it can, for ever
	giant   // a frame announced as 8 MB, its bytes trickling
	rows    // a result set without end
	nBehave
)

var bnames = []string{"silent", "partial reply", "notices every few ms", "flood of notices", "giant frame, byte by byte", "endless rows"}

type plan struct {
	transport, stage, behave int
	pause                    time.Duration // before every reply
	cut                      int
	acc                      xsrv.Account
	retry                    bool // deny the first attempt
	hold                     int  // stage before which it waits (0: none), plus one
	wait                     time.Duration
}

func (p *plan) String() string {
	return fmt.Sprintf("%s, server stops cooperating at: %s (%s, cut %d, pause %v, first attempt denied %v)", tnames[p.transport], snames[p.stage], bnames[p.behave], p.cut, p.pause, p.retry)
}

// limited forwards n written bytes, then blocks until quit.
type limited struct {
	net.Conn
	n    int
	quit chan struct{}
}

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		l.Conn.Write(b[:l.n])
		l.n = 0
		<-l.quit
		return 0, io.ErrClosedPipe
	}
	l.n -= len(b)
	return l.Conn.Write(b)
}

func frame(rd io.Reader) (typ byte, p []byte, err error) {
	var h [5]byte
	if _, err = io.ReadFull(rd, h[:]); err != nil {
		return
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16 | int(h[3])<<24
	if n < 1 || n > 1<<28 {
		return 0, nil, io.ErrUnexpectedEOF
	}
	p = make([]byte, n-1)
	_, err = io.ReadFull(rd, p)
	return h[4], p, err
}

// serve plays one connection until quit or until the client goes away.
func (p *plan) serve(c net.Conn, quit chan struct{}) {
	defer c.Close()
	go func() { <-quit; c.Close() }()
	var rw net.Conn = c
	stop := func(owed []byte) {
		rng := rand.New(rand.NewSource(int64(p.cut)))
		w := func(b []byte) bool {
			select {
			case <-quit:
				return false
			default:
			}
			_, err := rw.Write(b)
			return err == nil
		}
		switch p.behave {
		case partial:
			w(owed[:p.cut%len(owed)])
		case trickle:
			for w(fnet.Notice(rng, nil, []int{20, 6000, 20000}[p.cut%3])) {
				time.Sleep(time.Duration(1+p.cut/3%40) * time.Millisecond)
			}
		case flood:
			var b []byte
			for len(b) < 60000 {
				b = fnet.Notice(rng, b, 30)
			}
			for w(b) {
			}
		case giant:
			if !w([]byte{0, 0, 0x80, 0, 11, 8, 1}) {
				break
			}
			for w([]byte{1}) {
				time.Sleep(time.Duration(1+p.cut%9) * time.Millisecond)
			}
		case rows:
			b := wire.AppendFrame(nil, 13, wire.AppendBytes(nil, 1, make([]byte, []int{1, 5000, 60000, 1 << 20}[p.cut/2%4])))
			if p.cut%2 == 0 {
				b = bytes.Repeat(b, 1+60000/len(b))
			}
			for w(b) {
				time.Sleep(time.Duration(1+p.cut%40) * time.Millisecond)
			}
		}
		<-quit
	}
	attempts, work := 0, 0
	for k := 0; ; k++ {
		typ, pl, err := frame(rw)
		if err != nil {
			return
		}
		var reply []byte
		switch typ {
		case 2:
			reply = xsrv.OK()
		case 4:
			m := xsrv.Msg{Type: 4, Payload: pl}
			mech, _, _ := m.Start()
			attempts++
			switch {
			case p.retry && attempts == 1 && p.cut%2 == 0:
				reply = xsrv.Err(0, 1045, "no")
			case mech == "PLAIN":
				reply = xsrv.AuthOK()
			default:
				reply = xsrv.Continue([]byte("01234567890123456789"))
			}
		case 5:
			reply = xsrv.AuthOK()
			if p.retry && attempts == 1 {
				reply = xsrv.Err(0, 1045, "no")
			}
		default:
			work++
			reply = xsrv.Work(xsrv.Msg{Type: typ}).Reply
		}
		time.Sleep(p.pause)
		at := -1
		switch {
		case k == 0:
			at = atFirst
		case attempts == 2 && typ == 4:
			at = atRetry
		case typ == 4:
			at = atStart
		case typ == 5:
			at = atContinue
		case work == 1:
			at = atWork
		}
		if p.hold > 0 && (at == p.hold-1 || k == 0 && p.hold-1 == atFirst || typ == 4 && attempts == 1 && p.hold-1 == atStart) {
			select {
			case <-time.After(p.wait):
			case <-quit:
			}
		}
		if at == p.stage || p.stage == atStart && attempts == 1 && typ == 4 {
			stop(reply)
			return
		}
		if len(reply) > 1 && p.pause > 0 { // in two pieces
			rw.Write(reply[:1])
			time.Sleep(p.pause)
			reply = reply[1:]
		}
		if _, err := rw.Write(reply); err != nil {
			return
		}
		if typ == 2 {
			if p.stage == atHello {
				stop(reply)
				return
			}
			var under net.Conn = c
			if p.stage == inHello {
				under = &limited{c, p.cut % 300, quit}
			}
			if p.hold-1 == atHello {
				select {
				case <-time.After(p.wait):
				case <-quit:
				}
			}
			tc := tls.Server(under, &tls.Config{Certificates: []tls.Certificate{pki.Good}})
			if err := tc.Handshake(); err != nil {
				<-quit
				return
			}
			rw = tc
		}
		if p.stage == atWrite && (typ == 5 || typ == 4 && attempts == 2) && reply[len(reply)-1] == 4 {
			<-quit // authenticated; read no more
			return
		}
	}
}

var socks struct {
	sync.Mutex
	n int
}

// start returns a connector to a server playing p and a function ending it.
func start(p *plan, rng *rand.Rand) (*connector.Connector, func(), bool) {
	network, address := "tcp", "127.0.0.1:0"
	switch rng.Intn(6) {
	case 0, 1:
		network = "tcp4"
	case 2, 3:
		if l, err := net.Listen("tcp6", "[::1]:0"); err == nil { // where there is IPv6
			l.Close()
			network, address = []string{"tcp", "tcp6"}[rng.Intn(2)], "[::1]:0"
		}
	}
	if p.transport == unix {
		socks.Lock()
		socks.n++
		network, address = "unix", filepath.Join(os.Getenv("XV_WORK"), fmt.Sprintf("c27-%d.s", socks.n))
		socks.Unlock()
	}
	l, err := net.Listen(network, address)
	if err != nil {
		r.Harness("listen: %v", err)
		return nil, nil, false
	}
	r.Count("network_"+network, 1)
	cn, end := serveOn(l, network, p, rng)
	return cn, end, cn != nil
}

// serveOn plays p on l; the connector is nil if there is none.
func serveOn(l net.Listener, network string, p *plan, rng *rand.Rand) (*connector.Connector, func()) {
	quit := make(chan struct{})
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go p.serve(c, quit)
		}
	}()
	end := func() { l.Close(); close(quit) }
	opts := []connector.Option{connector.WithUserPassword(p.acc.User, p.acc.PW), connector.WithDatabase(p.acc.DB)}
	if rng.Intn(2) == 0 {
		_, m := xsrv.Mech(rng.Intn(2))
		opts = append(opts, connector.WithAuthentication(m))
	}
	if p.transport == tcpTLS {
		tc := &tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}
		if rng.Intn(3) == 0 {
			tc.MaxVersion = tls.VersionTLS12
		}
		opts = append(opts, connector.WithTLSConfig(tc))
	}
	cn, err := connector.New(network, l.Addr().String(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		end()
		return nil, nil
	}
	return cn, end
}

// deaf is a listener whose queue is full until it is opened: connecting to it
// takes until then.
type deaf struct {
	fd    int
	addr  *net.TCPAddr
	fill  []net.Conn
	first chan struct{}
	once  sync.Once
	l     net.Listener
}

func (d *deaf) Accept() (net.Conn, error) {
	<-d.first
	if d.l == nil {
		return nil, net.ErrClosed
	}
	return d.l.Accept()
}

func (d *deaf) Addr() net.Addr { return d.addr }

func (d *deaf) open() {
	d.once.Do(func() {
		f := os.NewFile(uintptr(d.fd), "deaf")
		if l, err := net.FileListener(f); err == nil {
			d.l = l
		}
		f.Close()
		close(d.first)
	})
}

func (d *deaf) Close() error {
	d.open()
	for _, c := range d.fill {
		c.Close()
	}
	if d.l != nil {
		return d.l.Close()
	}
	return nil
}

// newDeaf returns nil where a full queue does not keep connecting from succeeding.
func newDeaf() *deaf {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil
	}
	d := &deaf{fd: fd, first: make(chan struct{})}
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		syscall.Close(fd)
		return nil
	}
	sa, err := syscall.Getsockname(fd)
	in, ok := sa.(*syscall.SockaddrInet4)
	if err != nil || !ok {
		syscall.Close(fd)
		return nil
	}
	d.addr = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: in.Port}
	for k := 0; k < 8; k++ {
		c, err := net.DialTimeout("tcp", d.addr.String(), 200*time.Millisecond)
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return d
		}
		if err != nil {
			break
		}
		d.fill = append(d.fill, c)
	}
	d.Close()
	return nil
}

// unreached: the server does not even take the connection.
func unreached(i int, rng *rand.Rand) {
	d := newDeaf()
	if d == nil {
		r.Count("no_deaf_listener", 1)
		return
	}
	p := &plan{transport: i % 2, stage: never, acc: xsrv.NewAccount(rng), cut: rng.Intn(100)}
	cn, end := serveOn(d, []string{"tcp", "tcp4"}[rng.Intn(2)], p, rng)
	if cn == nil {
		return
	}
	defer end()
	viaPool := rng.Intn(2) == 0
	dl := deadline(rng)
	what := func() string {
		return fmt.Sprintf("%v; the server does not take connections; context deadline %v, through a pool %v", p, dl, viaPool)
	}
	ctx, cancel := context.WithTimeout(context.Background(), dl)
	defer cancel()
	var err error
	r.Watch(dl+grace, what, func() {
		if viaPool {
			_, err = unit(10).Send(ctx, fifoch.New(cn, 1))
			return
		}
		var c netx.Conn
		if c, err = cn.New(ctx); err == nil {
			c.Close()
		}
	})
	if err == nil {
		r.Violation("%s: success reported", what())
		return
	}
	r.Count("unreached", 1)
	r.Eval(fmt.Sprintf("unreached/%d/%v/%v", p.transport, viaPool, dl))
}

// reached: the server takes the connection after a long time.
func reached(i int, rng *rand.Rand) {
	d := newDeaf()
	if d == nil {
		r.Count("no_deaf_listener", 1)
		return
	}
	p := &plan{transport: i % 2, stage: never, acc: xsrv.NewAccount(rng), cut: rng.Intn(100)}
	cn, end := serveOn(d, "tcp", p, rng)
	if cn == nil {
		return
	}
	defer end()
	ctx, cancel := context.Background(), func() {}
	far := i/2%2 == 1
	if far {
		ctx, cancel = context.WithTimeout(ctx, 5*time.Hour)
	}
	defer func() { cancel() }()
	what := fmt.Sprintf("%v, the server takes connections after 33 s, deadline in five hours: %v", p, far)
	probe := make(chan error, 1)
	go func() { // what the system makes of it
		c, err := net.Dial("tcp", d.addr.String())
		if err == nil {
			c.Close()
		}
		probe <- err
	}()
	time.AfterFunc(33*time.Second, d.open)
	t0 := time.Now()
	c, err := cn.New(ctx)
	if err == nil {
		_, err = unit(10).Send(ctx, c)
		c.Close()
	}
	took := time.Since(t0)
	if perr := <-probe; perr != nil {
		r.Count("system_gave_up", 1)
		return
	}
	if err != nil {
		r.Violation("%s: failed after %v: %v", what, took, err)
		return
	}
	r.Count("reached_late", 1)
	r.Eval(fmt.Sprintf("reached/%d/%v", p.transport, far))
}

func unit(size int) *xtorm.XPipe {
	x := xtorm.New(64)
	x.StmtExecute("SELECT 1", make([]byte, size))
	return x
}

func deadline(rng *rand.Rand) time.Duration {
	return time.Duration(40+rng.Intn(160)) * time.Millisecond
}

const grace = 60 * time.Second // beyond the deadline: orders of magnitude above what a return takes

func stalls(i int, rng *rand.Rand) {
	p := &plan{transport: i % nTransport, stage: i / nTransport % never, behave: i / (nTransport * never) % nBehave, cut: rng.Intn(1000), acc: xsrv.NewAccount(rng)}
	p.retry = p.stage == atRetry
	switch p.stage {
	case atHello, inHello:
		if p.transport != tcpTLS {
			return
		}
	case atRetry:
		if p.transport == tcp {
			return
		}
	}
	if p.behave == rows && p.stage != atWork {
		p.stage = atWork
	}
	cn, end, ok := start(p, rng)
	if !ok {
		return
	}
	defer end()
	viaPool := rng.Intn(3) == 0
	d := deadline(rng)
	what := func() string { return fmt.Sprintf("%v; context deadline %v, through a pool %v", p, d, viaPool) }
	var took time.Duration
	timed := func(f func(ctx context.Context)) {
		ctx, cancel := context.WithTimeout(context.Background(), d)
		defer cancel()
		if rng.Intn(8) == 0 { // nested: the inner, later one does not matter
			var c2 func()
			ctx, c2 = context.WithTimeout(ctx, time.Hour)
			defer c2()
		}
		t0 := time.Now()
		r.Watch(d+grace, what, func() { f(ctx) })
		took = time.Since(t0)
	}
	size := rng.Intn(2000)
	if p.stage == atWrite {
		size = 24 << 20
	}
	var err error
	switch {
	case p.stage < atWork && viaPool:
		pl := fifoch.New(cn, 1)
		timed(func(ctx context.Context) { _, err = unit(size).Send(ctx, pl) })
	case p.stage < atWork:
		var c netx.Conn
		timed(func(ctx context.Context) { c, err = cn.New(ctx) })
		if err == nil {
			if c != nil {
				c.Close()
			}
			r.Violation("%s: New succeeded", what())
			return
		}
	default:
		c, cerr := cn.New(context.Background())
		if cerr != nil {
			r.Violation("%s: the server cooperates until authenticated, New returned %v", what(), cerr)
			return
		}
		defer c.Close()
		if viaPool {
			pl := fifoch.New(fixed{c}, 1)
			timed(func(ctx context.Context) { _, err = unit(size).Send(ctx, pl) })
		} else {
			timed(func(ctx context.Context) { _, err = unit(size).Send(ctx, c) })
		}
	}
	if err == nil {
		r.Violation("%s: success reported", what())
		return
	}
	r.Count("stalls_ended", 1)
	r.Count("stage_"+snames[p.stage], 1)
	r.Count("behaviour_"+bnames[p.behave], 1)
	if took > d+2*time.Second {
		r.Count("returned_2s_late", 1)
	}
	r.Eval(fmt.Sprintf("%d/%d/%d/%d/%v", p.transport, p.stage, p.behave, p.cut, viaPool))
	if i%50 == 3 {
		r.Sample("%s: returned %v after %v", what(), err, took.Round(time.Millisecond))
	}
}

type fixed struct{ c netx.Conn }

func (f fixed) New(context.Context) (netx.Conn, error) { return f.c, nil }

// patient: a slow but cooperating server, a deadline far away or none.
func patient(i int, rng *rand.Rand) {
	p := &plan{transport: i % nTransport, stage: never, pause: time.Duration(rng.Intn(40)) * time.Millisecond, acc: xsrv.NewAccount(rng), cut: rng.Intn(100)}
	p.retry = p.transport != tcp && rng.Intn(2) == 0
	cn, end, ok := start(p, rng)
	if !ok {
		return
	}
	defer end()
	ctx, cancel := context.Background(), func() {}
	far := rng.Intn(2) == 0
	if far {
		ctx, cancel = context.WithTimeout(ctx, time.Hour)
	}
	defer func() { cancel() }()
	what := fmt.Sprintf("%v, deadline in an hour: %v", p, far)
	c, err := cn.New(ctx)
	if err != nil {
		r.Violation("%s: New returned %v", what, err)
		return
	}
	defer c.Close()
	for k := 0; k < 3; k++ {
		if _, err := unit(rng.Intn(20000)).Send(ctx, c); err != nil {
			r.Violation("%s: send %d returned %v", what, k, err)
			return
		}
	}
	r.Count("patient", 1)
	r.Eval(fmt.Sprintf("patient/%d/%v/%v/%v", p.transport, p.pause, p.retry, far))
}

// waiting: a server that takes very long for one answer, and a caller who has
// set no deadline, or one far away: no other time limit applies.
func waiting(i int, rng *rand.Rand) {
	p := &plan{transport: i % nTransport, stage: never, acc: xsrv.NewAccount(rng), cut: rng.Intn(100)}
	stages := []int{atFirst, atStart, atContinue, atWork, atHello, atRetry}
	if p.transport == tcp {
		stages = stages[:4]
	} else if p.transport == unix {
		stages = []int{atFirst, atStart, atContinue, atWork, atRetry}
	}
	st := stages[i/nTransport%len(stages)]
	p.hold, p.wait = st+1, waitFor
	p.retry = st == atRetry
	cn, end, ok := start(p, rng)
	if !ok {
		return
	}
	defer end()
	ctx, cancel := context.Background(), func() {}
	far := i/(6*nTransport)%2 == 1
	if far {
		ctx, cancel = context.WithTimeout(ctx, 5*time.Hour)
	}
	defer func() { cancel() }()
	viaPool := i%2 == 0
	what := fmt.Sprintf("%v, waiting %v at: %s, deadline in five hours: %v, through a pool: %v", p, p.wait, snames[st], far, viaPool)
	var to netx.Sender
	if viaPool {
		pl := fifoch.New(cn, 2)
		defer pl.Close(context.Background())
		to = pl
	} else {
		c, err := cn.New(ctx)
		if err != nil {
			r.Violation("%s: New returned %v", what, err)
			return
		}
		defer c.Close()
		to = c
	}
	if _, err := unit(rng.Intn(2000)).Send(ctx, to); err != nil {
		r.Violation("%s: Send returned %v", what, err)
		return
	}
	r.Count("waited", 1)
	r.Eval(fmt.Sprintf("waiting/%d/%d/%v/%v", p.transport, st, far, viaPool))
}

const waitFor = 65 * time.Second

// afterwards: a deadline that passed after its call had returned does not
// concern later calls.
func afterwards(i int, rng *rand.Rand) {
	p := &plan{transport: i % nTransport, stage: never, acc: xsrv.NewAccount(rng), cut: rng.Intn(100)}
	p.retry = p.transport != tcp && rng.Intn(3) == 0
	cn, end, ok := start(p, rng)
	if !ok {
		return
	}
	defer end()
	viaPool := rng.Intn(2) == 0
	what := fmt.Sprintf("%v, through a pool %v", p, viaPool)
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Millisecond)
	defer cancel()
	var s netx.Sender
	if viaPool {
		pl := fifoch.New(cn, 2)
		defer pl.Close(context.Background())
		s = pl
		if _, err := unit(10).Send(ctx, s); err != nil {
			r.Count("slow_machine", 1)
			return
		}
	} else {
		c, err := cn.New(ctx)
		if err != nil {
			r.Count("slow_machine", 1)
			return
		}
		defer c.Close()
		s = c
		if rng.Intn(2) == 0 {
			if _, err := unit(10).Send(ctx, s); err != nil {
				r.Count("slow_machine", 1)
				return
			}
		}
	}
	<-ctx.Done()
	time.Sleep(20 * time.Millisecond)
	for k := 0; k < 3; k++ {
		c2, f2 := context.Background(), func() {}
		if rng.Intn(2) == 0 {
			c2, f2 = context.WithTimeout(c2, time.Hour)
		}
		_, err := unit(rng.Intn(5000)).Send(c2, s)
		f2()
		if err != nil {
			r.Violation("%s: connected under a deadline that has passed since; send %d under another context returned %v", what, k, err)
			return
		}
	}
	r.Count("afterwards", 1)
	r.Eval(fmt.Sprintf("after/%d/%v/%v", p.transport, p.retry, viaPool))
}

// expired: a deadline that has already passed.
func expired(i int, rng *rand.Rand) {
	p := &plan{transport: i % nTransport, stage: rng.Intn(nStage), behave: silent, acc: xsrv.NewAccount(rng)}
	cn, end, ok := start(p, rng)
	if !ok {
		return
	}
	defer end()
	ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(-time.Duration(rng.Intn(1000))*time.Millisecond))
	defer cancel()
	what := func() string { return fmt.Sprintf("%v, deadline already passed", p) }
	var err error
	r.Watch(grace, what, func() {
		if i%2 == 0 {
			var c netx.Conn
			if c, err = cn.New(ctx); err == nil {
				c.Close()
			}
		} else {
			_, err = unit(10).Send(ctx, fifoch.New(cn, 1))
		}
	})
	if err == nil {
		r.Violation("%s: success reported", what())
		return
	}
	r.Count("expired", 1)
	r.Eval(fmt.Sprintf("expired/%d/%d", p.transport, p.stage))
}

func main() {
	r = rep.Start("C27", "exploration", "real connectors, connections and pools against loopback servers (TCP, TCP+TLS, Unix) that stop cooperating at every stage of connecting and sending (silence, partial replies, notices or rows without end, a giant frame trickling in, not reading, not even taking the connection), under a context deadline: the call must return an error; slow but cooperating servers under far or no deadlines must be waited for; a deadline that passed after its call returned must not disturb later calls. Non-trivial: distinct (transport, stage, behaviour, cut, layer).")
	var err error
	if pki, err = xsrv.NewPKI(); err != nil {
		r.Harness("pki: %v", err)
		r.Finish()
	}
	waited := make(chan struct{})
	go func() { r.EachW("waiting", r.N(36, 144), 144, waiting); close(waited) }()
	reachedAll := make(chan struct{})
	go func() { r.EachW("reached", 4, 4, reached); close(reachedAll) }()
	r.EachW("stalls", r.N(4*nTransport*never*nBehave, 100*nTransport*never*nBehave), 24, stalls)
	r.EachW("patient", r.N(90, 3000), 24, patient)
	r.EachW("afterwards", r.N(90, 3000), 24, afterwards)
	vtime.Each(r, "virtual", r.N(20000, 1000000), virtual, func(i int) {
		r.Violation("virtual clock, case %d: the call never returns although the server did all it was to do or the deadline has passed", i)
	})
	r.EachW("expired", r.N(60, 600), 8, expired)
	r.EachW("unreached", r.N(64, 1000), 32, unreached)
	<-waited
	<-reachedAll
	r.Need("waited", 30)
	r.Need("stalls_ended", 200)
	r.Need("patient", 50)
	r.Need("expired", 20)
	r.Need("virtual_deadlines_met", 1000)
	r.Need("virtual_waited_for", 1000)
	r.Finish()
}
