package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"

	"xv/fnet"
	"xv/msim"
	"xv/rep"
	"xv/wire"
	"xv/xsrv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

var r *rep.Run
var pki *xsrv.PKI

// uow is one unit of work and what became of it.
type uow struct {
	id, n  int
	judged bool
	build  func(b *xtorm.Builder)
	desc   string
	resp   []netx.Response
	err    error
	clean  bool // no error of any kind reported
}

var levels = []xtorm.IsolationLevel{xtorm.IsolationLevelDefault, xtorm.IsolationLevelReadUncommitted, xtorm.IsolationLevelReadCommitted, xtorm.IsolationLevelRepeatableRead, xtorm.IsolationLevelSerializable, xtorm.IsolationLevelSnapshot}

// body adds n changes of unit u in random forms.
func body(b *xtorm.Builder, rng *rand.Rand, u, n int) {
	tab := fmt.Sprintf("u%d", u)
	for k := 0; k < n; {
		switch rng.Intn(9) {
		case 0, 1:
			b.StmtExecute("INSERT INTO "+tab+" VALUES (?, ?)", k, "x")
		case 2:
			m := 1 + rng.Intn(min(3, n-k))
			var rows [][]interface{}
			for j := 0; j < m; j++ {
				rows = append(rows, []interface{}{k + j, "a"})
			}
			b.Insert(tab, []string{"k", "v"}, rows)
			k += m
			continue
		case 3:
			id := b.InsertRow(tab, []string{"k", "v"}, []interface{}{k, "b"})
			if k+1 < n {
				b.InsertRow(tab, []string{"k", "ref"}, []interface{}{k + 1, id})
				k++
			}
		case 4:
			b.Update(tab, xtorm.Eq(xtorm.Column("id"), 3), map[string]interface{}{"k": k})
		case 5:
			b.Delete(tab, xtorm.Eq(xtorm.Column("k"), k))
		case 6:
			id := uint32(1 + rng.Intn(3))
			b.Prepare(id, "INSERT INTO "+tab+" VALUES (?)")
			b.Execute(id, k)
			if k+1 < n {
				b.Execute(id, uint64(k+1))
				k++
			}
			b.Deallocate(id)
		case 7:
			if rng.Intn(3) > 0 {
				b.StmtExecute("SELECT 1")
				continue
			}
			kk := k
			m := 1 + rng.Intn(n-k)
			b.ExpectFailOnError(xtorm.OpenContext(rng.Intn(2)), func(b *xtorm.Builder) error { bodyFrom(b, tab, kk, kk+m); return nil })
			k += m
			continue
		default:
			kk := k
			b.InsertF(tab, []string{"k"}, func(i *xtorm.Insert) error { i.RowV(kk); return nil })
		}
		k++
	}
}

func bodyFrom(b *xtorm.Builder, tab string, from, to int) {
	for k := from; k < to; k++ {
		b.StmtExecute("INSERT INTO "+tab+" VALUES (?)", k)
	}
}

func newUow(id int, rng *rand.Rand, plainOK bool) *uow {
	u := &uow{id: id, n: 1 + rng.Intn(5), judged: true}
	if plainOK && rng.Intn(5) == 0 {
		u.judged, u.n, u.desc = false, 1, "plain statement"
		u.build = func(b *xtorm.Builder) { b.StmtExecute(fmt.Sprintf("INSERT INTO u%d VALUES (?)", id), 0) }
		return u
	}
	l := rng.Intn(len(levels))
	c := rng.Intn(2)
	seed := rng.Int63()
	after := rng.Intn(5) == 0
	u.desc = fmt.Sprintf("%d changes, level %d", u.n, l)
	u.build = func(b *xtorm.Builder) {
		rg := rand.New(rand.NewSource(seed))
		b.ExpectFailOnError(xtorm.OpenContext(c), func(b *xtorm.Builder) error {
			b.Tx(levels[l], func(b *xtorm.Builder) error { body(b, rg, id, u.n); return nil })
			if after {
				b.StmtExecute("SELECT 2")
			}
			return nil
		})
	}
	return u
}

// send sends u and judges what can be judged at once.
func (u *uow) send(ctx context.Context, x *xtorm.XPipe, s netx.Sender, db *msim.DB) {
	x.Reset()
	u.build(&x.Builder)
	u.resp, u.err = x.Send(ctx, s)
	u.clean = u.err == nil
	for _, q := range u.resp {
		if _, ok := q.(error); ok {
			u.clean = false
		}
	}
	if u.clean {
		if have, dup := db.Count(u.id, u.n); have != u.n || dup {
			r.Violation("unit of work %d (%s): Send reported success (%d responses), but %d of %d changes are committed (duplicates %v)", u.id, u.desc, len(u.resp), have, u.n, dup)
		}
		r.Count("reported_success", 1)
	} else {
		r.Count("reported_error", 1)
	}
}

func final(us []*uow, db *msim.DB, what string) {
	problems, refused, stats := db.Snapshot()
	for _, p := range problems {
		r.Violation("%s: %s", what, p)
	}
	for _, u := range us {
		have, dup := db.Count(u.id, u.n)
		if dup {
			r.Violation("%s: unit of work %d (%s) took effect twice", what, u.id, u.desc)
		}
		if !u.judged {
			continue
		}
		r.Count("judged", 1)
		if have != 0 && have != u.n {
			r.Violation("%s: %d of %d changes of unit of work %d (%s) are visible; Send returned %v, %v", what, have, u.n, u.id, u.desc, u.resp, u.err)
		}
		if u.clean && have != u.n {
			r.Violation("%s: unit of work %d (%s) was reported successful, %d of %d changes are visible at the end", what, u.id, u.desc, have, u.n)
		}
		if refused[u.id] && have != 0 {
			r.Violation("%s: the commit of unit of work %d (%s) was answered with an error, yet %d of %d changes are visible", what, u.id, u.desc, have, u.n)
		}
		switch {
		case refused[u.id]:
			r.Count("commit_refused", 1)
		case have == 0:
			r.Count("no_effect", 1)
		case u.clean:
			r.Count("committed", 1)
		default:
			r.Count("committed_unknown_to_client", 1)
		}
	}
	for k, v := range stats {
		r.Count("server_"+k, v)
	}
}

// fakeConnector opens simulated sessions.
type fakeConnector struct {
	mu    sync.Mutex
	db    *msim.DB
	rng   *rand.Rand
	plan  func(rng *rand.Rand, fr []wire.Frame) msim.Plan
	fails bool
	n     int
}

func (f *fakeConnector) New(ctx context.Context) (netx.Conn, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.fails && f.rng.Intn(15) == 0 {
		return nil, errors.New("cannot connect")
	}
	rng := rand.New(rand.NewSource(f.rng.Int63()))
	c := &msim.Conn{S: &msim.Session{DB: f.db}, R: rng}
	c.Plan = func(fr []wire.Frame) msim.Plan { return f.plan(rng, fr) }
	return connection.New(c), nil
}

var lossErrs = []error{io.EOF, msim.ErrLost, fnet.ErrTimeout}

func randomPlan(rng *rand.Rand, n int) msim.Plan {
	p := msim.NoFault
	switch rng.Intn(10) {
	case 0, 1:
		p.Stmt = map[int]msim.Fault{rng.Intn(n): msim.Fault(1 + rng.Intn(4))}
	case 2:
		p.Stmt = map[int]msim.Fault{rng.Intn(n): msim.Fault(1 + rng.Intn(2)), rng.Intn(n): msim.Fault(1 + rng.Intn(4))}
	case 3, 4:
		p.Drop, p.Lost, p.Cut, p.Err, p.Late = rng.Intn(n+1), rng.Intn(3), rng.Intn(8), lossErrs[rng.Intn(3)], rng.Intn(3) == 0
		if rng.Intn(3) == 0 {
			p.Stmt = map[int]msim.Fault{rng.Intn(n): msim.Fail}
		}
		if p.Drop == n && p.Lost == 0 {
			p.Lost = 1
		}
	case 5:
		p.WFail = rng.Intn(n)
	}
	return p
}

func main() {
	r = rep.Start("C20", "fault_enumeration", "units of work (fail-on-error scope around a transaction with 1..5 identifiable changes in every builder form) through the real pool and connection onto a simulated server with MySQL's session rules; faults (statement error, deadlock, fatal error, failed commit, connection lost before/after any message with replies lost or cut, failing write) enumerated at every message position followed by further units of work on the same pool, and randomly in concurrent runs; also over real sockets through the real connector. The server's store decides: success implies all committed, refused commit implies none ever, otherwise all or nothing, no foreign commits, no duplicates. Non-trivial: distinct (fault plan, shape).")
	var err error
	if pki, err = xsrv.NewPKI(); err != nil {
		r.Harness("pki: %v", err)
		r.Finish()
	}

	// positions: every fault at every message, then two more units on the same pool
	shapes := r.N(60, 1500)
	r.Each("positions", shapes, func(i int, rng *rand.Rand) {
		seed := rng.Int63()
		probe := newUow(1, rand.New(rand.NewSource(seed)), false)
		x := xtorm.New(64)
		probe.build(&x.Builder)
		cap := &capture{}
		if _, err := x.Send(context.Background(), cap); err != nil {
			r.Violation("building a transaction failed: %v", err)
			return
		}
		fr, err := wire.Split(cap.b)
		if err != nil {
			r.Harness("split: %v", err)
			return
		}
		n := len(fr)
		size := i % 3
		for pos := 0; pos <= n; pos++ {
			for kind := 0; kind < 13; kind++ {
				p := msim.NoFault
				switch {
				case kind < 4:
					if pos == n {
						continue
					}
					p.Stmt = map[int]msim.Fault{pos: msim.Fault(kind + 1)}
				case kind == 4:
					if pos == n {
						continue
					}
					p.WFail = pos
				default:
					k := kind - 5
					p.Drop, p.Lost, p.Late, p.Err, p.Cut = pos, k%2, k/2%2 == 1, lossErrs[(pos+k)%3], (k/4)*(1+rng.Intn(7))
					if pos == n && p.Lost == 0 {
						p.Lost = 1
					}
				}
				db := msim.NewDB()
				first := true
				fc := &fakeConnector{db: db, rng: rng, plan: func(rg *rand.Rand, fr []wire.Frame) msim.Plan {
					if first {
						first = false
						return p
					}
					return msim.NoFault
				}}
				pl := fifoch.New(fc, size)
				us := []*uow{newUow(1, rand.New(rand.NewSource(seed)), false), newUow(2, rng, true), newUow(3, rng, false)}
				what := fmt.Sprintf("shape %d (%s), pool size %d, first unit hit by fault kind %d at message %d of %d (%+v)", i, us[0].desc, size, kind, pos, n, p)
				for _, u := range us {
					u := u
					r.Guard(func() string { return what }, func() {
						r.Watch(60*time.Second, func() string { return what }, func() { u.send(context.Background(), x, pl, db) })
					})
				}
				for _, u := range us[1:] {
					if !u.clean { // allowed here (C18 judges it), but counted
						r.Count("unfaulted_unit_failed", 1)
					}
				}
				pl.Close(context.Background())
				final(us, db, what)
				r.Eval(what)
				r.Count("fault_positions", 1)
				if r.Violations() > 5 {
					return
				}
			}
		}
		if i < 3 {
			r.Sample("shape %d: %d messages, every position x 13 faults: %s", i, n, probe.desc)
		}
	})

	// concurrent histories
	r.EachW("concurrent", r.N(3000, 120000), 6, func(i int, rng *rand.Rand) {
		db := msim.NewDB()
		fc := &fakeConnector{db: db, rng: rng, fails: true, plan: func(rg *rand.Rand, fr []wire.Frame) msim.Plan { return randomPlan(rg, len(fr)) }}
		size := rng.Intn(4)
		pl := fifoch.New(fc, size)
		what := fmt.Sprintf("concurrent %d, pool size %d", i, size)
		us := history(i, rng, pl, db, what)
		final(us, db, what)
		r.Eval(fmt.Sprintf("conc/%d/%d/%d", i, len(us), fc.n))
	})

	r.EachW("sockets", r.N(60, 2000), 4, sockets)

	r.Need("fault_positions", 1000)
	r.Need("committed", 1000)
	r.Need("commit_refused", 300)
	r.Need("committed_unknown_to_client", 50)
	r.Need("server_skipped_in_failed_block", 1000)
	r.Need("server_rolled_back_on_disconnect", 300)
	r.Finish()
}

type capture struct{ b []byte }

func (c *capture) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.b = append([]byte(nil), b...)
	return nil, nil
}

func history(i int, rng *rand.Rand, pl pool.Pool, db *msim.DB, what string) []*uow {
	g := 1 + rng.Intn(6)
	m := 3 + rng.Intn(8)
	var us []*uow
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		var mine []*uow
		for k := 0; k < m; k++ {
			mine = append(mine, newUow(1+w*100+k, rng, true))
		}
		us = append(us, mine...)
		cs := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					r.Violation("%s: panic %v\n%s", what, e, debug.Stack())
				}
			}()
			rg := rand.New(rand.NewSource(cs))
			x := xtorm.New(rg.Intn(500))
			for _, u := range mine {
				ctx := context.Background()
				if rg.Intn(20) == 0 {
					c, f := context.WithCancel(ctx)
					f()
					ctx = c
				}
				u.send(ctx, x, pl, db)
			}
		}()
	}
	closeAt := rng.Intn(4) == 0
	if closeAt {
		go pl.Close(context.Background())
	}
	r.Watch(90*time.Second, func() string { return what }, wg.Wait)
	pl.Close(context.Background())
	return us
}

// sockets: the real connector, TCP, TLS and Unix sockets.
func sockets(i int, rng *rand.Rand) {
	network, address := "tcp", "127.0.0.1:0"
	if i%3 == 1 {
		network, address = "unix", filepath.Join(os.Getenv("XV_WORK"), fmt.Sprintf("c20-%d.s", i))
	}
	s, err := xsrv.Listen(network, address)
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	acc := xsrv.NewAccount(rng)
	opts := []connector.Option{connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB)}
	if i%3 == 2 {
		opts = append(opts, connector.WithTLSConfig(&tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}))
	}
	cn, err := connector.New(network, s.Addr(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	db := msim.NewDB()
	for k := 0; k < 400; k++ {
		rg := rand.New(rand.NewSource(rng.Int63()))
		au := &xsrv.Auth{Acc: acc, R: rg}
		c := &msim.Conn{S: &msim.Session{DB: db}, R: rg}
		c.Plan = func(fr []wire.Frame) msim.Plan { return randomPlan(rg, len(fr)) }
		var batch []byte
		depth := 0
		s.Next(func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
			if m.Type == 2 {
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: &tls.Config{Certificates: []tls.Certificate{pki.Good}}}
			}
			if a, ok := au.On(m); ok {
				return a
			}
			batch = wire.AppendFrame(batch, m.Type, m.Payload)
			switch m.Type {
			case wire.ExpectOpen:
				depth++
			case wire.ExpectClose:
				depth--
			}
			if depth > 0 {
				return xsrv.Action{}
			}
			_, werr := c.Write(batch)
			batch = nil
			out := append([]byte(nil), c.In...)
			c.In = nil
			if werr != nil || c.S.Gone {
				return xsrv.Action{Reply: out, FIN: rg.Intn(2) == 0, RST: true}
			}
			return xsrv.Action{Reply: out}
		})
	}
	size := rng.Intn(4)
	what := fmt.Sprintf("sockets %d (%s), pool size %d", i, network, size)
	pl := fifoch.New(cn, size)
	us := history(i, rng, pl, db, what)
	// the server may still be executing what it had received
	time.Sleep(20 * time.Millisecond)
	final(us, db, what)
	r.Count("socket_histories", 1)
	r.Eval(fmt.Sprintf("sock/%d/%d", i, len(us)))
}
