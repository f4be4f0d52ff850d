package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/wire"
	"xv/xsrv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
	"github.com/renthraysk/xtorm/types"
	"github.com/renthraysk/xtorm/xproto"
)

var r *rep.Run
var pki *xsrv.PKI

// together starts the functions at the same moment and waits for all of them.
// Nothing else orders them, so that the race detector sees every missing
// synchronisation.
func together(what string, fs []func()) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			r.Guard(func() string { return what }, f)
		}()
	}
	close(start)
	r.Watch(120*time.Second, func() string { return what }, wg.Wait)
}

func stream(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func shared(rng *rand.Rand, max int) (pool []gen.Ex, _ []gen.Val) {
	g := &gen.Gen{R: rng, Max: max, Depth: 3}
	var lits []gen.Val
	for i := 0; i < 12; i++ {
		lits = append(lits, gen.Lit(rng, max))
	}
	g.Vals = lits
	// every constructor appears over the runs, with shared operands
	for i := 0; i < 10; i++ {
		pool = append(pool, g.Expr(3))
		g.Pool = pool
	}
	return pool, lits // literals are valid as arguments and as operands
}

type result struct {
	p    *gen.Prog
	seed int64
	cap  int
	b    []byte
	err  error
}

func (q *result) build(pool []gen.Ex, vals []gen.Val, max int) *gen.Prog {
	return gen.SharedProgram(stream(q.seed), max, 2, 8, pool, vals)
}

// pipes: own pipes, shared expressions and values.
func pipes(i int, rng *rand.Rand) {
	max := 1 << uint(2+rng.Intn(9))
	pool, vals := shared(rng, max)
	g := 2 + rng.Intn(7)
	per := 1 + rng.Intn(5)
	res := make([][]result, g)
	same := rng.Int63()
	var fs []func()
	for w := 0; w < g; w++ {
		mine := make([]result, per)
		for k := range mine {
			mine[k] = result{seed: rng.Int63(), cap: rng.Intn(300)}
			if rng.Intn(3) == 0 {
				mine[k].seed = same // the very same unit of work as others
			}
		}
		res[w] = mine
		fs = append(fs, func() {
			x := xtorm.New(mine[0].cap)
			for k := range mine {
				q := &mine[k]
				q.p = q.build(pool, vals, max) // expressions are composed concurrently, too
				if k%2 == 0 {
					x.Reset()
				} else {
					x = xtorm.New(q.cap)
				}
				q.p.Run(&x.Builder)
				var s gen.Recorder
				_, q.err = x.Send(context.Background(), &s)
				q.b = s.B
			}
		})
	}
	what := fmt.Sprintf("pipes case %d: %d goroutines x %d units of work", i, g, per)
	together(what, fs)
	var key []byte
	for w := range res {
		for k := range res[w] {
			q := &res[w][k]
			class, diff := "send", fmt.Sprint(q.err)
			if q.err == nil {
				class, diff = q.p.Compare(q.b)
			}
			r.Count("units", 1)
			key = append(key, q.b[:min(len(q.b), 64)]...)
			if class == "" {
				continue
			}
			// the same alone
			p := q.build(pool, vals, max)
			if c, _, _ := p.Check(q.cap); c == "" {
				r.Violation("%s: goroutine %d, unit %d: sent something else than alone (alone it is correct): %s\ncalls: %s", what, w, k, diff, q.p)
			} else {
				r.Count("wrong_alone_too", 1)
			}
		}
	}
	r.EvalBytes(key)
	if i < 2 {
		r.Sample("%s; first: %.300s", what, res[0][0].p.String())
	}
}

// gconn is a network connection without any synchronisation of its own: only
// the pool orders its users.
type gconn struct {
	rng  uint64
	in   []byte
	log  [][]byte
	bad  bool
	done bool
}

func (c *gconn) next(n int) int {
	c.rng = c.rng*6364136223846793005 + 1442695040888963407
	return int(c.rng>>33) % n
}

func (c *gconn) Write(b []byte) (int, error) {
	c.log = append(c.log, append([]byte(nil), b...))
	fr, err := wire.Split(b)
	if err != nil {
		return 0, net.ErrClosed
	}
	for _, f := range fr {
		if c.next(20) == 0 {
			c.in = wire.AppendFrame(c.in, 1, wire.ErrorPayload(0, 1062, "23000", "dup"))
			continue
		}
		c.in = append(c.in, okFrame(f.Type)...)
	}
	if c.next(15) == 0 {
		c.in = c.in[:len(c.in)/2]
	}
	if c.next(3) == 0 {
		runtime.Gosched()
	}
	return len(b), nil
}

func okFrame(t byte) []byte {
	switch t {
	case wire.ExpectOpen, wire.ExpectClose, wire.PreparePrepare, wire.PrepareDeallocate:
		return wire.AppendFrame(nil, 0, nil)
	}
	return wire.AppendFrame(nil, 17, nil)
}

func (c *gconn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, fnet.ErrTimeout
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *gconn) Close() error                     { c.done = true; return nil }
func (c *gconn) SetDeadline(time.Time) error      { return nil }
func (c *gconn) SetReadDeadline(time.Time) error  { return nil }
func (c *gconn) SetWriteDeadline(time.Time) error { return nil }
func (c *gconn) LocalAddr() net.Addr              { return nil }
func (c *gconn) RemoteAddr() net.Addr             { return nil }

type openKey struct{}
type opener struct {
	rng   *rand.Rand
	conns []*gconn
}
type gconnector struct{}

func (gconnector) New(ctx context.Context) (netx.Conn, error) {
	o := ctx.Value(openKey{}).(*opener)
	if o.rng.Intn(12) == 0 {
		return nil, fnet.ErrTimeout
	}
	c := &gconn{rng: o.rng.Uint64()}
	o.conns = append(o.conns, c)
	return connection.New(c), nil
}

// pooled: own pipes, shared pool, expressions and values, connections without locks.
func pooled(i int, rng *rand.Rand) {
	max := 1 << uint(2+rng.Intn(7))
	pool, vals := shared(rng, max)
	pl := fifoch.New(gconnector{}, rng.Intn(4))
	g := 2 + rng.Intn(7)
	per := 2 + rng.Intn(8)
	ops := make([]*opener, g)
	sent := make([]map[string]int, g)
	var fs []func()
	for w := 0; w < g; w++ {
		w := w
		ops[w] = &opener{rng: stream(rng.Int63())}
		sent[w] = map[string]int{}
		seed := rng.Int63()
		fs = append(fs, func() {
			rg := stream(seed)
			ctx := context.WithValue(context.Background(), openKey{}, ops[w])
			x := xtorm.New(rg.Intn(100))
			for k := 0; k < per; k++ {
				p := gen.SharedProgram(rg, max, 1, 4, pool, vals)
				x.Reset()
				x.StmtExecute(fmt.Sprintf("-- %d/%d", w, k))
				p.Run(&x.Builder)
				var s gen.Recorder
				if _, err := x.Send(ctx, &s); err != nil {
					r.Violation("pooled case %d: building failed: %v", i, err)
					return
				}
				sent[w][string(s.B)] = k
				c2 := ctx
				if rg.Intn(15) == 0 {
					c, f := context.WithCancel(ctx)
					f()
					c2 = c
				}
				x.Send(c2, pl)
			}
		})
	}
	if rng.Intn(3) == 0 {
		n := 1 + rng.Intn(2)
		for k := 0; k < n; k++ {
			y := rng.Intn(300)
			fs = append(fs, func() {
				for j := 0; j < y; j++ {
					runtime.Gosched()
				}
				pl.Close(context.Background())
			})
		}
	}
	what := fmt.Sprintf("pooled case %d: %d goroutines x %d sends", i, g, per)
	together(what, fs)
	pl.Close(context.Background())
	seen := map[string]int{}
	for _, o := range ops {
		for _, c := range o.conns {
			r.Count("pool_connections", 1)
			for _, b := range c.log {
				found := false
				for _, m := range sent {
					if _, ok := m[string(b)]; ok {
						found = true
					}
				}
				if !found {
					r.Violation("%s: a connection received %d bytes that no unit of work consists of: %x", what, len(b), b[:min(len(b), 200)])
				}
				seen[string(b)]++
				if seen[string(b)] > 1 {
					r.Violation("%s: a unit of work reached the network twice", what)
				}
				r.Count("pool_sends", 1)
			}
		}
	}
	r.Eval(fmt.Sprintf("pool/%d/%d", i, len(seen)))
}

var namedTLS, namelessTLS *tls.Config

// connect: one connector opening connections from several goroutines.
func connect(i int, rng *rand.Rand) {
	network, address := "tcp", "127.0.0.1:0"
	if i%3 == 1 {
		network, address = "unix", filepath.Join(os.Getenv("XV_WORK"), fmt.Sprintf("c21-%d.s", i))
	}
	s, err := xsrv.Listen(network, address)
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	acc := xsrv.NewAccount(rng)
	name, mech := xsrv.Mech(i / 3)
	secure := i%3 > 0
	if !secure && name == "PLAIN" {
		name, mech = xsrv.Mech(0)
	}
	opts := []connector.Option{connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB), connector.WithAuthentication(mech)}
	if i%3 == 2 {
		tc := &tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}
		switch rng.Intn(4) {
		case 0:
			tc = &tls.Config{InsecureSkipVerify: true}
		case 1:
			tc = namedTLS // the same configuration for many connectors
		case 2:
			tc = namelessTLS
		}
		opts = append(opts, connector.WithTLSConfig(tc))
	}
	cn, err := connector.New(network, s.Addr(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	g := 2 + rng.Intn(5)
	per := 1 + rng.Intn(3)
	deny := secure && rng.Intn(3) == 0 // the first mechanism is denied, PLAIN is not
	next := func() {
		au := &xsrv.Auth{Acc: acc, R: stream(rng.Int63())}
		if deny {
			au.Deny = func(a int, mech string) []byte {
				if a == 0 {
					return xsrv.Err(0, 1045, "Access denied")
				}
				return nil
			}
		}
		s.Next(func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
			if m.Type == 2 {
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: &tls.Config{Certificates: []tls.Certificate{pki.Good}}}
			}
			if a, ok := au.On(m); ok {
				return a
			}
			return xsrv.Work(m)
		})
	}
	for k := 0; k < g*per; k++ {
		next()
	}
	errs := make([][]error, g)
	var fs []func()
	for w := 0; w < g; w++ {
		w := w
		errs[w] = make([]error, per)
		fs = append(fs, func() {
			x := xtorm.New(64)
			for k := 0; k < per; k++ {
				c, err := cn.New(context.Background())
				if err != nil {
					errs[w][k] = err
					continue
				}
				x.Reset()
				x.StmtExecute("SELECT ?", k)
				if _, err := x.Send(context.Background(), c); err != nil {
					errs[w][k] = fmt.Errorf("using the connection: %w", err)
				}
				c.Close()
			}
		})
	}
	what := fmt.Sprintf("connect case %d: %s over %s (tls %v, denied %v), %d goroutines x %d", i, name, network, i%3 == 2, deny, g, per)
	together(what, fs)
	for w := range errs {
		for _, e := range errs[w] {
			r.Count("connects", 1)
			if e != nil {
				next()
				c, err := cn.New(context.Background())
				if err != nil {
					r.Count("wrong_alone_too", 1)
					return
				}
				c.Close()
				r.Violation("%s: goroutine %d got %v, alone it succeeds", what, w, e)
				return
			}
		}
	}
	r.Eval(what)
}

// mechs: one mechanism value used by several goroutines for different accounts.
type cred struct{ u, p, d string }

func (c cred) UserName() string { return c.u }
func (c cred) Password() string { return c.p }
func (c cred) Database() string { return c.d }

func mechs(i int, rng *rand.Rand) {
	name, m := xsrv.Mech(i)
	g := 2 + rng.Intn(7)
	type job struct {
		c          cred
		ch         []byte
		buf        int
		start, cnt []byte
	}
	jobs := make([][]job, g)
	do := func(j *job) {
		j.start = append([]byte(nil), m.Start(make([]byte, 0, j.buf), j.c)...)
		if c, ok := m.(authentication.StartContinuer); ok {
			j.cnt = append([]byte(nil), c.Continue(make([]byte, 0, j.buf), j.c, j.ch)...)
		}
	}
	var fs []func()
	for w := range jobs {
		mine := make([]job, 1+rng.Intn(6))
		for k := range mine {
			a := xsrv.NewAccount(rng)
			mine[k] = job{c: cred{a.User, a.PW, a.DB}, ch: gen.Raw(rng, 20), buf: rng.Intn(200)}
		}
		jobs[w] = mine
		fs = append(fs, func() {
			for k := range mine {
				do(&mine[k])
			}
		})
	}
	what := fmt.Sprintf("mechanism %s shared by %d goroutines (case %d)", name, g, i)
	together(what, fs)
	for _, mine := range jobs {
		for _, j := range mine {
			k := j
			do(&k)
			r.Count("authentications", 1)
			if !bytes.Equal(k.start, j.start) || !bytes.Equal(k.cnt, j.cnt) {
				r.Violation("%s: sent %x %x, alone %x %x", what, j.start, j.cnt, k.start, k.cnt)
			}
			r.EvalBytes(append(k.start, k.cnt...))
		}
	}
}

// texts: decimals, collations and server errors rendered by several goroutines.
func texts(i int, rng *rand.Rand) {
	var ds []types.Decimal
	for k := 0; k < 8; k++ {
		d := types.Decimal{byte(rng.Intn(31))}
		for n := rng.Intn(30); n >= 0; n-- {
			d = append(d, byte(rng.Intn(10))<<4|byte(rng.Intn(10)))
		}
		ds = append(ds, append(d, 0xC0|byte(rng.Intn(2))<<4))
	}
	e := &connection.MySqlXError{Severity: 0, Code: uint32(rng.Intn(5000)), SqlState: "HY000", Msg: "m"}
	g := 2 + rng.Intn(6)
	out := make([]string, g)
	one := func() string {
		var b bytes.Buffer
		var buf [64]byte
		for _, d := range ds {
			f, n, c, x := d.Decompose(buf[:])
			fmt.Fprint(&b, d.String(), f, n, c, x)
		}
		for k := 0; k < 320; k++ {
			b.WriteString(collation.Collation(k).String())
		}
		b.WriteString(e.Error())
		return b.String()
	}
	var fs []func()
	for w := range out {
		w := w
		fs = append(fs, func() { out[w] = one() })
	}
	what := fmt.Sprintf("texts case %d", i)
	together(what, fs)
	alone := one()
	for _, o := range out {
		r.Count("texts", 1)
		if o != alone {
			r.Violation("%s: rendered %q, alone %q", what, o, alone)
		}
	}
	r.Eval(fmt.Sprintf("texts/%d", i))
}

// protocol: the exported constructors of package xproto, called by several
// goroutines, each with its own buffer, sharing conditions and operands.
func protocol(i int, rng *rand.Rand) {
	max := 1 << uint(2+rng.Intn(9))
	exprs, vals := shared(rng, max)
	var args, lits []interface{}
	for k := 0; k < rng.Intn(5); k++ {
		args = append(args, vals[rng.Intn(len(vals))].V)
	}
	for k := 0; k < 1+rng.Intn(5); k++ {
		lits = append(lits, vals[rng.Intn(len(vals))].V)
		lits = append(lits, exprs[rng.Intn(len(exprs))].V)
	}
	crit := exprs[rng.Intn(len(exprs))].F()
	f := string(gen.Raw(rng, rng.Intn(max+1)))
	conds := []xproto.OpenCondition{xproto.OpenConditionExpectNoError(rng.Intn(2) == 0), xproto.OpenConditionExpectFieldExists(f), xproto.OpenConditionExpectFieldExists(f)}
	id, pos, dur := rng.Uint32(), rng.Uint32(), time.Duration(rng.Uint64())
	all := func() (out []byte) {
		pre := make([]byte, 3, 3+i%50)
		add := func(b []byte, err error) {
			out = append(append(out, b...), fmt.Sprint(len(b), err)...)
		}
		add(xproto.Reset(pre, i%2 == 0), nil)
		add(xproto.CapabilitySet("tls", true))
		add(xproto.AuthenticateStart(nil, f, []byte(f)), nil)
		add(xproto.AuthenticateContinue(nil, []byte(f)), nil)
		add(xproto.ExpectOpen(pre, xproto.OpenExpectCtxEmpty, conds...), nil)
		add(xproto.ExpectClose(pre), nil)
		add(xproto.Prepare(pre, id, f), nil)
		add(xproto.Execute(pre, id, args))
		add(xproto.Deallocate(pre, id), nil)
		add(xproto.StmtExecute(pre, f, args))
		add(xproto.Delete(pre, "t", crit))
		add(xproto.Update(pre, "t", crit))
		add(xproto.AppendUpdateSet(pre, f, lits[0]))
		add(xproto.Insert(pre, f, []string{f, "b"}), nil)
		add(xproto.AppendInsertRow(pre, lits))
		add(xproto.AppendDuration(pre, dur), nil)
		add(xproto.AppendExprOperator(pre, 2, "&&", lits))
		add(xproto.AppendExprOperatorV(pre, 2, "&&", lits...))
		add(xproto.AppendExprFunctionCall(pre, 2, f, lits))
		add(xproto.AppendExprFunctionCallV(pre, 2, f, lits...))
		add(xproto.AppendExprColumn(pre, 2, f))
		add(xproto.AppendExprPlaceholder(pre, 2, pos))
		add(xproto.AppendExprVariable(pre, 2, f))
		add(xproto.AppendExprString(pre, 2, f, 45), nil)
		add(xproto.AppendExprBytes(pre, 2, []byte(f), 2), nil)
		add(xproto.AppendExprBytesString(pre, 2, f, 2), nil)
		add(xproto.AppendAnyString(pre, 2, f, 45), nil)
		add(xproto.AppendAnyBytes(pre, 2, []byte(f), 2), nil)
		add(xproto.AppendAnyBytesString(pre, 2, f, 2), nil)
		return out
	}
	g := 2 + rng.Intn(6)
	out := make([][]byte, g)
	var fs []func()
	for w := range out {
		w := w
		fs = append(fs, func() { out[w] = all() })
	}
	what := fmt.Sprintf("protocol case %d: %d goroutines", i, g)
	together(what, fs)
	alone := all()
	for _, o := range out {
		r.Count("protocol_runs", 1)
		if !bytes.Equal(o, alone) {
			r.Violation("%s: the messages of one goroutine are not what they are alone: %x, alone %x", what, o[:min(len(o), 300)], alone[:min(len(alone), 300)])
		}
	}
	r.EvalBytes(alone)
}

func main() {
	r = rep.Start("C21", "exploration", "built with the race detector: groups of 2..9 goroutines released together, each with its own pipe, sharing expression values, value wrappers, a pool, a connector and its mechanism; the connections under the pool have no synchronisation of their own, so an unordered hand-over is itself a race. Verdict: the detector's reports with a repository frame, plus every unit of work's bytes compared with what it is alone. Non-trivial: distinct units of work and histories.")
	var err error
	if pki, err = xsrv.NewPKI(); err != nil {
		r.Harness("pki: %v", err)
		r.Finish()
	}
	namedTLS = &tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}
	namelessTLS = &tls.Config{InsecureSkipVerify: true}
	r.EachW("texts", r.N(60, 2000), 3, texts)
	r.EachW("mechs", r.N(300, 20000), 3, mechs)
	r.EachW("protocol", r.N(200, 10000), 3, protocol)
	r.EachW("pipes", r.N(1200, 60000), 3, pipes)
	r.EachW("pooled", r.N(1200, 60000), 3, pooled)
	r.EachW("connect", r.N(90, 3000), 2, connect)
	r.Need("units", 5000)
	r.Need("protocol_runs", 400)
	r.Need("pool_sends", 10000)
	r.Need("connects", 200)
	r.Need("authentications", 1000)
	if os.Getenv("XV_WORK") == "" || !raceEnabled {
		r.Harness("the race detector is not active")
	}
	r.Races(filepath.Join(os.Getenv("XV_WORK"), "race"))
	r.Finish()
}
