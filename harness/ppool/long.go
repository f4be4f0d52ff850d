package ppool

import (
	"context"
	"math/rand"
	"strings"
	"sync"

	"xv/rep"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

type lconn struct {
	id, uses, closed int
	g                *long
}

type long struct {
	mu    sync.Mutex
	conns []*lconn
	used  *lconn
	gate  chan struct{} // sends wait here while it is not nil
	in    chan struct{}
}

func (g *long) New(ctx context.Context) (netx.Conn, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	c := &lconn{id: len(g.conns), g: g}
	g.conns = append(g.conns, c)
	return c, nil
}

func (c *lconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	c.g.mu.Lock()
	c.uses++
	c.g.used = c
	gate := c.g.gate
	c.g.mu.Unlock()
	if gate != nil {
		c.g.in <- struct{}{}
		<-gate
	}
	return []netx.Response{nil}, nil
}

func (c *lconn) Close() error {
	c.g.mu.Lock()
	c.closed++
	c.g.mu.Unlock()
	return nil
}
func (c *lconn) IsSecure() bool { return false }

// Long uses healthy connections of one pool for very many sends, one after the
// other: none is given up or replaced, and they take turns.
func Long(run *rep.Run, only string, i int, rng *rand.Rand, sends int) {
	size := []int{1, 1, 2, 3, 8, 40}[i%6]
	open := 1 + rng.Intn(size)
	g := &long{gate: make(chan struct{}), in: make(chan struct{})}
	p := fifoch.New(g, size)
	bad := func(class, f string, a ...interface{}) {
		if strings.Contains(class, only) {
			run.Violation("pool of "+f, a...)
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < open; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.Send(context.Background(), []byte{1}) }()
		<-g.in
	}
	close(g.gate)
	wg.Wait()
	g.gate = nil
	if len(g.conns) != open {
		bad(C17, "%d: %d sends at once used %d connections", size, open, len(g.conns))
		return
	}
	var last []*lconn
	for k := 0; k < sends; k++ {
		g.used = nil
		r, err := p.Send(context.Background(), []byte{1})
		c := g.used
		switch {
		case err != nil || len(r) != 1 || c == nil:
			bad(C17+C18, "%d, send %d: %v %v", size, k, r, err)
			return
		case len(g.conns) != open:
			n := 0
			for _, c := range g.conns {
				n += c.closed
			}
			bad(C17+C18, "%d with %d idle connections, send %d: another one was opened, %d healthy ones were closed", size, open, k, n)
			return
		case c.closed != 0:
			bad(C18, "%d with %d idle connections, send %d: healthy connection %d was closed after %d uses", size, open, k, c.id, c.uses)
			return
		}
		if k < open {
			last = append(last, c)
		} else if last[k%open] != c {
			bad(C17, "%d with %d idle connections, send %d used connection %d, %d was idle for longer", size, open, k, c.id, last[k%open].id)
			return
		}
	}
	run.Count("long_sends", sends)
	run.Eval("long")
	p.Close(context.Background())
}
