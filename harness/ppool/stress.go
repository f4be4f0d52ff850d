package ppool

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"xv/rep"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

type sconn struct {
	id     int64
	h      *hist
	inUse  int32
	closed int32
	spoilt int32
	rng    uint64
}

type hist struct {
	run      *rep.Run
	only     string
	mu       sync.Mutex
	conns    []*sconn
	nid      int64
	sent     map[string]int
	closedOK int32 // a Close has returned without error
	fail     bool
	maxIn    int32
	inflight int32
	newFail  uint64
	jitter   uint64
}

func (h *hist) bad(class, f string, a ...interface{}) {
	if strings.Contains(class, h.only) {
		h.run.Violation("free-running: "+f, a...)
	}
	h.mu.Lock()
	h.fail = true
	h.mu.Unlock()
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (h *hist) pause(x uint64) {
	switch mix(x^h.jitter) % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(mix(x)%50) * time.Microsecond)
	}
}

type afterKey struct{}

func (h *hist) New(ctx context.Context) (netx.Conn, error) {
	if ctx.Value(afterKey{}) != nil {
		h.bad(C19, "a send started after Close had returned opened a connection")
	}
	x := uint64(atomic.AddInt64(&h.nid, 1))
	h.pause(x)
	if mix(x^h.newFail)%11 == 0 {
		return nil, notClosed(anError(mix(x*3), int(x)))
	}
	c := &sconn{id: int64(x), h: h}
	h.mu.Lock()
	h.conns = append(h.conns, c)
	h.mu.Unlock()
	return c, nil
}

func (c *sconn) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	if atomic.AddInt32(&c.inUse, 1) != 1 {
		c.h.bad(C17, "connection %d used by two sends at once", c.id)
	}
	defer atomic.AddInt32(&c.inUse, -1)
	if atomic.LoadInt32(&c.closed) != 0 {
		c.h.bad(C18, "connection %d used after close", c.id)
	}
	if atomic.LoadInt32(&c.spoilt) != 0 {
		c.h.bad(C18, "connection %d used after it was spoiled", c.id)
	}
	if ctx.Value(afterKey{}) != nil {
		c.h.bad(C19, "a send started after Close had returned used connection %d", c.id)
	}
	n := atomic.AddInt32(&c.h.inflight, 1)
	for {
		m := atomic.LoadInt32(&c.h.maxIn)
		if n <= m || atomic.CompareAndSwapInt32(&c.h.maxIn, m, n) {
			break
		}
	}
	s := string(b)
	c.h.mu.Lock()
	c.h.sent[s]++
	if c.h.sent[s] > 1 {
		c.h.mu.Unlock()
		c.h.bad(C17, "%q was sent twice", s)
		c.h.mu.Lock()
	}
	c.h.mu.Unlock()
	c.rng = mix(c.rng + uint64(len(b)) + uint64(c.id))
	c.h.pause(c.rng)
	atomic.AddInt32(&c.h.inflight, -1)
	switch c.rng % 9 {
	case 0:
		atomic.StoreInt32(&c.spoilt, 1)
		if c.rng>>8%3 == 0 {
			return nil, notClosed(anError(c.rng>>16, int(c.id)))
		}
		return []netx.Response{s}, notClosed(anError(c.rng>>16, int(c.id)))
	case 1:
		atomic.StoreInt32(&c.spoilt, 1)
		return []netx.Response{s, anErrorResponse(c.rng>>8, int(c.id))}, nil
	}
	return []netx.Response{s}, nil
}

func (c *sconn) Close() error {
	if atomic.LoadInt32(&c.inUse) != 0 {
		c.h.bad(C17+C19, "connection %d closed while in use", c.id)
	}
	c.h.pause(uint64(c.id) * 77)
	atomic.AddInt32(&c.closed, 1)
	return nil
}
func (c *sconn) IsSecure() bool { return false }

// Stress runs free concurrency on one pool and checks the recorded history.
func Stress(run *rep.Run, only string, i int, rng *rand.Rand, closes bool) {
	size := []int{0, 1, 1, 2, 3, 8}[rng.Intn(6)]
	h := &hist{run: run, only: only, sent: map[string]int{}, newFail: rng.Uint64(), jitter: rng.Uint64()}
	p := fifoch.New(h, size)
	workers := 2 + rng.Intn(12)
	per := 5 + rng.Intn(20)
	var wg sync.WaitGroup
	var closedAt int32
	guard := func(class string) {
		if e := recover(); e != nil {
			h.bad(class, "panic: %v\n%s", e, debug.Stack())
		}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		seed := rng.Uint64()
		go func(w int) {
			defer wg.Done()
			defer func() {
				class := C17
				if closes {
					class = C19
				}
				guardWith(h, class, recover())
			}()
			for k := 0; k < per; k++ {
				seed = mix(seed)
				ctx := context.Background()
				after := atomic.LoadInt32(&h.closedOK) != 0
				if after {
					ctx = context.WithValue(ctx, afterKey{}, 1)
				}
				msg := fmt.Sprintf("w%d.%d", w, k)
				resp, err := p.Send(ctx, []byte(msg))
				if after {
					atomic.AddInt32(&closedAt, 1)
					if !errors.Is(err, pool.ErrPoolClosed) {
						h.bad(C19, "a send started after Close had returned got %v, %v", resp, err)
					}
					continue
				}
				if err == nil && (len(resp) == 0 || resp[0] != netx.Response(msg)) {
					h.bad(C17, "send %s got the responses %v", msg, resp)
				}
				if errors.Is(err, pool.ErrPoolClosed) && !closes {
					h.bad(C17, "send %s got ErrPoolClosed from an open pool", msg)
				}
				h.pause(seed)
			}
		}(w)
	}
	if closes {
		n := 1 + rng.Intn(3)
		for k := 0; k < n; k++ {
			wg.Add(1)
			d := time.Duration(rng.Intn(300)) * time.Microsecond
			dead := n > 1 && rng.Intn(4) == 0
			go func() {
				defer wg.Done()
				defer guard(C19)
				time.Sleep(d)
				ctx, cancel := context.WithCancel(context.Background())
				if dead {
					cancel()
				}
				err := p.Close(ctx)
				cancel()
				if err == nil {
					atomic.StoreInt32(&h.closedOK, 1)
				} else if !dead {
					h.bad(C19, "Close returned %v", err)
				}
			}()
		}
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		class := only
		buf := make([]byte, 1<<15)
		h.bad(class, "sends or closes do not return: %s", buf[:runtime.Stack(buf, true)])
		return
	}
	if h.fail {
		return
	}
	open := 0
	for _, c := range h.conns {
		if c.closed == 0 {
			open++
			if c.spoilt != 0 {
				h.bad(C18, "spoiled connection %d was never closed", c.id)
			}
		}
	}
	if open > size {
		h.bad(C18, "%d of %d connections are open at rest in a pool of size %d", open, len(h.conns), size)
	}
	if closes && h.closedOK != 0 && open > 0 {
		h.bad(C19, "%d connections are open at rest after Close", open)
	}
	if err := p.Close(context.Background()); err != nil {
		h.bad(C19, "final Close returned %v", err)
	}
	for _, c := range h.conns {
		if c.closed == 0 {
			h.bad(C18, "connection %d is still open after the pool was closed at rest", c.id)
			break
		}
	}
	run.Count("stress_connections", len(h.conns))
	run.Count("stress_sends", len(h.sent))
	run.Count("stress_sends_after_close", int(closedAt))
	run.Count(fmt.Sprintf("stress_max_in_flight_%02d", h.maxIn), 1)
	run.Eval(fmt.Sprintf("stress/%d/%d/%d/%d", i, len(h.conns), len(h.sent), h.maxIn))
}

func guardWith(h *hist, class string, e interface{}) {
	if e != nil {
		h.bad(class, "panic: %v\n%s", e, debug.Stack())
	}
}
