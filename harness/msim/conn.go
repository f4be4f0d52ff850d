package msim

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"time"

	"xv/fnet"
	"xv/wire"
)

// Plan is the fault plan of one unit of work on one connection.
type Plan struct {
	Stmt  map[int]Fault // by message index
	Drop  int           // the connection is lost after this many messages were executed (-1: not)
	Lost  int           // how many of the last executed messages' replies never arrive
	Cut   int           // bytes of the next reply that still arrive
	Err   error         // what the client sees
	WFail int           // >=0: the write fails after this many messages arrived (they are executed)
	Late  bool          // messages after the drop still reach the server, which executes them
}

var NoFault = Plan{Drop: -1, WFail: -1}

// Conn is a net.Conn onto a simulated session.
type Conn struct {
	mu     sync.Mutex
	S      *Session
	In     []byte
	end    error
	Plan   func(frames []wire.Frame) Plan
	R      *rand.Rand
	Closed bool
}

var ErrLost = errors.New("msim: connection reset by peer")

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Closed || c.S.Gone {
		return 0, ErrLost
	}
	frames, err := wire.Split(b)
	if err != nil {
		c.S.Disconnect()
		c.end = io.EOF
		return len(b), nil
	}
	p := c.Plan(frames)
	c.S.Unit, c.S.R = UnitOf(frames), c.R
	var replies [][]byte
	for i, f := range frames {
		if p.WFail >= 0 && i == p.WFail {
			c.S.Disconnect()
			return 4, ErrLost
		}
		if p.Drop >= 0 && i == p.Drop && !p.Late {
			break
		}
		if c.R.Intn(4) == 0 {
			runtime.Gosched()
		}
		rep, end := c.S.Exec(f, p.Stmt[i])
		var pre []byte
		switch c.R.Intn(10) {
		case 0, 1:
			for k := 1 + c.R.Intn(2); k > 0; k-- {
				pre = fnet.Notice(c.R, pre, 20)
			}
		case 2: // results before the final word
			max := 20
			if c.R.Intn(20) == 0 {
				max = 6000
			}
			if full := fnet.Reply(c.R, nil, f.Type, fnet.Outcome{}, max); rep[4] != 1 {
				rep = full
			} else if f.Type == wire.StmtExecute || f.Type == wire.PrepareExecute {
				pre = fnet.Row(c.R, fnet.Meta(c.R, nil, max), 1, max)
			}
		}
		replies = append(replies, append(pre, rep...))
		if end {
			c.end = io.EOF
			break
		}
	}
	if p.Drop >= 0 {
		n := p.Drop - p.Lost
		if n < 0 {
			n = 0
		}
		if n > len(replies) {
			n = len(replies)
		}
		for _, r := range replies[:n] {
			c.In = append(c.In, r...)
		}
		if n < len(replies) && p.Cut > 0 {
			c.In = append(c.In, replies[n][:p.Cut%len(replies[n])]...)
		}
		c.S.Disconnect()
		c.end = p.Err
		return len(b), nil
	}
	for _, r := range replies {
		c.In = append(c.In, r...)
	}
	return len(b), nil
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Closed {
		return 0, net.ErrClosed
	}
	if len(c.In) == 0 {
		if c.end != nil {
			return 0, c.end
		}
		return 0, fnet.ErrWouldBlock
	}
	n := 1 + c.R.Intn(len(c.In))
	if n > len(b) {
		n = len(b)
	}
	copy(b, c.In[:n])
	c.In = c.In[n:]
	return n, nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.Closed {
		c.Closed = true
		c.S.Disconnect()
	}
	return nil
}
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }
func (c *Conn) LocalAddr() net.Addr              { return nil }
func (c *Conn) RemoteAddr() net.Addr             { return nil }
