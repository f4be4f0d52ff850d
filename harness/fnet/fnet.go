// Package fnet is a recording in-memory net.Conn: every call the connection
// layer makes is logged with the deadline in force, replies are delivered in
// chosen fragments, and faults fire at chosen byte positions.
package fnet

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"
)

type Kind byte

const (
	Write Kind = iota
	Read
	Close
	Dead
)

func (k Kind) String() string { return [...]string{"Write", "Read", "Close", "SetDeadline"}[k] }

// Ev is one observed call.
type Ev struct {
	Kind     Kind
	Data     []byte    // bytes written
	N        int       // bytes transferred
	Deadline time.Time // deadline in force for the direction (or newly set)
}

var ErrWouldBlock = errors.New("fnet: read with no reply outstanding (a real connection would block forever)")
var ErrReset = errors.New("fnet: connection reset by peer")
var ErrBroken = errors.New("fnet: broken pipe")

// ErrTimeout is what an expired deadline yields.
var ErrTimeout error = os.ErrDeadlineExceeded

// Conn implements net.Conn. Replies queued in In are readable only once the
// writes they answer have happened (see After).
type Conn struct {
	mu   sync.Mutex
	Log  []Ev
	In   []byte     // replies not yet read
	Rng  *rand.Rand // fragmentation; nil: as much as fits
	Max  int        // largest fragment (0: 1..len)
	End  error      // what reading past In gives (nil: ErrWouldBlock)
	Join bool       // deliver End together with the last bytes

	WriteLimit int   // when >=0 and WriteErr set: bytes accepted in total before WriteErr
	WriteErr   error // see WriteLimit
	OnWrite    func(c *Conn, b []byte)

	written  int
	once     bool // WriteErr fires once
	rdl, wdl time.Time
	Closed   int
	OnRead   func(c *Conn)
	NoLog    bool
	DeadErr  error // setting a deadline fails and changes nothing
	EndReads int
}

func (c *Conn) log(e Ev) {
	if !c.NoLog {
		c.Log = append(c.Log, e)
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	d := append([]byte(nil), b...)
	if c.WriteErr != nil && c.written+len(b) > c.WriteLimit {
		n := c.WriteLimit - c.written
		if n < 0 {
			n = 0
		}
		c.written += n
		c.log(Ev{Write, d, n, c.wdl})
		err := c.WriteErr
		if c.once {
			c.WriteErr = nil
		}
		return n, err
	}
	c.written += len(b)
	c.log(Ev{Write, d, len(b), c.wdl})
	if c.OnWrite != nil {
		c.OnWrite(c, d)
	}
	return len(b), nil
}

// FailNext makes the write that goes beyond the next n bytes fail; with once,
// only that one.
func (c *Conn) FailNext(n int, err error, once bool) {
	c.WriteErr, c.WriteLimit, c.once = err, c.written+n, once
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	if c.OnRead != nil {
		c.OnRead(c)
	}
	if len(c.In) == 0 {
		err := c.End
		if err == nil {
			err = ErrWouldBlock
		}
		c.EndReads++
		c.log(Ev{Read, nil, 0, c.rdl})
		return 0, err
	}
	n := len(c.In)
	if c.Rng != nil {
		m := c.Max
		if m <= 0 || m > n {
			m = n
		}
		n = 1 + c.Rng.Intn(m)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, c.In[:n])
	c.In = c.In[n:]
	c.log(Ev{Read, nil, n, c.rdl})
	if c.Join && c.End != nil && len(c.In) == 0 {
		return n, c.End
	}
	return n, nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closed++
	c.log(Ev{Kind: Close})
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.DeadErr != nil {
		return c.DeadErr
	}
	c.rdl, c.wdl = t, t
	c.log(Ev{Kind: Dead, Deadline: t})
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.DeadErr != nil {
		return c.DeadErr
	}
	c.rdl = t
	c.log(Ev{Kind: Dead, Deadline: t})
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.DeadErr != nil {
		return c.DeadErr
	}
	c.wdl = t
	c.log(Ev{Kind: Dead, Deadline: t})
	return nil
}

type addr struct{}

func (addr) Network() string { return "fnet" }
func (addr) String() string  { return "fnet" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

var _ net.Conn = (*Conn)(nil)
var _ io.Reader = (*Conn)(nil)
