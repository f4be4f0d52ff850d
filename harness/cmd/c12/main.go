package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"runtime/debug"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/vtime"
	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/xproto"
)

var r *rep.Run

func hex(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x...(%d)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// unit is a built unit of work: its bytes and message types.
type unit struct {
	b     []byte
	types []byte
}

func build(rng *rand.Rand, max int) unit {
	for {
		x := xtorm.New(64)
		gen.Program(rng, 40, 2, 1+rng.Intn(4), true).Run(&x.Builder)
		var rec gen.Recorder
		if _, err := x.Send(context.Background(), &rec); err != nil {
			r.Harness("build: %v", err)
			return unit{}
		}
		if u, ok := unitOf(rec.B); ok && len(u.types) > 0 && len(u.types) <= max {
			return u
		}
	}
}

func unitOf(b []byte) (u unit, ok bool) {
	fr, err := wire.Split(b)
	if err != nil {
		r.Harness("split: %v", err)
		return u, false
	}
	u.b = b
	for _, f := range fr {
		u.types = append(u.types, f.Type)
	}
	return u, true
}

// try sends u over a connection that answers with stream and then fails with
// end, and holds the outcome against the model.
// virtual: the cases run on a virtual clock, which only waiting moves.
var virtual bool

func try(what string, u unit, stream []byte, c *fnet.Conn) {
	v, fatal, out, why := fnet.Model(len(u.types), stream)
	c.NoLog = true
	conn := connection.New(c)
	var resp []netx.Response
	var err error
	warm := []int{0, 0, 0, 1, 3, 0, 2}[len(stream)%7] // answered sends before
	if len(stream)%997 == 10 {
		warm = 1500
	}
	if warm > 0 {
		end, join := c.End, c.Join
		c.End, c.Join = nil, false
		c.OnWrite = func(c *fnet.Conn, b []byte) { c.In = wire.AppendFrame(c.In, fnet.SExecOK, nil) }
		for k := 0; k < warm; k++ {
			if wr, err := conn.Send(context.Background(), []byte{1, 0, 0, 0, 12}); err != nil || len(wr) != 1 || wr[0] != nil {
				r.Violation("%s: answered send %d returned %v %v", what, k, wr, err)
				return
			}
		}
		c.End, c.Join, c.EndReads = end, join, 0
		what = fmt.Sprintf("%s, after %d answered sends", what, warm)
		r.Count("used_connections", 1)
	}
	c.OnWrite = func(c *fnet.Conn, b []byte) { c.In = stream }
	desc := func() string {
		return fmt.Sprintf("%s\n%d messages %v; reply stream %s, then %v (together with the last bytes: %v)\nmodel: %v (%s)", what, len(u.types), u.types, hex(stream), c.End, c.Join, v, why)
	}
	began := time.Now()
	r.Watch(60*time.Second, desc, func() {
		r.Guard(desc, func() { resp, err = conn.Send(context.Background(), u.b) })
	})
	r.EvalBytes(append(append([]byte(nil), u.types...), stream...))
	if d := time.Since(began); virtual && d > 100*time.Millisecond {
		r.Violation("%s\neverything the server sent was there, yet Send took another %v of virtual time to return %v", desc(), d, err)
		return
	}
	if c.EndReads > 4 {
		r.Violation("%s\nthe stream had ended, yet Send read %d times more", desc(), c.EndReads-1)
		return
	}
	r.Count("model_"+v.String(), 1)
	switch v {
	case fnet.Broken:
		if err == nil {
			r.Violation("%s\nSend returned no error, %d responses", desc(), len(resp))
			return
		}
		if fatal != nil {
			r.Count("fatal", 1)
			var m *connection.MySqlXError
			if !errors.As(err, &m) {
				r.Violation("%s\nSend returned %T %q, not the server's fatal error", desc(), err, err)
			} else if uint64(m.Severity) != 1 || m.Code != fatal.Code || m.SqlState != fatal.State || m.Msg != fatal.Msg {
				r.Violation("%s\nSend returned %q, fatal error was %v", desc(), err, fatal)
			}
		}
	case fnet.Answered:
		if err != nil {
			r.Violation("%s\nSend returned %q although every message was answered", desc(), err)
			return
		}
		if len(resp) != len(out) {
			r.Violation("%s\n%d responses", desc(), len(resp))
			return
		}
		for i, o := range out {
			if _, isErr := resp[i].(error); isErr != o.Err {
				r.Violation("%s\nresponse %d is %#v, server said %v", desc(), i, resp[i], o)
				return
			}
		}
	}
}

var ends = []error{io.EOF, fnet.ErrReset, fnet.ErrTimeout, io.ErrClosedPipe}

func conn(rng *rand.Rand, k int) *fnet.Conn {
	c := &fnet.Conn{End: ends[k%len(ends)], Join: k/len(ends)%2 == 1}
	switch rng.Intn(4) {
	case 0:
		c.Rng, c.Max = rng, 1
	case 1:
		c.Rng, c.Max = rng, 9
	case 2:
		c.Rng = rng
	}
	return c
}

func replies(rng *rand.Rand, u unit, max int, failOneIn int) []byte {
	var in []byte
	for _, t := range u.types {
		o := fnet.Outcome{}
		if failOneIn > 0 && rng.Intn(failOneIn) == 0 {
			o = fnet.Failure(rng, max)
		}
		in = fnet.Reply(rng, in, t, o, max)
	}
	return in
}

// bounds returns the frame boundaries of a valid reply stream.
func bounds(b []byte) (at []int) {
	for i := 0; i < len(b); i += 4 + int(binary.LittleEndian.Uint32(b[i:])) {
		at = append(at, i)
	}
	return append(at, len(b))
}

func splice(b []byte, at int, x []byte) []byte {
	return append(append(append([]byte(nil), b[:at]...), x...), b[at:]...)
}

func main() {
	r = rep.Start("C12", "fault_enumeration", "for generated units of work and valid reply streams: the stream cut at every byte with every kind of failure, zero-length frames, authentication demands and fatal errors inserted at every frame boundary, every truncation of an error and of a column metadata payload, writes failing at every byte, random byte corruption, oversized lengths, and real TCP peers that close or reset; an independent model of the reply stream decides what Send must report, a watchdog decides hangs. Non-trivial: distinct (messages, stream) pairs.")

	// no waiting once the stream has ended
	virtual = true
	vtime.Each(r, "virtual", r.N(60, 2000), func(i int, rng *rand.Rand) {
		u := build(rng, 6)
		s := replies(rng, u, 20, 3)
		for k := 0; k <= len(s); k++ {
			if len(s) > 1500 && rng.Intn(len(s)/500) != 0 {
				continue
			}
			try(fmt.Sprintf("virtual clock, cut %d at byte %d of %d", i, k, len(s)), u, s[:k], conn(rng, rng.Intn(8)))
			r.Count("virtual_cut_points", 1)
		}
	}, func(i int) {
		r.Violation("virtual clock, cut %d: Send waits for ever after the stream has ended", i)
	})
	virtual = false
	r.Need("used_connections", 1000)
	r.Need("virtual_cut_points", 1000)
	r.Each("cuts", r.N(120, 4000), func(i int, rng *rand.Rand) {
		u := build(rng, 6)
		s := replies(rng, u, []int{20, 20, 60}[rng.Intn(3)], 3)
		for k := 0; k <= len(s); k++ {
			if len(s) > 1500 && rng.Intn(len(s)/500) != 0 {
				continue
			}
			try(fmt.Sprintf("cut %d at byte %d of %d", i, k, len(s)), u, s[:k], conn(rng, rng.Intn(8)))
			r.Count("cut_points", 1)
		}
		if i < 3 {
			r.Sample("cut at each of %d bytes, messages %v", len(s), u.types)
		}
	})
	// cuts in and around frames larger than the reader buffer
	r.Each("big_cuts", r.N(150, 5000), func(i int, rng *rand.Rand) {
		u := build(rng, 3)
		s := replies(rng, u, 9000, 3)
		var at []int
		for _, b := range bounds(s) {
			for d := -6; d <= 6; d++ {
				at = append(at, b+d)
			}
			at = append(at, b+4095, b+4096, b+4097, b+4100, b+4101, b+4102)
		}
		for _, k := range at {
			if k >= 0 && k <= len(s) && rng.Intn(1+len(at)/60) == 0 {
				try(fmt.Sprintf("big cut %d at byte %d of %d", i, k, len(s)), u, s[:k], conn(rng, rng.Intn(8)))
			}
		}
	})
	// hostile frames at every boundary
	r.Each("hostile", r.N(250, 8000), func(i int, rng *rand.Rand) {
		u := build(rng, 6)
		s := replies(rng, u, 30, 5)
		for _, b := range bounds(s) {
			o := fnet.Failure(rng, 60)
			o.Severity = 1
			p := wire.ErrorPayload(1, o.Code, o.State, o.Msg)
			perm := append(wire.ErrorPayload(0, o.Code, o.State, o.Msg), 8, 1)
			dup := append([]byte{8, 0}, p...)
			auth := wire.AppendBytes(nil, 1, gen.Raw(rng, rng.Intn(40)))
			for k, x := range [][]byte{
				{0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, byte(rng.Intn(20))}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
				wire.AppendFrame(nil, fnet.SAuthContinue, auth),
				wire.AppendFrame(nil, fnet.SAuthContinue, nil),
				wire.AppendFrame(nil, fnet.SAuthContinue, []byte{0xff}),
				wire.AppendFrame(nil, fnet.SAuthContinue, wire.AppendBytes(nil, 1, make([]byte, 5000))),
				wire.AppendFrame(nil, fnet.SError, p),
				wire.AppendFrame(nil, fnet.SError, perm),
				wire.AppendFrame(nil, fnet.SError, dup),
				wire.AppendFrame(nil, fnet.SError, nil),
				wire.AppendFrame(nil, fnet.SError, []byte{8, 1}),
				wire.AppendFrame(nil, fnet.SError, wire.ErrorPayload(1, 1, "HY000", string(make([]byte, 5000)))),
			} {
				c := conn(rng, rng.Intn(8))
				try(fmt.Sprintf("hostile %d frame kind %d at %d", i, k, b), u, splice(s, b, x), c)
				if rng.Intn(2) == 0 {
					try(fmt.Sprintf("hostile %d frame kind %d at %d, then end", i, k, b), u, append(append([]byte(nil), s[:b]...), x...), conn(rng, rng.Intn(8)))
				}
			}
		}
		r.Count("boundaries", len(bounds(s)))
	})
	// every code a fatal error can have, at any message, also with answers behind it
	r.Each("codes", 240, func(i int, rng *rand.Rand) {
		u := build(rng, 6)
		s := replies(rng, u, 20, 5)
		at := bounds(s)
		for k := 0; k < 50; k++ {
			b := at[rng.Intn(len(at)-1)]
			o := fnet.Failure(rng, 20)
			x := wire.AppendFrame(nil, fnet.SError, wire.ErrorPayload(1, uint32(50*i+k), o.State, o.Msg))
			try(fmt.Sprintf("fatal error %d at %d", 50*i+k, b), u, splice(s, b, x), conn(rng, rng.Intn(8)))
		}
	})
	// undecodable errors: every truncation of the payload, in a correct frame, at every message
	r.Each("errors", r.N(150, 4000), func(i int, rng *rand.Rand) {
		u := build(rng, 4)
		o := fnet.Failure(rng, 60)
		o.Severity = uint64(rng.Intn(2))
		p := wire.ErrorPayload(o.Severity, o.Code, o.State, o.Msg)
		pos := rng.Intn(len(u.types))
		for k := 0; k <= len(p); k++ {
			var s []byte
			for j, t := range u.types {
				if j == pos {
					s = wire.AppendFrame(s, fnet.SError, p[:k])
				} else {
					s = fnet.Reply(rng, s, t, fnet.Outcome{}, 20)
				}
			}
			try(fmt.Sprintf("error payload %d cut at %d of %d", i, k, len(p)), u, s, conn(rng, rng.Intn(8)))
		}
		// drop one field each
		full := [][]byte{wire.AppendVar(nil, 2, uint64(o.Code)), wire.AppendBytes(nil, 3, []byte(o.Msg)), wire.AppendBytes(nil, 4, []byte(o.State))}
		for d := range full {
			var q []byte
			for j, f := range full {
				if j != d {
					q = append(q, f...)
				}
			}
			var s []byte
			for range u.types {
				s = wire.AppendFrame(s, fnet.SError, q)
			}
			try(fmt.Sprintf("error without field %d", d+2), u, s, conn(rng, rng.Intn(8)))
		}
	})
	// undecodable column metadata: every truncation of the payload, in a correct frame, alone or among others
	r.Each("metadata", r.N(150, 4000), func(i int, rng *rand.Rand) {
		u := build(rng, 4)
		p := wire.AppendVar(nil, 1, uint64(1+rng.Intn(18)))
		for f := 2; f <= 7; f++ {
			if rng.Intn(2) == 0 {
				p = wire.AppendBytes(p, f, gen.Raw(rng, rng.Intn(30)))
			}
		}
		p = wire.AppendVar(p, 8, uint64(rng.Intn(300)))
		p = wire.AppendVar(p, 10, uint64(rng.Intn(1<<30)))
		if i%9 == 0 {
			p = wire.AppendBytes(p, 4, make([]byte, 4000+rng.Intn(400)))
		}
		s := replies(rng, u, 30, 5)
		at := bounds(s)
		b := at[rng.Intn(len(at)-1)]
		for k := 0; k <= len(p); k++ {
			if k > 120 && k < len(p)-20 {
				continue
			}
			var x []byte
			for n := rng.Intn(3); n > 0; n-- {
				x = wire.AppendFrame(x, fnet.SMeta, p)
			}
			x = wire.AppendFrame(x, fnet.SMeta, p[:k])
			try(fmt.Sprintf("metadata payload %d cut at %d of %d", i, k, len(p)), u, splice(s, b, x), conn(rng, rng.Intn(8)))
			r.Count("metadata_cuts", 1)
		}
	})
	// corruption
	r.Each("corrupt", r.N(25000, 1500000), func(i int, rng *rand.Rand) {
		u := build(rng, 6)
		s := replies(rng, u, []int{20, 200, 5000}[rng.Intn(3)], 2)
		for k := 1 + rng.Intn(3); k > 0 && len(s) > 0; k-- {
			p := rng.Intn(len(s))
			switch rng.Intn(4) {
			case 0:
				s[p] ^= 1 << rng.Intn(8)
			case 1:
				s[p] = byte(rng.Intn(256))
			case 2:
				s = append(append([]byte(nil), s[:p]...), s[p+1:]...)
			default:
				s = splice(s, p, []byte{byte(rng.Intn(20))})
			}
		}
		if biggest(s) > 1<<24 {
			r.Count("corrupt_skipped_huge", 1)
			return
		}
		try(fmt.Sprintf("corrupt %d", i), u, s, conn(rng, rng.Intn(8)))
	})
	// writes failing at every byte, with answers waiting
	r.Each("writes", r.N(400, 8000), func(i int, rng *rand.Rand) {
		u := build(rng, 5)
		s := replies(rng, u, 20, 0)
		for k := 0; k < len(u.b); k++ {
			if len(u.b) > 400 && rng.Intn(len(u.b)/200) != 0 {
				continue
			}
			c := conn(rng, rng.Intn(8))
			c.NoLog, c.In, c.WriteErr, c.WriteLimit = true, s, []error{fnet.ErrBroken, fnet.ErrTimeout, io.ErrShortWrite}[rng.Intn(3)], k
			cn := connection.New(c)
			var err error
			desc := func() string {
				return fmt.Sprintf("write of %d bytes fails with %v after %d bytes, messages %v", len(u.b), c.WriteErr, k, u.types)
			}
			r.Watch(60*time.Second, desc, func() {
				r.Guard(desc, func() { _, err = cn.Send(context.Background(), u.b) })
			})
			r.Eval(fmt.Sprintf("w%x/%d", u.b[:min(len(u.b), 64)], k))
			r.Count("write_faults", 1)
			if err == nil {
				r.Violation("%s: Send returned no error", desc())
			}
		}
	})
	// an error answering a session reset
	r.Each("session_reset", r.N(12000, 150000), func(i int, rng *rand.Rand) {
		var b []byte
		for k := rng.Intn(4); k > 0; k-- {
			b, _ = xproto.StmtExecute(b, "s", nil)
		}
		at := len(b)
		b = xproto.Reset(b, rng.Intn(2) == 0)
		for k := rng.Intn(3); k > 0; k-- {
			b, _ = xproto.StmtExecute(b, "t", nil)
		}
		u, ok := unitOf(b)
		if !ok {
			return
		}
		fail := rng.Intn(4) != 0 || i%6 > 2 // three in six: every code in turn
		var s []byte
		var out []fnet.Outcome
		var bad fnet.Outcome
		pos := 0
		for j := 0; j < at; j += 4 + int(binary.LittleEndian.Uint32(b[j:])) {
			pos++
		}
		for j, t := range u.types {
			o := fnet.Outcome{}
			if j == pos && fail || j != pos && rng.Intn(4) == 0 {
				o = fnet.Failure(rng, 60)
				o.Severity = 0
			}
			if j == pos {
				if i%6 > 2 {
					o.Code = uint32(i/6*3 + i%6 - 3)
				}
				bad = o
			}
			if t == wire.SessReset {
				for rng.Intn(3) == 0 {
					s = fnet.Notice(rng, s, 60)
				}
				if o.Err {
					s = fnet.ErrFrame(s, o)
				} else {
					s = wire.AppendFrame(s, fnet.SOK, nil)
				}
			} else {
				s = fnet.Reply(rng, s, t, o, 40)
			}
			out = append(out, o)
		}
		c := conn(rng, rng.Intn(8))
		c.NoLog = true
		c.OnWrite = func(c *fnet.Conn, b []byte) { c.In = s }
		cn := connection.New(c)
		var resp []netx.Response
		var err error
		desc := func() string { return fmt.Sprintf("session reset among %v, outcomes %v", u.types, out) }
		r.Watch(60*time.Second, desc, func() { r.Guard(desc, func() { resp, err = cn.Send(context.Background(), b) }) })
		r.EvalBytes(append(append([]byte(nil), u.types...), s...))
		r.Count("session_resets", 1)
		if !fail {
			if err != nil || len(resp) != len(out) {
				r.Violation("%s: Send returned %d responses, %v", desc(), len(resp), err)
			}
			return
		}
		r.Count("session_resets_failed", 1)
		var m *connection.MySqlXError
		if err == nil {
			r.Violation("%s: Send returned no error", desc())
		} else if !errors.As(err, &m) || m.Code != bad.Code || m.SqlState != bad.State || m.Msg != bad.Msg {
			r.Violation("%s: Send returned %q", desc(), err)
		}
	})
	// a real peer that goes away
	r.EachW("sockets", r.N(300, 6000), 4, sockets)
	// lengths no stream will ever fill
	r.EachW("huge", 24, 1, func(i int, rng *rand.Rand) {
		u, _ := unitOf([]byte{1, 0, 0, 0, 25})
		n := []uint32{1<<24 + 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1<<32 - 1}[i%8]
		s := binary.LittleEndian.AppendUint32(nil, n)
		s = append(s, [][]byte{{fnet.SOK}, {fnet.SExecOK, fnet.SAuthOK, fnet.SFetchDone}, {fnet.SRow, fnet.SError, fnet.SNotice, fnet.SMeta, 200}}[i/8][rng.Intn(1+2*(i/8))], 1, 2, 3)
		switch rng.Intn(3) { // what would be complete frames, were the length another
		case 0:
			s = append(s[:5], 1, 0, 0, 0, fnet.SOK)
		case 1:
			s = s[:5]
		}
		if i%8 == 7 {
			s = append(s, make([]byte, 70000)...)
		}
		try(fmt.Sprintf("frame length %d", n), u, s, conn(rng, i))
		debug.FreeOSMemory()
	})
	r.Need("fatal", 500)
	r.Need("metadata_cuts", 3000)
	r.Need("cut_points", 5000)
	r.Need("write_faults", 1000)
	r.Finish()
}

func biggest(b []byte) (m int) {
	for len(b) >= 4 {
		l := int(min(binary.LittleEndian.Uint32(b), math.MaxInt32)) // int may have 32 bits
		if l > m {
			m = l
		}
		if len(b)-4 < l {
			break
		}
		b = b[4+l:]
	}
	return
}

func sockets(i int, rng *rand.Rand) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer l.Close()
	u := build(rng, 5)
	s := replies(rng, u, 5000, 3)
	cut := rng.Intn(len(s))
	reset := rng.Intn(2) == 0
	early := rng.Intn(4) == 0 // goes away without reading the request
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		if !early {
			io.ReadFull(c, make([]byte, len(u.b)))
			c.Write(s[:cut])
		}
		if reset {
			c.(*net.TCPConn).SetLinger(0)
		}
		c.Close()
	}()
	nc, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		if !early || !reset { // an immediate reset may already hit the dial
			r.Harness("dial: %v", err)
		}
		return
	}
	defer nc.Close()
	cn := connection.New(nc)
	desc := func() string {
		return fmt.Sprintf("TCP peer closes (reset %v, before reading %v) after %d of %d reply bytes, messages %v", reset, early, cut, len(s), u.types)
	}
	var resp []netx.Response
	r.Watch(60*time.Second, desc, func() {
		r.Guard(desc, func() { resp, err = cn.Send(context.Background(), u.b) })
	})
	if err == nil {
		v, _, _, _ := fnet.Model(len(u.types), s[:cut])
		if early || v != fnet.Answered {
			r.Violation("%s: Send returned no error, %d responses", desc(), len(resp))
		}
	}
	r.Eval(fmt.Sprintf("s%d/%v/%v/%d", i, reset, early, cut))
	r.Count("real_peers", 1)
}
