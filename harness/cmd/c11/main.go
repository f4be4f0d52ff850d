package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"
	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
)

var r *rep.Run

type want struct {
	types []byte
	out   []fnet.Outcome
}

// judge compares what Send returned with what the server answered.
func judge(what string, w want, resp []netx.Response, err error) bool {
	bad := func(f string, a ...interface{}) bool {
		t, o := w.types, w.out
		if len(t) > 60 {
			t, o = t[:60], o[:60]
		}
		r.Violation("%s\nserver answered: types %v outcomes %v\n%s", what, t, o, fmt.Sprintf(f, a...))
		return false
	}
	if err != nil {
		return bad("Send returned error %q although every message was answered without a fatal error", err)
	}
	if len(resp) != len(w.out) {
		return bad("%d responses for %d messages", len(resp), len(w.out))
	}
	for i, o := range w.out {
		e, isErr := resp[i].(error)
		if isErr != o.Err {
			return bad("response %d is %#v, server said %v", i, resp[i], o)
		}
		if !o.Err {
			continue
		}
		var m *connection.MySqlXError
		if !errors.As(e, &m) {
			return bad("response %d is %T, not a MySqlXError", i, e)
		}
		if uint64(m.Severity) != o.Severity || m.Code != o.Code || m.SqlState != o.State || m.Msg != o.Msg {
			return bad("response %d is severity=%d code=%d state=%q msg=%.80q(%d), server said %v", i, m.Severity, m.Code, m.SqlState, m.Msg, len(m.Msg), o)
		}
	}
	return true
}

func send(what string, c *fnet.Conn, conn netx.Conn, build func(x *xtorm.Builder), reply func(types []byte) ([]byte, want)) bool {
	x := xtorm.New(64)
	build(&x.Builder)
	var w want
	c.OnWrite = func(c *fnet.Conn, b []byte) {
		frames, err := wire.Split(b)
		if err != nil {
			r.Harness("%s: cannot split what was written: %v", what, err)
			return
		}
		types := make([]byte, len(frames))
		for i := range frames {
			types[i] = frames[i].Type
		}
		in, ww := reply(types)
		w = ww
		c.In = append(c.In, in...)
	}
	var resp []netx.Response
	var err error
	r.Watch(90*time.Second, func() string { return what }, func() { resp, err = x.Send(context.Background(), conn) })
	if !judge(what, w, resp, err) {
		return false
	}
	keep(c, what, w, resp)
	if len(c.In) > 0 {
		// Unread replies are only legitimate while buffered by the reader; the
		// next send on the connection decides whether it is in step.
		r.Count("unread_tail", 1)
	}
	r.Count("messages_answered", len(w.out))
	for _, o := range w.out {
		if o.Err {
			r.Count("error_responses", 1)
		}
	}
	return true
}

// kept are responses of earlier sends on a connection; what a caller was given
// must still say the same after later sends.
type kept struct {
	what string
	w    want
	resp []netx.Response
}

var keeping sync.Map // *fnet.Conn -> []kept

func keep(c *fnet.Conn, what string, w want, resp []netx.Response) {
	var ks []kept
	if v, ok := keeping.Load(c); ok {
		ks = v.([]kept)
	}
	if len(resp) > 5000 || len(ks) >= 8 {
		return
	}
	keeping.Store(c, append(ks, kept{what, w, resp}))
}

// recheck judges the kept responses again.
func recheck(c *fnet.Conn) {
	v, ok := keeping.LoadAndDelete(c)
	if !ok {
		return
	}
	ks := v.([]kept)
	for k, q := range ks {
		if k < len(ks)-1 {
			r.Count("responses_rechecked", len(q.resp))
			if !judge(fmt.Sprintf("%s, looked at again after %d more sends", q.what, len(ks)-1-k), q.w, q.resp, nil) {
				return
			}
		}
	}
}

func fragments(c *fnet.Conn, rng *rand.Rand, total int) {
	switch rng.Intn(6) {
	case 0: // whole
	case 1:
		c.Rng, c.Max = rng, 1
	case 2:
		c.Rng, c.Max = rng, 7
	case 3:
		c.Rng, c.Max = rng, 1500
	case 4:
		c.Rng, c.Max = rng, 5000
	default:
		c.Rng = rng
	}
}

func main() {
	r = rep.Start("C11", "exploration", "histories of 1..6 consecutive sends on one real connection over a recording net.Conn; each message is answered by a generated reply sequence (notices, metadata, rows, several result sets, OK or error with any code, state and text) delivered in generated fragments; plus a sweep of single-frame sizes around the 4096-byte reader buffer x fragment sizes x what the frame is. The responses must equal the outcomes the server put into the stream. Non-trivial: distinct reply streams.")

	r.Each("histories", r.N(3500, 150000), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{NoLog: true}
		conn := connection.New(c)
		defer recheck(c)
		max := []int{200, 5000, 5000, 20000}[rng.Intn(4)]
		if i%1500 == 7 {
			max = 3 << 20
		}
		n := 1 + rng.Intn(6)
		for k := 0; k < n; k++ {
			p := gen.Program(rng, 60, 3, 1+rng.Intn(6), true)
			fragments(c, rng, max)
			what := fmt.Sprintf("history %d send %d of %d (fragments <=%d, payloads <=%d)", i, k, n, c.Max, max)
			fail := []int{0, 2, 5}[rng.Intn(3)]
			ok := send(what, c, conn, func(b *xtorm.Builder) { p.Run(b) }, func(types []byte) ([]byte, want) {
				w := want{types: types}
				var in []byte
				for _, t := range types {
					var o fnet.Outcome
					if fail > 0 && rng.Intn(fail) == 0 {
						o = fnet.Failure(rng, max)
					}
					m := max
					if len(in) > 1<<20 {
						m = 100
					}
					in = fnet.Reply(rng, in, t, o, m)
					w.out = append(w.out, o)
				}
				r.EvalBytes(in)
				r.Count("reply_bytes", len(in))
				if len(types) > 1 {
					r.Count("multi_message_sends", 1)
				}
				if i < 4 {
					r.Sample("%s: types %v outcomes %v, %d reply bytes", what, types, w.out, len(in))
				}
				return in, w
			})
			if !ok {
				return
			}
			if k > 0 {
				r.Count("follow_up_sends", 1)
			}
		}
		// the stream must have been consumed exactly
		if len(c.In) != 0 {
			r.Violation("history %d: %d reply bytes were never read although all sends returned", i, len(c.In))
		}
	})

	// frame size x kind x fragment size x position
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 100, 127, 128, 4000}
	for n := 4096 - 16; n <= 4096+16; n++ {
		sizes = append(sizes, n)
	}
	for n := 8192 - 8; n <= 8192+8; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 16384, 65535, 65536, 65537, 1<<20, 1<<21-1, 1<<21)
	frags := []int{1, 5, 4095, 4096, 4097, 0}
	kinds := 5
	r.Each("sizes", len(sizes)*len(frags)*kinds*3, func(i int, rng *rand.Rand) {
		n := sizes[i%len(sizes)]
		f := frags[i/len(sizes)%len(frags)]
		k := i / len(sizes) / len(frags) % kinds
		pos := i / len(sizes) / len(frags) / kinds
		if f == 1 && n > 1<<17 {
			f = 1000
		}
		c := &fnet.Conn{NoLog: true}
		if f > 0 {
			c.Rng, c.Max = rng, f
		}
		conn := connection.New(c)
		defer recheck(c)
		what := fmt.Sprintf("frame with a %d byte body, kind %d, fragments <=%d, position %d", n, k, f, pos)
		for s := 0; s < 2; s++ {
			ok := send(what, c, conn, func(b *xtorm.Builder) { b.StmtExecute("a"); b.StmtExecute("b"); b.StmtExecute("c") }, func(types []byte) ([]byte, want) {
				w := want{types: types, out: make([]fnet.Outcome, len(types))}
				var in []byte
				for j := range types {
					if j != pos {
						w.out[j] = fnet.Outcome{}
						if j == 2 {
							w.out[j] = fnet.Outcome{Err: true, Code: 7, State: "00000", Msg: "last"}
							in = fnet.ErrFrame(in, w.out[j])
							continue
						}
						in = wire.AppendFrame(in, fnet.SExecOK, nil)
						continue
					}
					body := bytes.Repeat([]byte{byte('a' + s)}, n)
					switch k {
					case 0:
						o := fnet.Outcome{Err: true, Code: 1064, State: "42000", Msg: string(body)}
						w.out[j] = o
						in = fnet.ErrFrame(in, o)
					case 1:
						p := wire.AppendVar(nil, 1, 1)
						p = wire.AppendBytes(p, 3, body)
						in = wire.AppendFrame(in, fnet.SNotice, p)
						in = wire.AppendFrame(in, fnet.SExecOK, nil)
					case 2:
						in = fnet.Meta(rng, in, 20)
						in = wire.AppendFrame(in, fnet.SRow, wire.AppendBytes(nil, 1, body))
						in = wire.AppendFrame(in, fnet.SFetchDone, nil)
						in = wire.AppendFrame(in, fnet.SExecOK, nil)
					case 3:
						p := wire.AppendVar(nil, 1, 7)
						p = wire.AppendBytes(p, 2, body)
						in = wire.AppendFrame(in, fnet.SMeta, p)
						in = wire.AppendFrame(in, fnet.SFetchDone, nil)
						in = wire.AppendFrame(in, fnet.SExecOK, nil)
					default: // two large frames in a row, the second smaller, then an error
						in = wire.AppendFrame(in, fnet.SRow, wire.AppendBytes(nil, 1, body))
						in = wire.AppendFrame(in, fnet.SRow, wire.AppendBytes(nil, 1, body[:n/2]))
						in = fnet.Notice(rng, in, 50)
						o := fnet.Outcome{Err: true, Code: 1, State: "HY000", Msg: "x"}
						w.out[j] = o
						in = fnet.ErrFrame(in, o)
					}
				}
				r.EvalBytes(append([]byte(what), byte(s)))
				return in, w
			})
			if !ok {
				return
			}
		}
	})

	// every code, for every kind of message
	r.Each("codes", 600, func(i int, rng *rand.Rand) {
		c := &fnet.Conn{NoLog: true}
		conn := connection.New(c)
		defer recheck(c)
		for k := 0; k < 20; k++ {
			code := uint32(20*i + k)
			what := fmt.Sprintf("every message fails with code %d", code)
			if !send(what, c, conn, func(b *xtorm.Builder) {
				b.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error {
					b.StmtExecute("a")
					b.Prepare(1, "a")
					b.Execute(1)
					b.Deallocate(1)
					b.Insert("t", []string{"a"}, [][]interface{}{{1}})
					b.Update("t", nil, map[string]interface{}{"a": 1})
					b.Delete("t", nil)
					return nil
				})
				b.StmtExecute("b")
			}, func(types []byte) ([]byte, want) {
				w := want{types: types}
				var in []byte
				for j, t := range types {
					o := fnet.Outcome{}
					if j < len(types)-1 {
						o = fnet.Failure(rng, 20)
						o.Code = code
					}
					in = fnet.Reply(rng, in, t, o, 20)
					w.out = append(w.out, o)
				}
				r.EvalBytes(in)
				return in, w
			}) {
				return
			}
		}
	})

	// very many sends on one connection
	r.Each("life", r.N(4, 32), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{NoLog: true}
		if i%2 == 1 {
			c.Rng, c.Max = rng, 40
		}
		conn := connection.New(c)
		defer recheck(c)
		n := r.N(25000, 100000)
		for k := 0; k < n; k++ {
			what := fmt.Sprintf("send %d of %d on one connection", k, n)
			if !send(what, c, conn, func(b *xtorm.Builder) {
				for j := k % 3; j >= 0; j-- {
					b.StmtExecute("a")
				}
			}, func(types []byte) ([]byte, want) {
				w := want{types: types}
				var in []byte
				for _, t := range types {
					o := fnet.Outcome{}
					if rng.Intn(10) == 0 {
						o = fnet.Failure(rng, 20)
					}
					in = fnet.Reply(rng, in, t, o, 20)
					w.out = append(w.out, o)
				}
				return in, w
			}) {
				return
			}
			if len(c.In) != 0 {
				r.Violation("%s: %d reply bytes were never read", what, len(c.In))
				return
			}
			r.Count("sends_of_one_connection", 1)
		}
	})
	r.Need("sends_of_one_connection", 90000)

	// very many messages, very long replies, very large frames, in either direction
	long := func(i int, rng *rand.Rand, msgs, sent, frames, body int, errs bool) {
		c := &fnet.Conn{NoLog: true, Rng: rng, Max: 1 + rng.Intn(1<<uint(10+rng.Intn(10)))}
		conn := connection.New(c)
		defer recheck(c)
		what := fmt.Sprintf("long %d: %d messages, the largest of %d bytes, answered with up to %d frames of up to %d bytes", i, msgs, sent, frames, body)
		for k := 0; k < 2; k++ {
			big := rng.Intn(msgs)
			if !send(what, c, conn, func(b *xtorm.Builder) {
				for j := 0; j < msgs; j++ {
					switch {
					case j == big && sent > 0:
						b.StmtExecute(string(gen.Raw(rng, sent)))
					case j%5 == 4:
						b.Deallocate(uint32(j))
					default:
						b.StmtExecute("a")
					}
				}
			}, func(types []byte) ([]byte, want) {
				w := want{types: types}
				var in []byte
				at := rng.Intn(msgs)
				for j, t := range types {
					o := fnet.Outcome{}
					if errs && (rng.Intn(50) == 0 || j == msgs-1) {
						o = fnet.Failure(rng, 60)
					}
					if j == at && t == 12 {
						f := 0
						if frames > 0 {
							f = (frames+1)/2 + rng.Intn(frames/2+1)
						}
						kind := rng.Intn(3)
						for ; f > 0; f-- {
							n := 0
							if body > 0 {
								n = body/2 + rng.Intn(body/2+1)
							}
							switch kind {
							case 0:
								in = fnet.Notice(rng, in, 20)
							case 1:
								in = fnet.Meta(rng, in, 20)
								in = wire.AppendFrame(in, fnet.SRow, wire.AppendBytes(nil, 1, make([]byte, n)))
							default:
								in = wire.AppendFrame(in, fnet.SRow, wire.AppendBytes(nil, 1, make([]byte, n)))
							}
							r.Count("long_frames", 1)
						}
						if frames == 0 {
							o = fnet.Failure(rng, 60)
							o.Msg = string(bytes.Repeat([]byte("0123456789"), body/10+1))
						}
					}
					in = fnet.Reply(rng, in, t, o, 30)
					w.out = append(w.out, o)
				}
				r.EvalBytes(append([]byte(what), byte(k)))
				return in, w
			}) {
				return
			}
		}
		r.Count("long", 1)
	}
	r.EachW("long", r.N(260, 5000), 4, func(i int, rng *rand.Rand) {
		switch i % 13 {
		case 0:
			long(i, rng, 250+rng.Intn(20), 0, 3, 10, true)
		case 1:
			long(i, rng, 1000+rng.Intn(4000), 0, 3, 10, i%2 == 0)
		case 2:
			long(i, rng, 1+rng.Intn(3), 0, 3000, 40, true)
		case 3:
			long(i, rng, 1+rng.Intn(3), 0, 40000, 10, i%2 == 0)
		case 4:
			long(i, rng, 1+rng.Intn(3), 0, 20, 70000, true)
		case 5:
			long(i, rng, 1+rng.Intn(3), 0, 3, 3<<20, true)
		case 6:
			long(i, rng, 1+rng.Intn(5), 65000+rng.Intn(2000), 3, 10, true)
		case 7:
			long(i, rng, 1+rng.Intn(5), 1<<20+rng.Intn(2000), 3, 10, true)
		case 8:
			long(i, rng, 1+rng.Intn(3), 0, 0, 1<<uint(12+rng.Intn(9))+rng.Intn(100), true)
		case 9:
			long(i, rng, 5+rng.Intn(60), 70000, 100, 9000, true)
		case 10:
			if i == 10 || r.Thorough() {
				long(i, rng, 66000+rng.Intn(2000), 0, 3, 10, true)
			} else if i == 23 {
				long(i, rng, 2, 0, 300000, 10, true)
			}
		case 11:
			if i < 40 || r.Thorough() {
				long(i, rng, 3, 1<<24+rng.Intn(1<<20), 2, 1<<25+1<<20, true)
			}
		case 12:
			if i < 40 {
				long(i, rng, 1+rng.Intn(3), 0, 1, 1<<27+rng.Intn(1<<20), true)
			} else if r.Thorough() || i < 100 {
				long(i, rng, 1, 0, 0, 1<<24+rng.Intn(1<<20), true)
			}
		}
	})
	// the peer closes right after (or together with) the last reply
	r.Each("last_words", r.N(600, 20000), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{End: []error{fnet.ErrReset, fnet.ErrTimeout}[i%2], Join: i%4 < 2}
		conn := connection.New(c)
		defer recheck(c)
		p := gen.Program(rng, 60, 2, 1+rng.Intn(4), true)
		fragments(c, rng, 0)
		send(fmt.Sprintf("last words %d (join %v)", i, c.Join), c, conn, func(b *xtorm.Builder) { p.Run(b) }, func(types []byte) ([]byte, want) {
			w := want{types: types}
			var in []byte
			for _, t := range types {
				o := fnet.Outcome{}
				if rng.Intn(4) == 0 {
					o = fnet.Failure(rng, 300)
				}
				in = fnet.Reply(rng, in, t, o, 4300)
				w.out = append(w.out, o)
			}
			r.EvalBytes(in)
			return in, w
		})
	})
	// a connection object moved to another network connection starts clean
	r.Each("moved", r.N(1500, 40000), func(i int, rng *rand.Rand) {
		c := &fnet.Conn{NoLog: true, End: fnet.ErrReset}
		conn := connection.New(c)
		defer recheck(c)
		for k, n := 0, 2+rng.Intn(3); k < n; k++ {
			what := fmt.Sprintf("moved %d, network connection %d of %d", i, k, n)
			for s := rng.Intn(3); s >= 0; s-- {
				p := gen.Program(rng, 60, 2, 1+rng.Intn(3), true)
				fragments(c, rng, 0)
				if !send(what, c, conn, func(b *xtorm.Builder) { p.Run(b) }, func(types []byte) ([]byte, want) {
					w := want{types: types}
					var in []byte
					for _, t := range types {
						o := fnet.Outcome{}
						if rng.Intn(3) == 0 {
							o = fnet.Failure(rng, 300)
						}
						in = fnet.Reply(rng, in, t, o, 4300)
						w.out = append(w.out, o)
					}
					r.EvalBytes(in)
					return in, w
				}) {
					return
				}
			}
			// leave something behind: a send answered by a fatal error, with
			// whole and partial messages following it in the same segment
			var left []byte
			for j := rng.Intn(4); j > 0; j-- {
				left = append(left, [][]byte{{1, 0, 0, 0, fnet.SOK}, {1, 0, 0, 0, fnet.SExecOK}, fnet.ErrFrame(nil, fnet.Failure(rng, 50)), fnet.Notice(rng, nil, 50)}[rng.Intn(4)]...)
			}
			left = append(left, [][]byte{nil, {9}, {1, 0, 0}, {1, 0, 0, 0}, {40, 0, 0, 0, fnet.SNotice, 1, 2, 3}, {0xff, 0xff, 0, 0, fnet.SRow}}[rng.Intn(6)]...)
			c.Rng = nil
			c.OnWrite = func(c *fnet.Conn, b []byte) {
				c.In = append(fnet.ErrFrame(c.In, fnet.Outcome{Err: true, Severity: 1, Code: 1053, State: "08S01", Msg: "Server shutdown in progress"}), left...)
			}
			x := xtorm.New(0)
			x.StmtExecute("a")
			if _, err := x.Send(context.Background(), conn); err == nil {
				r.Violation("%s: a fatal error was not reported", what)
				return
			}
			r.Count("left_behind", len(left))
			c = &fnet.Conn{NoLog: true, End: fnet.ErrReset}
			conn.Reset(c)
			r.Count("moves", 1)
		}
	})
	r.Need("moves", 2000)
	r.Need("long", 40)
	r.Need("responses_rechecked", 5000)
	r.Need("error_responses", 1000)
	r.Need("follow_up_sends", 1000)
	r.Finish()
}
