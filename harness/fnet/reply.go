package fnet

import (
	"fmt"
	"math/rand"

	"xv/gen"
	"xv/wire"
)

// Server message types.
const (
	SOK           = 0
	SError        = 1
	SCapabilities = 2
	SAuthContinue = 3
	SAuthOK       = 4
	SNotice       = 11
	SMeta         = 12
	SRow          = 13
	SFetchDone    = 14
	SSuspended    = 15
	SMoreResults  = 16
	SExecOK       = 17
	SMoreOut      = 18
)

// Outcome is what one message's reply says.
type Outcome struct {
	Err      bool
	Severity uint64
	Code     uint32
	State    string
	Msg      string
}

func (o Outcome) String() string {
	if !o.Err {
		return "ok"
	}
	m := o.Msg
	if len(m) > 40 {
		m = fmt.Sprintf("%s...(%d)", m[:40], len(m))
	}
	return fmt.Sprintf("error(sev=%d code=%d state=%q msg=%q)", o.Severity, o.Code, o.State, m)
}

// Size picks a payload size: mostly small, often around the 4096-byte reader
// buffer, sometimes large.
func Size(r *rand.Rand, max int) int {
	n := 0
	switch r.Intn(8) {
	case 0, 1, 2, 3:
		n = r.Intn(60)
	case 4:
		n = 4096 - 40 + r.Intn(80)
	case 5:
		n = 8192 - 40 + r.Intn(80)
	case 6:
		n = r.Intn(6000)
	default:
		n = r.Intn(max + 1)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

func Notice(r *rand.Rand, b []byte, max int) []byte {
	var p []byte
	switch r.Intn(4) {
	case 0: // warning
		q := wire.AppendVar(nil, 1, uint64(1+r.Intn(3)))
		q = wire.AppendVar(q, 2, uint64(r.Intn(5000)))
		q = wire.AppendBytes(q, 3, gen.Raw(r, Size(r, max)))
		p = wire.AppendVar(nil, 1, 1)
		p = wire.AppendVar(p, 2, 2)
		p = wire.AppendBytes(p, 3, q)
	case 1: // session variable changed
		q := wire.AppendBytes(nil, 1, gen.Raw(r, 1+r.Intn(20)))
		p = wire.AppendVar(nil, 1, 2)
		p = wire.AppendVar(p, 2, 2)
		p = wire.AppendBytes(p, 3, q)
	case 2: // session state changed
		sc := wire.AppendVar(nil, 1, 2)
		sc = wire.AppendVar(sc, 3, uint64(r.Int63()))
		q := wire.AppendVar(nil, 1, uint64(1+r.Intn(11)))
		q = wire.AppendBytes(q, 2, sc)
		p = wire.AppendVar(nil, 1, 3)
		p = wire.AppendVar(p, 2, 2)
		p = wire.AppendBytes(p, 3, q)
	default: // global, no payload
		p = wire.AppendVar(nil, 1, uint64(4+r.Intn(3)))
		p = wire.AppendVar(p, 2, 1)
	}
	return wire.AppendFrame(b, SNotice, p)
}

func Meta(r *rand.Rand, b []byte, max int) []byte {
	types := []uint64{1, 2, 5, 6, 7, 10, 12, 15, 16, 17, 18}
	p := wire.AppendVar(nil, 1, types[r.Intn(len(types))])
	for f := 2; f <= 7; f++ {
		if r.Intn(3) > 0 {
			p = wire.AppendBytes(p, f, gen.Raw(r, Size(r, max)))
		}
	}
	for f := 8; f <= 12; f++ {
		if r.Intn(2) == 0 {
			p = wire.AppendVar(p, f, uint64(r.Int31()))
		}
	}
	return wire.AppendFrame(b, SMeta, p)
}

func Row(r *rand.Rand, b []byte, cols, max int) []byte {
	var p []byte
	for i := 0; i < cols; i++ {
		p = wire.AppendBytes(p, 1, gen.Raw(r, Size(r, max)))
	}
	return wire.AppendFrame(b, SRow, p)
}

func ErrFrame(b []byte, o Outcome) []byte {
	return wire.AppendFrame(b, SError, wire.ErrorPayload(o.Severity, o.Code, o.State, o.Msg))
}

func noise(r *rand.Rand, b []byte, max int) []byte {
	for r.Intn(3) == 0 {
		b = Notice(r, b, max)
	}
	return b
}

// Reply appends a complete, valid reply sequence to a client message of type
// ct with the given outcome: any mix of notices, result sets and errors MySQL
// may produce for it.
func Reply(r *rand.Rand, b []byte, ct byte, o Outcome, max int) []byte {
	b = noise(r, b, max)
	switch ct {
	case 12, 41, 17, 18, 19, 20: // statements
		sets := 0
		if ct == 12 || ct == 41 {
			sets = r.Intn(3)
			if r.Intn(20) == 0 {
				sets = 6
			}
		}
		if o.Err && r.Intn(2) == 0 {
			sets = 0
		}
		for s := 0; s < sets; s++ {
			cols := 1 + r.Intn(4)
			if r.Intn(8) == 0 {
				cols = 0 // a result without columns, or whose metadata the server left out
			}
			for i := 0; i < cols; i++ {
				b = Meta(r, b, max)
				b = noise(r, b, max)
			}
			rows := r.Intn(5)
			if r.Intn(30) == 0 {
				rows = 60
			}
			for i := 0; i < rows; i++ {
				b = Row(r, b, cols, max)
				b = noise(r, b, max)
			}
			if o.Err && s == sets-1 { // fails part way through the result
				return ErrFrame(b, o)
			}
			if s < sets-1 {
				b = wire.AppendFrame(b, []byte{SMoreResults, SMoreOut}[r.Intn(2)], nil)
			} else if r.Intn(15) == 0 {
				b = wire.AppendFrame(b, SSuspended, nil)
			} else {
				b = wire.AppendFrame(b, SFetchDone, nil)
			}
		}
		b = noise(r, b, max)
		if o.Err {
			return ErrFrame(b, o)
		}
		return wire.AppendFrame(b, SExecOK, nil)
	default: // prepare, deallocate, expect open/close
		if o.Err {
			return ErrFrame(b, o)
		}
		var p []byte
		if r.Intn(3) == 0 {
			p = wire.AppendBytes(nil, 1, gen.Raw(r, Size(r, max)))
		}
		return wire.AppendFrame(b, SOK, p)
	}
}

// Failure picks a non-fatal error outcome.
func Failure(r *rand.Rand, max int) Outcome {
	codes := []uint32{0, 1, 127, 128, 1045, 1046, 1062, 1064, 1146, 1213, 5000, 5159, 5160, 1 << 14, 1<<31 - 1, 1<<32 - 1}
	o := Outcome{Err: true, Code: codes[r.Intn(len(codes))], State: "HY000", Msg: string(gen.Raw(r, Size(r, max)))}
	if r.Intn(3) == 0 {
		o.Code = uint32(r.Intn(7000))
	}
	switch r.Intn(4) {
	case 0:
		o.State = string(gen.Raw(r, r.Intn(6)))
		if r.Intn(4) == 0 {
			o.State = string(gen.Raw(r, r.Intn(40)))
		}
	case 1:
		o.State = "23000"
	}
	return o
}
