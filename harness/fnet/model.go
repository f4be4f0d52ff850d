package fnet

import (
	"encoding/binary"
	"math"
)

// Verdict of the reply-stream model.
type Verdict int

const (
	Answered    Verdict = iota // every message answered without a fatal error
	Broken                     // Send must return an error
	Unspecified                // outside what the protocol defines: only no panic, no hang
)

func (v Verdict) String() string { return [...]string{"answered", "broken", "unspecified"}[v] }

// Model decides, independently of the repository, what a Send of n messages
// must report for a reply stream that ends after b.
func Model(n int, b []byte) (v Verdict, fatal *Outcome, out []Outcome, why string) {
	for i := 0; i < n; i++ {
	frames:
		for {
			if len(b) < 4 {
				return Broken, nil, out, "stream ends in a frame header"
			}
			l := int(min(binary.LittleEndian.Uint32(b), math.MaxInt32)) // int may have 32 bits
			if l == 0 {
				return Broken, nil, out, "frame of length zero"
			}
			if len(b)-4 < l {
				return Broken, nil, out, "stream ends inside a frame"
			}
			typ, p := b[4], b[5:4+l]
			b = b[4+l:]
			switch typ {
			case SOK, SExecOK:
				out = append(out, Outcome{})
				break frames
			case SError:
				o, vv := decodeError(p)
				if vv == Unspecified {
					return Unspecified, nil, out, "odd error encoding"
				}
				if vv == Broken {
					return Broken, nil, out, "undecodable error"
				}
				if o.Severity == 1 {
					return Broken, &o, out, "fatal error"
				}
				out = append(out, o)
				break frames
			case SAuthContinue:
				return Broken, nil, out, "authenticate continue"
			case SMeta:
				if wellFormed(p) == Broken {
					return Broken, nil, out, "undecodable metadata"
				}
				if wellFormed(p) != Answered || !hasField(p, 1) {
					return Unspecified, nil, out, "odd metadata"
				}
			case SNotice, SRow, SFetchDone, SSuspended, SMoreResults, SMoreOut:
			default:
				return Unspecified, nil, out, "message type a server does not send here"
			}
		}
	}
	return Answered, nil, out, ""
}

// next parses one protobuf field.
func next(p []byte) (num int, wt int, u uint64, body, rest []byte, ok bool) {
	t, k := binary.Uvarint(p)
	if k <= 0 {
		return
	}
	p = p[k:]
	num, wt = int(t>>3), int(t&7)
	if num <= 0 || t > 1<<32-1 {
		return
	}
	switch wt {
	case 0:
		u, k = binary.Uvarint(p)
		if k <= 0 {
			return
		}
		return num, wt, u, nil, p[k:], true
	case 1:
		if len(p) < 8 {
			return
		}
		return num, wt, 0, p[:8], p[8:], true
	case 2:
		u, k = binary.Uvarint(p)
		if k <= 0 || u > uint64(len(p)-k) {
			return
		}
		return num, wt, 0, p[k : k+int(u)], p[k+int(u):], true
	case 5:
		if len(p) < 4 {
			return
		}
		return num, wt, 0, p[:4], p[4:], true
	}
	return num, wt, 0, nil, nil, false
}

func wellFormed(p []byte) Verdict {
	for len(p) > 0 {
		num, wt, _, _, rest, ok := next(p)
		if !ok {
			if wt == 3 || wt == 4 {
				return Unspecified
			}
			return Broken
		}
		// known metadata fields with another wire type: left open
		if num <= 12 && ((num == 1 || num >= 8) != (wt == 0) || (num >= 2 && num <= 7) != (wt == 2)) {
			return Unspecified
		}
		p = rest
	}
	return Answered
}

func hasField(p []byte, n int) bool {
	for len(p) > 0 {
		num, _, _, _, rest, ok := next(p)
		if !ok {
			return false
		}
		if num == n {
			return true
		}
		p = rest
	}
	return false
}

func decodeError(p []byte) (o Outcome, v Verdict) {
	o.Err = true
	var code, state, msg, odd bool
	for len(p) > 0 {
		num, wt, u, body, rest, ok := next(p)
		if !ok {
			if wt == 3 || wt == 4 {
				return o, Unspecified
			}
			if odd {
				return o, Unspecified
			}
			return o, Broken
		}
		p = rest
		switch {
		case num > 4 || num < 1:
		case (num <= 2) != (wt == 0) || (num >= 3) != (wt == 2):
			odd = true
		case num == 1:
			if u > 1 {
				odd = true
			}
			o.Severity = u
		case num == 2:
			if u > 1<<32-1 {
				odd = true
			}
			code, o.Code = true, uint32(u)
		case num == 3:
			msg, o.Msg = true, string(body)
		case num == 4:
			state, o.State = true, string(body)
		}
	}
	if odd {
		return o, Unspecified
	}
	if !code || !state || !msg {
		return o, Broken
	}
	return o, Answered
}
