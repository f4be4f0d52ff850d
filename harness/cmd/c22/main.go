package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"xv/rep"

	"github.com/renthraysk/xtorm/types"
)

var r *rep.Run

// pack is the protocol's encoding, written independently: scale, two digits a
// byte, the sign in the nibble after the last digit, zero padding.
func pack(scale int, digits string, sign byte) []byte {
	b := []byte{byte(scale)}
	nib := []byte{}
	for i := range digits {
		nib = append(nib, digits[i]-'0')
	}
	nib = append(nib, sign)
	if len(nib)%2 == 1 {
		nib = append(nib, 0)
	}
	for i := 0; i < len(nib); i += 2 {
		b = append(b, nib[i]<<4|nib[i+1])
	}
	return b
}

// text reads a decimal numeral strictly.
func text(s string) (neg bool, v *big.Int, frac int, err string) {
	t := s
	if strings.HasPrefix(t, "-") {
		neg, t = true, t[1:]
	}
	ip, fp := t, ""
	if i := strings.IndexByte(t, '.'); i >= 0 {
		ip, fp = t[:i], t[i+1:]
		if fp == "" {
			return neg, nil, 0, "a point without fraction digits"
		}
	}
	if ip+fp == "" {
		return neg, nil, 0, "no digits"
	}
	for _, c := range ip + fp {
		if c < '0' || c > '9' {
			return neg, nil, 0, fmt.Sprintf("unexpected %q", c)
		}
	}
	v, _ = new(big.Int).SetString(ip+fp, 10)
	return neg, v, len(fp), ""
}

func judge(scale int, digits string, sign byte, rng *rand.Rand) {
	enc := pack(scale, digits, sign)
	want, _ := new(big.Int).SetString(digits, 10)
	negWant := sign == 0xB || sign == 0xD
	what := fmt.Sprintf("scale %d, digits %s, sign nibble %X (% x)", scale, digits, sign, enc)
	r.Guard(func() string { return what }, func() {
		// a larger array around the value, to see writes beyond it
		arr := make([]byte, len(enc)+16)
		rng.Read(arr)
		copy(arr, enc)
		before := append([]byte(nil), arr...)
		d := types.Decimal(arr[:len(enc)])
		s := d.String()
		if !bytes.Equal(arr, before) {
			r.Violation("%s: String modified the decimal", what)
		}
		var buf []byte
		if n := rng.Intn(40); n > 0 {
			buf = make([]byte, rng.Intn(n), n)
			rng.Read(buf)
		}
		form, neg, coef, exp := d.Decompose(buf)
		if !bytes.Equal(arr, before) {
			r.Violation("%s: Decompose modified the decimal", what)
		}
		if got := new(big.Int).SetBytes(coef); form != 0 || got.Cmp(want) != 0 || exp != int32(-scale) {
			r.Violation("%s: Decompose gave form %d, coefficient %s, exponent %d; expected form 0, %s, %d", what, form, got, exp, want, -scale)
		}
		if neg != negWant {
			r.Violation("%s: Decompose gave negative=%v", what, neg)
		}
		tn, tv, tf, e := text(s)
		switch {
		case e != "":
			r.Violation("%s: String gave %q: %s", what, s, e)
		case tv.Cmp(want) != 0 || tf != scale || tn != negWant && want.Sign() != 0:
			r.Violation("%s: String gave %q", what, s)
		}
		if s2 := d.String(); s2 != s {
			r.Violation("%s: String gave %q, then %q", what, s, s2)
		}
		r.EvalBytes(enc)
		if scale > len(digits) {
			r.Count("scale_above_digits", 1)
		} else if scale == len(digits) {
			r.Count("scale_equals_digits", 1)
		}
		r.Count("decimals", 1)
	})
}

func pattern(k, n int, rng *rand.Rand) string {
	b := make([]byte, n)
	for i := range b {
		switch k {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '9'
		case 2:
			b[i] = '0'
			if i == n-1 {
				b[i] = '1'
			}
		case 3:
			b[i] = '0'
			if i == 0 {
				b[i] = '1'
			}
		default:
			b[i] = '0' + byte(rng.Intn(10))
		}
	}
	return string(b)
}

func main() {
	r = rep.Start("C22", "exploration", "decimals packed by an independent encoder: every digit count 1..65 x every scale 0..255 x every sign nibble with zeros, nines, ones and random digits, all 1..4 digit values exhaustively, and the arithmetic limits of each word; String is re-read strictly and Decompose compared with arbitrary-precision arithmetic, and the surrounding memory is compared. Non-trivial: distinct encodings.")
	signs := []byte{0xC, 0xD, 0xF, 0xB, 0xA, 0xE}
	r.Each("grid", 65*256, func(i int, rng *rand.Rand) {
		n, scale := 1+i%65, i/65
		per := r.N(6, 40)
		for k := 0; k < per; k++ {
			for j, s := range signs {
				if j >= 2 && (scale > 70 && scale%17 != 0) {
					continue
				}
				judge(scale, pattern(k, n, rng), s, rng)
			}
		}
	})
	// all small values
	top := 9999
	r.Each("small", top+1, func(i int, rng *rand.Rand) {
		for w := 1; w <= 4; w++ {
			d := fmt.Sprintf("%0*d", w, i)
			for scale := 0; scale <= 6; scale++ {
				for _, s := range signs[:2] {
					judge(scale, d, s, rng)
				}
			}
		}
	})
	// around powers of two: the carries of the 256-bit accumulator
	r.Each("carries", 216, func(i int, rng *rand.Rand) {
		p := new(big.Int).Lsh(big.NewInt(1), uint(i))
		for d := int64(-3); d <= 3; d++ {
			v := new(big.Int).Add(p, big.NewInt(d))
			if v.Sign() < 0 || len(v.String()) > 65 {
				continue
			}
			for _, s := range signs {
				judge(rng.Intn(66), v.String(), s, rng)
				judge(rng.Intn(66), strings.Repeat("0", rng.Intn(66-len(v.String())))+v.String(), s, rng)
			}
		}
	})
	r.Each("random", r.N(200000, 20000000), func(i int, rng *rand.Rand) {
		judge(rng.Intn(40), pattern(9, 1+rng.Intn(65), rng), signs[rng.Intn(6)], rng)
	})
	r.Sample("scale 2, digits 12345, sign nibble D: % x", pack(2, "12345", 0xD))
	r.Sample("scale 30, digits 1, sign nibble C: % x", pack(30, "1", 0xC))
	r.Need("decimals", 300000)
	r.Need("scale_above_digits", 10000)
	// the 256-bit accumulator
	mod := new(big.Int).Lsh(big.NewInt(1), 256)
	r.Each("accumulate", r.N(60000, 4000000), func(i int, rng *rand.Rand) {
		u := func() uint64 {
			switch rng.Intn(6) {
			case 0:
				return 0
			case 1:
				return 1<<64 - 1 - uint64(rng.Intn(3))
			case 2:
				return 1 << uint(rng.Intn(64))
			case 3:
				return uint64(rng.Intn(20))
			}
			return rng.Uint64()
		}
		x := types.Uint256{u(), u(), u(), u()}
		big256 := func(x types.Uint256) *big.Int {
			b := new(big.Int)
			for k := 3; k >= 0; k-- {
				b.Or(b.Lsh(b, 64), new(big.Int).SetUint64(x[k]))
			}
			return b
		}
		for k := 1 + rng.Intn(4); k > 0; k-- {
			y, z := u(), u()
			if rng.Intn(2) == 0 {
				y, z = 10, uint64(rng.Intn(10))
			}
			was := x
			want := big256(x)
			want.Add(want.Mul(want, new(big.Int).SetUint64(y)), new(big.Int).SetUint64(z))
			over, rest := new(big.Int).DivMod(want, mod, new(big.Int))
			what := func() string { return fmt.Sprintf("%x*%d+%d", was, y, z) }
			var c uint64
			if !r.Guard(what, func() { c = x.MulAdd(y, z) }) {
				return
			}
			if big256(x).Cmp(rest) != 0 || new(big.Int).SetUint64(c).Cmp(over) != 0 {
				r.Violation("%s: %x carry %d, expected %x carry %d", what(), x, c, rest, over)
				return
			}
			buf := make([]byte, rng.Intn(6), 6+rng.Intn(60))
			rng.Read(buf)
			pre := append([]byte(nil), buf...)
			var b []byte
			r.Guard(what, func() { b = x.AppendBytes(buf) })
			if !bytes.HasPrefix(b, pre) || len(b) == len(pre) || new(big.Int).SetBytes(b[len(pre):]).Cmp(rest) != 0 {
				r.Violation("AppendBytes of %x behind %x gave %x", x, pre, b)
			}
			if n := len(b) - len(pre); n > 1 && b[len(pre)] == 0 {
				r.Violation("AppendBytes of %x has leading zeros: %x", x, b[len(pre):])
			}
			r.Count("accumulations", 1)
		}
		r.Eval(fmt.Sprint("acc", x))
	})
	r.Finish()
}
