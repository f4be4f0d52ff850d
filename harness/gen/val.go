// Package gen generates Go values, expressions and whole units of work
// together with the message trees they have to be delivered as. The expected
// trees are computed here from the arguments alone, never from the library.
package gen

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"time"

	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"
)

// Val is a Go value with the scalar it has to arrive as.
type Val struct {
	V interface{}
	S *wire.Node // Scalar
	D string
}

func (v Val) Any() *wire.Node  { return wire.New("Any").U(1, wire.AnyScalar).Sub(2, v.S) }
func (v Val) Expr() *wire.Node { return wire.New("Expr").U(1, wire.ExprLiteral).Sub(4, v.S) }

func scalar(t uint64) *wire.Node { return wire.New("Scalar").U(1, t) }

func sSint(x int64) *wire.Node  { return scalar(wire.VSint).U(2, uint64(x)) }
func sUint(x uint64) *wire.Node { return scalar(wire.VUint).U(3, x) }
func sNull() *wire.Node         { return scalar(wire.VNull) }
func sOctets(b []byte, ct uint64) *wire.Node {
	return scalar(wire.VOctets).Sub(5, wire.New("Octets").B(1, b).U(2, ct))
}
func sString(b []byte, coll uint64) *wire.Node {
	return scalar(wire.VString).Sub(9, wire.New("String").B(1, b).U(2, coll))
}

const (
	ctGeometry = 1
	ctJSON     = 2
	ctXML      = 3
)

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Null etc. build single values of each kind.
func Null() Val         { return Val{nil, sNull(), "nil"} }
func Int8(x int8) Val   { return Val{x, sSint(int64(x)), fmt.Sprintf("int8(%d)", x)} }
func Int16(x int16) Val { return Val{x, sSint(int64(x)), fmt.Sprintf("int16(%d)", x)} }
func Int32(x int32) Val { return Val{x, sSint(int64(x)), fmt.Sprintf("int32(%d)", x)} }
func Int64(x int64) Val { return Val{x, sSint(x), fmt.Sprintf("int64(%d)", x)} }
func Int(x int) Val     { return Val{x, sSint(int64(x)), fmt.Sprintf("int(%d)", x)} }

func Uint8(x uint8) Val   { return Val{x, sUint(uint64(x)), fmt.Sprintf("uint8(%d)", x)} }
func Uint16(x uint16) Val { return Val{x, sUint(uint64(x)), fmt.Sprintf("uint16(%d)", x)} }
func Uint32(x uint32) Val { return Val{x, sUint(uint64(x)), fmt.Sprintf("uint32(%d)", x)} }
func Uint64(x uint64) Val { return Val{x, sUint(x), fmt.Sprintf("uint64(%d)", x)} }
func Uint(x uint) Val     { return Val{x, sUint(uint64(x)), fmt.Sprintf("uint(%d)", x)} }

func Bool(x bool) Val {
	u := uint64(0)
	if x {
		u = 1
	}
	return Val{x, scalar(wire.VBool).U(8, u), fmt.Sprint(x)}
}
func F32(bits uint32) Val {
	return Val{math.Float32frombits(bits), scalar(wire.VFloat).U(7, uint64(bits)), fmt.Sprintf("float32(%#x)", bits)}
}
func F64(bits uint64) Val {
	return Val{math.Float64frombits(bits), scalar(wire.VDouble).U(6, bits), fmt.Sprintf("float64(%#x)", bits)}
}
func Str(s string) Val {
	return Val{s, sString([]byte(s), 0), "string " + short([]byte(s))}
}
func CStr(s string, c uint) Val {
	return Val{xtorm.String{Value: s, Collation: collation.Collation(c)}, sString([]byte(s), uint64(c)), fmt.Sprintf("String{%s,%d}", short([]byte(s)), c)}
}
func Bytes(b []byte) Val {
	if b == nil {
		return Val{b, sNull(), "[]byte(nil)"}
	}
	return Val{b, sOctets(b, 0), "[]byte " + short(b)}
}
func JSON(b []byte) Val {
	if b == nil {
		return Val{xtorm.JSON(b), sNull(), "JSON(nil)"}
	}
	return Val{xtorm.JSON(b), sOctets(b, ctJSON), "JSON " + short(b)}
}
func XML(b []byte) Val {
	if b == nil {
		return Val{xtorm.XML(b), sNull(), "XML(nil)"}
	}
	return Val{xtorm.XML(b), sOctets(b, ctXML), "XML " + short(b)}
}
func Geometry(b []byte) Val {
	if b == nil {
		return Val{xtorm.Geometry(b), sNull(), "Geometry(nil)"}
	}
	return Val{xtorm.Geometry(b), sOctets(b, ctGeometry), "Geometry " + short(b)}
}
func JSONString(s string) Val {
	return Val{xtorm.JSONString(s), sOctets([]byte(s), ctJSON), "JSONString " + short([]byte(s))}
}
func XMLString(s string) Val {
	return Val{xtorm.XMLString(s), sOctets([]byte(s), ctXML), "XMLString " + short([]byte(s))}
}

// TimeText is the wall-clock text a time has to arrive as.
func TimeText(t time.Time) string {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	if y < 0 {
		return "-" + fmt.Sprintf("%04d", -y) + fmt.Sprintf("-%02d-%02d %02d:%02d:%02d.%09d", int(mo), d, h, mi, s, t.Nanosecond())
	}
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%09d", y, int(mo), d, h, mi, s, t.Nanosecond())
}

func Time(t time.Time) Val {
	return Val{t, sOctets([]byte(TimeText(t)), 0), "time " + TimeText(t)}
}

// DurText is the [-]H:MM:SS text of a duration.
func DurText(d time.Duration) string {
	neg := d < 0
	s := uint64(d)
	if neg {
		s = -s
	}
	s /= 1000000000
	r := strconv.FormatUint(s/3600, 10) + fmt.Sprintf(":%02d:%02d", s/60%60, s%60)
	if neg {
		r = "-" + r
	}
	return r
}

func Dur(d time.Duration) Val {
	want := DurText(d)
	oct := wire.New("Octets").Match(1, func(b []byte) string {
		if string(b) == want || (want == "-0:00:00" && string(b) == "0:00:00") {
			return ""
		}
		return fmt.Sprintf("got %q, want %q", b, want)
	})
	return Val{d, scalar(wire.VOctets).Sub(5, oct), "duration " + want}
}

// Custom is a caller-defined value: both interfaces, value receiver.
type Custom struct{ S string }

func (c Custom) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 2, c.S)...), nil
}
func (c Custom) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 4, c.S)...), nil
}

// rawLit encodes {type:1|2, field: Scalar string} without the library.
func rawLit(tag uint8, num int, s string) []byte {
	str := wire.AppendBytes(nil, 1, []byte(s))
	sc := wire.AppendBytes(wire.AppendVar(nil, 1, wire.VString), 9, str)
	t := uint64(wire.AnyScalar)
	if num == 4 {
		t = wire.ExprLiteral
	}
	any := wire.AppendBytes(wire.AppendVar(nil, 1, t), num, sc)
	return wire.AppendBytes(nil, int(tag), any)
}

// Caller-defined values of other kinds: pointer receiver, string, slice, map, function.
type (
	CustomPtr   struct{ S string }
	CustomStr   string
	CustomBytes []byte
	CustomMap   map[string]bool
	CustomFunc  func() string
)

func (c *CustomPtr) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 2, c.S)...), nil
}
func (c *CustomPtr) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 4, c.S)...), nil
}
func (c CustomStr) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 2, string(c))...), nil
}
func (c CustomStr) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 4, string(c))...), nil
}
func (c CustomBytes) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 2, string(c))...), nil
}
func (c CustomBytes) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 4, string(c))...), nil
}
func (c CustomMap) one() string {
	for k := range c {
		return k
	}
	return ""
}
func (c CustomMap) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 2, c.one())...), nil
}
func (c CustomMap) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 4, c.one())...), nil
}
func (c CustomFunc) AppendAny(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 2, c())...), nil
}
func (c CustomFunc) AppendExpr(p []byte, tag uint8) ([]byte, error) {
	return append(p, rawLit(tag, 4, c())...), nil
}

// CustomVal is a caller-defined value of a kind that depends on s.
func CustomVal(s string) Val {
	var v interface{} = Custom{s}
	k := len(s)
	for i := 0; i < len(s) && i < 8; i++ {
		k += int(s[i])
	}
	switch k % 8 {
	case 1:
		v = &Custom{s}
	case 2:
		v = &CustomPtr{s}
	case 3:
		v = CustomStr(s)
	case 4:
		v = CustomBytes(append([]byte{}, s...))
	case 5:
		v = CustomMap{s: true}
	case 6:
		v = CustomFunc(func() string { return s })
	}
	return Val{v, sString([]byte(s), 0), fmt.Sprintf("%T %s", v, short([]byte(s)))}
}

var _ xproto.AppendAny = Custom{}
var _ xproto.AppendExpr = Custom{}

// Size draws a length, concentrated on the 1/2/3-byte varint boundaries.
func Size(r *rand.Rand, max int) int {
	n := 0
	switch k := r.Intn(100); {
	case k < 55:
		n = r.Intn(20)
	case k < 85:
		n = 128 - 66 + r.Intn(80)
	case k < 90:
		n = r.Intn(2000)
	case k < 98:
		n = 16384 - 76 + r.Intn(90)
	default:
		n = r.Intn(40000)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

// Raw draws n bytes.
func Raw(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // high bytes: every byte looks like an unfinished varint
		for i := range b {
			b[i] = 0x80 | byte(r.Intn(128))
		}
	case 2:
		c := []byte{0, 0xff, 0x7f, 0x80, 'a', '\n', '\'', '\\'}[r.Intn(8)]
		for i := range b {
			b[i] = c
		}
	default:
		const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-%'\"`;"
		for i := range b {
			b[i] = al[r.Intn(len(al))]
		}
	}
	return b
}

// U64 draws an integer, concentrated around powers of two and varint sizes.
func U64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(300))
	case 1:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	case 2:
		return r.Uint64() >> uint(r.Intn(64))
	default:
		return -uint64(r.Intn(300))
	}
}

var zones = []*time.Location{time.UTC, time.Local, time.FixedZone("a", 5*3600+1800), time.FixedZone("b", -12*3600), time.FixedZone("c", 14*3600), time.FixedZone("d", -(3*3600 + 7)), time.FixedZone("", 3599)}

func randTime(r *rand.Rand) time.Time {
	switch r.Intn(8) {
	case 0:
		return time.Time{}
	case 6: // with a monotonic clock reading
		return time.Now().Add(time.Duration(r.Int63n(1e15))).In(zones[r.Intn(len(zones))])
	case 7: // beyond four digits
		return time.Date([]int{-1, 0, 10000, 10000, -r.Intn(30000), 9999 + r.Intn(90000), 1 << 30}[r.Intn(7)], time.Month(r.Intn(12)+1), r.Intn(31)+1, r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), zones[r.Intn(len(zones))])
	case 1:
		return time.Unix(r.Int63n(4102444800), r.Int63n(1e9)).In(zones[r.Intn(len(zones))])
	case 2:
		return time.Date(r.Intn(9998)+1, time.Month(r.Intn(12)+1), r.Intn(31)+1, r.Intn(24), r.Intn(60), r.Intn(60), []int{0, 1, 999999999, 1000, 999999, 1000000, 100000000}[r.Intn(7)], zones[r.Intn(len(zones))])
	case 3: // day boundaries
		return time.Date(r.Intn(9998)+1, time.Month(r.Intn(12)+1), 1, 0, 0, 0, 0, zones[r.Intn(len(zones))]).Add(-time.Duration(r.Intn(2)))
	case 4:
		return time.Date(r.Intn(9999)+1, 2, 29, 23, 59, 59, 999999999, time.UTC)
	default:
		return time.Unix(r.Int63n(1<<31), 0).UTC().Add(time.Duration(r.Int63n(1e9)))
	}
}

func randDur(r *rand.Rand) time.Duration {
	switch r.Intn(5) {
	case 0:
		return time.Duration(int64(U64(r)))
	case 1:
		return (time.Duration(r.Intn(2000001)-1000000)*time.Second + time.Duration(r.Intn(3)-1)) % math.MaxInt64
	case 2:
		u := []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour, 838*time.Hour + 59*time.Minute + 59*time.Second, 100 * time.Hour, 10 * time.Hour}[r.Intn(7)]
		return time.Duration(r.Intn(5)-2)*u + time.Duration(r.Intn(5)-2)
	case 3:
		return []time.Duration{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 0, -1, 1}[r.Intn(6)]
	default:
		return time.Duration(r.Int63()) - time.Duration(r.Int63())
	}
}

// Collation ids: everything MySQL has and everything the type can hold.
func randColl(r *rand.Rand) uint {
	switch r.Intn(3) {
	case 0:
		return uint(r.Intn(310))
	case 1:
		return uint(U64(r))
	default:
		return []uint{0, 1, 63, 127, 128, 255, 256, 16383, 16384, math.MaxUint32, math.MaxUint}[r.Intn(11)]
	}
}

// Lit draws a literal valid both as an argument and inside an expression.
func Lit(r *rand.Rand, max int) Val {
	switch r.Intn(26) {
	case 0:
		return Null()
	case 1:
		return Int8(int8(U64(r)))
	case 2:
		return Int16(int16(U64(r)))
	case 3:
		return Int32(int32(U64(r)))
	case 4:
		return Int64(int64(U64(r)))
	case 5:
		return Int(int(U64(r)))
	case 6:
		return Uint8(uint8(U64(r)))
	case 7:
		return Uint16(uint16(U64(r)))
	case 8:
		return Uint32(uint32(U64(r)))
	case 9:
		return Uint64(U64(r))
	case 10:
		return Uint(uint(U64(r)))
	case 11:
		return Bool(r.Intn(2) == 0)
	case 12:
		return F32(randF32(r))
	case 13:
		return F64(randF64(r))
	case 14:
		return Time(randTime(r))
	case 15:
		return Dur(randDur(r))
	case 16:
		return CStr(string(Raw(r, Size(r, max))), randColl(r))
	case 17:
		return JSON(Raw(r, Size(r, max)))
	case 18:
		return XML(Raw(r, Size(r, max)))
	case 19:
		return Geometry(Raw(r, Size(r, max)))
	case 20:
		return JSONString(string(Raw(r, Size(r, max))))
	case 21:
		return XMLString(string(Raw(r, Size(r, max))))
	case 22:
		switch r.Intn(6) {
		case 0:
			return Bytes(nil)
		case 1:
			return JSON(nil)
		case 2:
			return XML(nil)
		case 3:
			return Geometry(nil)
		case 4:
			return Bytes([]byte{})
		default:
			return JSON([]byte{})
		}
	case 23:
		if r.Intn(3) > 0 {
			return ptrWrapper(r, max)
		}
		return CustomVal(string(Raw(r, Size(r, max))))
	case 24:
		return Bytes(Raw(r, Size(r, max)))
	default:
		return Str(string(Raw(r, Size(r, max))))
	}
}

// ptrWrapper: pointers to value wrappers implement the append interfaces too,
// and a nil one is NULL.
func ptrWrapper(r *rand.Rand, max int) Val {
	if r.Intn(3) == 0 {
		return Val{(*xtorm.String)(nil), sNull(), "(*String)(nil)"}
	}
	v := CStr(string(Raw(r, Size(r, max))), randColl(r))
	s := v.V.(xtorm.String)
	return Val{&s, v.S, "&" + v.D}
}

func randF32(r *rand.Rand) uint32 {
	sp := []float32{0, float32(math.Copysign(0, -1)), 1, -1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1 << 24, 0.1}
	switch r.Intn(3) {
	case 0:
		return math.Float32bits(sp[r.Intn(len(sp))])
	case 1:
		// quiet NaNs keep their payload when copied; signalling ones may not on
		// some FPUs, so exponents of all ones always carry the quiet bit.
		b := r.Uint32()
		if b&0x7f800000 == 0x7f800000 {
			b |= 0x00400000
		}
		return b
	default:
		return math.Float32bits(float32(r.NormFloat64()))
	}
}

func randF64(r *rand.Rand) uint64 {
	sp := []float64{0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 0.1, math.MaxFloat32}
	switch r.Intn(3) {
	case 0:
		return math.Float64bits(sp[r.Intn(len(sp))])
	case 1:
		return r.Uint64()
	default:
		return math.Float64bits(r.NormFloat64())
	}
}

// Arg draws a statement argument: a literal, or a pointer (of some depth) to one.
func Arg(r *rand.Rand, max int) Val {
	if r.Intn(4) > 0 {
		return Lit(r, max)
	}
	return Ptr(r, max)
}

// Ptr draws a pointer argument.
func Ptr(r *rand.Rand, max int) Val {
	switch r.Intn(24) {
	case 0:
		x := int(U64(r))
		return Val{&x, sSint(int64(x)), fmt.Sprintf("*int %d", x)}
	case 1:
		x := int8(U64(r))
		return Val{&x, sSint(int64(x)), fmt.Sprintf("*int8 %d", x)}
	case 2:
		x := int16(U64(r))
		return Val{&x, sSint(int64(x)), fmt.Sprintf("*int16 %d", x)}
	case 3:
		x := int32(U64(r))
		return Val{&x, sSint(int64(x)), fmt.Sprintf("*int32 %d", x)}
	case 4:
		x := int64(U64(r))
		return Val{&x, sSint(x), fmt.Sprintf("*int64 %d", x)}
	case 5:
		x := uint(U64(r))
		return Val{&x, sUint(uint64(x)), fmt.Sprintf("*uint %d", x)}
	case 6:
		x := uint8(U64(r))
		return Val{&x, sUint(uint64(x)), fmt.Sprintf("*uint8 %d", x)}
	case 7:
		x := uint16(U64(r))
		return Val{&x, sUint(uint64(x)), fmt.Sprintf("*uint16 %d", x)}
	case 8:
		x := uint32(U64(r))
		return Val{&x, sUint(uint64(x)), fmt.Sprintf("*uint32 %d", x)}
	case 9:
		x := U64(r)
		return Val{&x, sUint(x), fmt.Sprintf("*uint64 %d", x)}
	case 10:
		x := r.Intn(2) == 0
		return Val{&x, Bool(x).S, fmt.Sprintf("*bool %v", x)}
	case 11:
		x := math.Float32frombits(randF32(r))
		return Val{&x, F32(math.Float32bits(x)).S, fmt.Sprintf("*float32 %v", x)}
	case 12:
		x := math.Float64frombits(randF64(r))
		return Val{&x, F64(math.Float64bits(x)).S, fmt.Sprintf("*float64 %v", x)}
	case 13:
		x := string(Raw(r, Size(r, max)))
		return Val{&x, Str(x).S, "*" + Str(x).D}
	case 14:
		x := Raw(r, Size(r, max))
		return Val{&x, Bytes(x).S, "*" + Bytes(x).D}
	case 15:
		x := randTime(r)
		return Val{&x, Time(x).S, "*" + Time(x).D}
	case 16:
		x := randDur(r)
		return Val{&x, Dur(x).S, "*" + Dur(x).D}
	case 17:
		switch r.Intn(8) {
		case 0:
			return Val{(*int)(nil), sNull(), "(*int)(nil)"}
		case 1:
			return Val{(*string)(nil), sNull(), "(*string)(nil)"}
		case 2:
			return Val{(*[]byte)(nil), sNull(), "(*[]byte)(nil)"}
		case 3:
			return Val{(*time.Time)(nil), sNull(), "(*time.Time)(nil)"}
		case 4:
			return Val{(*uint64)(nil), sNull(), "(*uint64)(nil)"}
		case 5:
			return Val{(*float64)(nil), sNull(), "(*float64)(nil)"}
		case 6:
			return Val{(*bool)(nil), sNull(), "(*bool)(nil)"}
		default:
			return Val{(*time.Duration)(nil), sNull(), "(*time.Duration)(nil)"}
		}
	case 18:
		x := int64(U64(r))
		p := &x
		return Val{&p, sSint(x), fmt.Sprintf("**int64 %d", x)}
	case 19:
		var p *int64
		return Val{&p, sNull(), "**int64 -> nil"}
	case 20:
		var b []byte
		return Val{&b, sNull(), "*[]byte -> nil"}
	case 21:
		v := Lit(r, max)
		x := v.V
		return Val{&x, v.S, "*interface{} " + v.D}
	case 22:
		x := xtorm.JSONString(string(Raw(r, Size(r, max))))
		return Val{&x, sOctets([]byte(x), ctJSON), "*JSONString"}
	default:
		return ptrWrapper(r, max)
	}
}

// Clone deep-copies the caller-visible data of a value so that a later change
// of the original can be noticed.
func Clone(v interface{}) interface{} {
	if b, ok := v.([]byte); ok && b != nil {
		return bytes.Clone(b)
	}
	return v
}
