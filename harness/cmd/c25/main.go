package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"xv/gen"
	"xv/rep"
	"xv/wire"

	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/xproto"
)

var r *rep.Run

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// behind calls f with a buffer of random contents and capacity (the spare part
// is dirty) and returns what it appended.
func behind(rng *rand.Rand, what string, f func(p []byte) ([]byte, error)) ([]byte, bool) {
	var p []byte
	n, spare := 0, 0
	switch rng.Intn(5) {
	case 0: // nil
	case 1:
		spare = rng.Intn(300)
	case 2:
		n = rng.Intn(200)
	case 3:
		n, spare = rng.Intn(400), gen.Size(rng, 40000)
	default:
		n, spare = rng.Intn(40), rng.Intn(60)
	}
	if n+spare > 0 {
		full := make([]byte, n+spare)
		rng.Read(full)
		if rng.Intn(2) == 0 {
			for i := range full {
				full[i] |= 0x80 // leftovers look like unfinished varints
			}
		}
		p = full[:n:len(full)]
	}
	was := bytes.Clone(p)
	var q []byte
	var err error
	desc := func() string { return fmt.Sprintf("%s, behind %d bytes with room for %d", cut(what), n, spare) }
	if !r.Guard(desc, func() { q, err = f(p) }) {
		return nil, false
	}
	if err != nil {
		r.Violation("%s: failed: %v", desc(), err)
		return nil, false
	}
	if len(q) < n || !bytes.Equal(q[:n], was) {
		r.Violation("%s: the buffer's earlier contents changed", desc())
		return nil, false
	}
	return q[n:], true
}

// message judges a function appending one message.
func message(rng *rand.Rand, what string, typ byte, want *wire.Node, f func(p []byte) ([]byte, error)) {
	b, ok := behind(rng, what, f)
	if !ok {
		return
	}
	r.EvalBytes(b)
	r.Count("messages", 1)
	fr, err := wire.Split(b)
	if err != nil || len(fr) != 1 || fr[0].Type != typ {
		r.Violation("%s: appended %s, not one message of type %d (%v)", cut(what), cut(fmt.Sprintf("%x", b)), typ, err)
		return
	}
	got, err := fr[0].Decode()
	if err != nil {
		r.Violation("%s: appended %s, which does not decode: %v", cut(what), cut(fmt.Sprintf("%x", b)), err)
		return
	}
	if d := wire.Diff(want, got); d != "" {
		r.Violation("%s: %s", cut(what), cut(d))
	}
}

// field judges a function appending one field numbered tag.
func field(rng *rand.Rand, what, schema string, want *wire.Node, f func(p []byte, tag uint8) ([]byte, error)) {
	tag := uint8(1 + rng.Intn(15))
	what = fmt.Sprintf("%s as field %d", what, tag)
	b, ok := behind(rng, what, func(p []byte) ([]byte, error) { return f(p, tag) })
	if !ok {
		return
	}
	r.EvalBytes(b)
	r.Count("fields", 1)
	if len(b) < 2 || b[0] != tag<<3|2 {
		r.Violation("%s: appended %s, not one length-delimited field of that number", cut(what), cut(fmt.Sprintf("%x", b)))
		return
	}
	n, k := binary.Uvarint(b[1:])
	if k <= 0 || n != uint64(len(b)-1-k) {
		r.Violation("%s: appended %s: length prefix %d, %d bytes follow", cut(what), cut(fmt.Sprintf("%x", b)), n, len(b)-1-k)
		return
	}
	got, err := wire.Decode(schema, b[1+k:])
	if err != nil {
		r.Violation("%s: appended %s, which does not decode: %v", cut(what), cut(fmt.Sprintf("%x", b)), err)
		return
	}
	if d := wire.Diff(want, got); d != "" {
		r.Violation("%s: %s", cut(what), cut(d))
	}
}

func scalar(v interface{}) *wire.Node {
	switch v := v.(type) {
	case nil:
		return wire.New("Scalar").U(1, wire.VNull)
	case bool:
		u := uint64(0)
		if v {
			u = 1
		}
		return wire.New("Scalar").U(1, wire.VBool).U(8, u)
	}
	panic("scalar")
}
func octets(b []byte, ct uint64) *wire.Node {
	return wire.New("Scalar").U(1, wire.VOctets).Sub(5, wire.New("Octets").B(1, b).U(2, ct))
}
func str(b []byte, coll uint64) *wire.Node {
	return wire.New("Scalar").U(1, wire.VString).Sub(9, wire.New("String").B(1, b).U(2, coll))
}
func asAny(s *wire.Node) *wire.Node  { return wire.New("Any").U(1, wire.AnyScalar).Sub(2, s) }
func asExpr(s *wire.Node) *wire.Node { return wire.New("Expr").U(1, wire.ExprLiteral).Sub(4, s) }

type anyer interface {
	AppendAny(p []byte, tag uint8) ([]byte, error)
}
type exprer interface {
	AppendExpr(p []byte, tag uint8) ([]byte, error)
}

// cond is a condition of an expectation.
type cond struct {
	c xproto.OpenCondition
	n *wire.Node
	d string
}

func noError(on bool) cond {
	v := "0"
	if on {
		v = "1"
	}
	return cond{xproto.OpenConditionExpectNoError(on), wire.New("Condition").U(1, 1).Str(2, v), fmt.Sprintf("no_error=%v", on)}
}

func exists(f string) cond {
	return cond{xproto.OpenConditionExpectFieldExists(f), wire.New("Condition").U(1, 2).Str(2, f), fmt.Sprintf("field_exists(%d bytes)", len(f))}
}

func open(rng *rand.Rand, cs ...cond) {
	op := xproto.OpenExpectCtxCopyPrev
	n := wire.New("Open")
	if rng.Intn(2) == 0 {
		op = xproto.OpenExpectCtxEmpty
		n.U(1, 1)
	} else {
		n.U(1, 0)
	}
	var xs []xproto.OpenCondition
	d := fmt.Sprintf("ExpectOpen(%d", op)
	for _, c := range cs {
		xs = append(xs, c.c)
		n.Sub(2, c.n)
		d += ", " + c.d
	}
	for k := 0; k < 1+rng.Intn(2); k++ { // conditions can be used again
		message(rng, d+")", wire.ExpectOpen, n, func(p []byte) ([]byte, error) { return xproto.ExpectOpen(p, op, xs...), nil })
	}
	r.Count("conditions", len(cs))
}

func main() {
	r = rep.Start("C25", "exploration", "the exported constructors of package xproto called directly behind buffers of every kind (nil, full, with clean and dirty spare room): session reset, capability set, expectation open with lists of conditions (field names of every length up to 300 and around each length-prefix boundary), expectation close, prepare/execute/deallocate, statements, deletes, and every argument, literal and expression encoder under every field number 1..15; the earlier contents must stay, and what was appended must be exactly one message or field that decodes to what was asked. Non-trivial: distinct appended bytes.")
	var lens []int
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	for n := 16384 - 24; n <= 16384+8; n++ {
		lens = append(lens, n)
	}
	for n := 2097152 - 16; n <= 2097152+4; n++ {
		lens = append(lens, n)
	}
	r.Each("lengths", len(lens), func(i int, rng *rand.Rand) {
		n := lens[i]
		s := string(gen.Raw(rng, n))
		d := fmt.Sprintf("(%d bytes)", n)
		open(rng, exists(s))
		if n < 20000 {
			open(rng, noError(true), exists(s), noError(false))
			open(rng, exists(s), exists(s+"x"), exists(""))
		}
		for _, on := range []bool{true, false} {
			on := on
			cap := wire.New("Capability").Str(1, s).Sub(2, asAny(scalar(on)))
			want := wire.New("CapabilitiesSet").Sub(1, wire.New("Capabilities").Sub(1, cap))
			message(rng, fmt.Sprintf("CapabilitySet%s %v", d, on), wire.CapabilitiesSet, want, func(p []byte) ([]byte, error) {
				b, err := xproto.CapabilitySet(s, on)
				return append(p, b...), err
			})
		}
		b := []byte(s)
		field(rng, "AppendExprVariable"+d, "Expr", gen.VarEx(s).N, func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprVariable(p, t, s) })
		field(rng, "AppendExprColumn"+d, "Expr", gen.ColumnEx(s).N, func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprColumn(p, t, s) })
		field(rng, "AppendExprOperator"+d, "Expr", gen.OpNode(s), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprOperator(p, t, s, nil) })
		field(rng, "AppendExprFunctionCall"+d, "Expr", gen.FuncNode(s), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprFunctionCall(p, t, s, nil) })
		for _, ct := range []xproto.ContentType{0, 1, 2, 3, 127, 128, 16383, 16384, 1<<32 - 1, xproto.ContentType(rng.Uint32())} {
			ct := ct
			if n > 20000 && ct > 3 {
				continue
			}
			dd := fmt.Sprintf("%s content type %d", d, ct)
			o := octets(b, uint64(ct))
			field(rng, "AppendAnyBytes"+dd, "Any", asAny(o), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendAnyBytes(p, t, b, ct), nil })
			field(rng, "AppendAnyBytesString"+dd, "Any", asAny(o), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendAnyBytesString(p, t, s, ct), nil })
			field(rng, "AppendExprBytes"+dd, "Expr", asExpr(o), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprBytes(p, t, b, ct), nil })
			field(rng, "AppendExprBytesString"+dd, "Expr", asExpr(o), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprBytesString(p, t, s, ct), nil })
		}
		for _, c := range []collation.Collation{0, 1, 63, 127, 128, 255, 16383, 16384, collation.Collation(gen.U64(rng))} {
			c := c
			if n > 20000 && c > 1 {
				continue
			}
			dd := fmt.Sprintf("%s collation %d", d, uint64(c))
			field(rng, "AppendAnyString"+dd, "Any", asAny(str(b, uint64(c))), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendAnyString(p, t, s, c), nil })
			field(rng, "AppendExprString"+dd, "Expr", asExpr(str(b, uint64(c))), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprString(p, t, s, c), nil })
		}
	})
	r.Each("small", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		keep := rng.Intn(2) == 0
		n := wire.New("Reset")
		if keep {
			n.U(1, 1)
		}
		message(rng, fmt.Sprintf("Reset(%v)", keep), wire.SessReset, n, func(p []byte) ([]byte, error) { return xproto.Reset(p, keep), nil })
		message(rng, "ExpectClose", wire.ExpectClose, wire.New("Close"), func(p []byte) ([]byte, error) { return xproto.ExpectClose(p), nil })
		var cs []cond
		for k := rng.Intn(6); k > 0; k-- {
			if rng.Intn(3) == 0 {
				cs = append(cs, noError(rng.Intn(2) == 0))
			} else {
				cs = append(cs, exists(string(gen.Raw(rng, gen.Size(rng, 600)))))
			}
		}
		if rng.Intn(200) == 0 {
			for k := 0; k < 3000; k++ {
				cs = append(cs, exists("f"+strings.Repeat("x", rng.Intn(20))))
			}
		}
		open(rng, cs...)
		// encoders of values and operands behind dirty buffers
		g := &gen.Gen{R: rng, Max: 400, Depth: 2}
		var params []gen.Ex
		var vals []interface{}
		for k := rng.Intn(5); k > 0; k-- {
			e := g.Operand(2)
			params = append(params, e)
			vals = append(vals, e.V)
		}
		name := string(gen.Raw(rng, gen.Size(rng, 300)))
		if rng.Intn(2) == 0 {
			field(rng, "AppendExprOperator", "Expr", gen.OpNode(name, params...), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprOperator(p, t, name, vals) })
			field(rng, "AppendExprOperatorV", "Expr", gen.OpNode(name, params...), func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprOperatorV(p, t, name, vals...) })
		} else {
			field(rng, "AppendExprFunctionCall", "Expr", gen.FuncNode(name, params...), func(p []byte, t uint8) ([]byte, error) {
				return xproto.AppendExprFunctionCall(p, t, name, vals)
			})
			field(rng, "AppendExprFunctionCallV", "Expr", gen.FuncNode(name, params...), func(p []byte, t uint8) ([]byte, error) {
				return xproto.AppendExprFunctionCallV(p, t, name, vals...)
			})
		}
		pos := uint32(gen.U64(rng))
		field(rng, fmt.Sprintf("AppendExprPlaceholder(%d)", pos), "Expr", gen.PlaceholderEx(pos).N, func(p []byte, t uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, t, pos) })
		field(rng, "AppendAnyBytes(nil)", "Any", asAny(scalar(nil)), func(p []byte, t uint8) ([]byte, error) {
			return xproto.AppendAnyBytes(p, t, nil, xproto.ContentType(rng.Intn(4))), nil
		})
		field(rng, "AppendExprBytes(nil)", "Expr", asExpr(scalar(nil)), func(p []byte, t uint8) ([]byte, error) {
			return xproto.AppendExprBytes(p, t, nil, xproto.ContentType(rng.Intn(4))), nil
		})
		dur := time.Duration(gen.U64(rng))
		if b, ok := behind(rng, fmt.Sprintf("AppendDuration(%d)", dur), func(p []byte) ([]byte, error) { return xproto.AppendDuration(p, dur), nil }); ok && string(b) != gen.DurText(dur) {
			r.Violation("AppendDuration(%d) appended %q, expected %q", dur, b, gen.DurText(dur))
		}
		// messages
		id := uint32(gen.U64(rng))
		var args []gen.Val
		var av []interface{}
		for k := rng.Intn(5); k > 0; k-- {
			v := gen.Arg(rng, 400)
			args = append(args, v)
			av = append(av, v.V)
		}
		stmt := wire.New("StmtExecute").Str(1, name)
		exec := wire.New("Execute").U(1, uint64(id))
		for _, a := range args {
			stmt.Sub(2, a.Any())
			exec.Sub(2, a.Any())
		}
		message(rng, "StmtExecute", wire.StmtExecute, stmt, func(p []byte) ([]byte, error) { return xproto.StmtExecute(p, name, av) })
		message(rng, fmt.Sprintf("Execute(%d)", id), wire.PrepareExecute, exec, func(p []byte) ([]byte, error) { return xproto.Execute(p, id, av) })
		prep := wire.New("Prepare").U(1, uint64(id)).Sub(2, wire.New("OneOfMessage").U(1, 5).Sub(6, wire.New("StmtExecute").Str(1, name)))
		message(rng, fmt.Sprintf("Prepare(%d)", id), wire.PreparePrepare, prep, func(p []byte) ([]byte, error) { return xproto.Prepare(p, id, name), nil })
		message(rng, fmt.Sprintf("Deallocate(%d)", id), wire.PrepareDeallocate, wire.New("Deallocate").U(1, uint64(id)), func(p []byte) ([]byte, error) { return xproto.Deallocate(p, id), nil })
		crit := g.Expr(2)
		del := gen.OpDelete(name, &crit)
		message(rng, del.D, wire.CrudDelete, del.Exp[0].N, func(p []byte) ([]byte, error) { return xproto.Delete(p, name, crit.F()) })
		all := gen.OpDelete(name, nil)
		message(rng, all.D, wire.CrudDelete, all.Exp[0].N, func(p []byte) ([]byte, error) { return xproto.Delete(p, name, nil) })
		// expressions and wrapped values as fields
		field(rng, crit.D, "Expr", crit.N, func(p []byte, t uint8) ([]byte, error) { return crit.F()(p, t) })
		raw := gen.Raw(rng, gen.Size(rng, 300))
		for _, v := range []gen.Val{gen.CStr(name, uint(gen.U64(rng)>>uint(rng.Intn(64)))), gen.JSON(raw), gen.XML(raw), gen.Geometry(raw), gen.JSONString(name), gen.XMLString(name), gen.JSON(nil), gen.XML(nil), gen.Geometry(nil)} {
			v := v
			field(rng, v.D, "Any", v.Any(), func(p []byte, t uint8) ([]byte, error) { return v.V.(anyer).AppendAny(p, t) })
			field(rng, v.D, "Expr", v.Expr(), func(p []byte, t uint8) ([]byte, error) { return v.V.(exprer).AppendExpr(p, t) })
		}
		if i < 3 {
			r.Sample("reset keep=%v; expectation with %d conditions; operator %q with %d operands; statement with %d arguments", keep, len(cs), cut(name), len(params), len(args))
		}
	})
	// every operator and function constructor under every field number
	r.Each("constructors", len(gen.Ctors)*20, func(i int, rng *rand.Rand) {
		g := &gen.Gen{R: rng, Max: 200, Depth: 1}
		c := gen.Ctors[i%len(gen.Ctors)]
		n := c.Arity
		if n < 0 {
			n = 1 + rng.Intn(6)
		}
		var a []gen.Ex
		for k := 0; k < n; k++ {
			a = append(a, g.Operand(1))
		}
		e := c.Apply(a)
		for k := 0; k < 3; k++ {
			field(rng, e.D, "Expr", e.N, func(p []byte, t uint8) ([]byte, error) { return e.F()(p, t) })
		}
		r.Count("constructors", 1)
	})
	r.Need("messages", 20000)
	r.Need("fields", 30000)
	r.Need("conditions", 3000)
	r.Finish()
}
