package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"reflect"

	"xv/enc"
	"xv/gen"
	"xv/rep"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/xproto"
)

var bg = context.Background()

func send(x *xtorm.XPipe) ([]byte, error) {
	var s gen.Recorder
	_, err := x.Send(bg, &s)
	return s.B, err
}

func where(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 8
	if lo < 0 {
		lo = 0
	}
	cut := func(x []byte) []byte {
		if lo > len(x) {
			return nil
		}
		x = x[lo:]
		if len(x) > 40 {
			x = x[:40]
		}
		return x
	}
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d: %x vs %x", len(a), len(b), i, cut(a), cut(b))
}

func clip(p *gen.Prog) string {
	d := p.String()
	if len(d) > 2500 {
		d = d[:2500] + "..."
	}
	return d
}

type failing struct{}

func (failing) AppendAny(p []byte, tag uint8) ([]byte, error)  { return p, fmt.Errorf("failing") }
func (failing) AppendExpr(p []byte, tag uint8) ([]byte, error) { return nil, fmt.Errorf("failing") }

func main() {
	r := rep.Start("C07", "exploration", "each random program is run on a fresh pipe of capacity 0 and compared byte for byte with itself on pipes of other capacities (every capacity for small programs), on pipes reused after Reset with dirty contents and failed histories, and with a Send after every call (earlier bytes must stay a prefix); all caller data is snapshotted, checked unmodified, then overwritten before the final Send. Non-trivial: distinct buffer contents.")

	build := func(p *gen.Prog, n int) ([]byte, error) {
		x := xtorm.New(n)
		p.Run(&x.Builder)
		return send(x)
	}

	// capacities
	caps := func(family string, n, max int, every bool) {
		r.Each(family, n, func(i int, rng *rand.Rand) {
			p := gen.Program(rng, max, 2, 5, false)
			if i < 2 {
				r.Sample("%s", p)
			}
			base, err := build(p, 0)
			if err != nil {
				r.Violation("valid program fails: %v\ncalls: %s", err, clip(p))
				return
			}
			r.EvalBytes(base)
			var cs []int
			if every && len(base) < 3000 {
				for c := 1; c <= len(base)+16; c++ {
					cs = append(cs, c)
				}
			} else {
				for k := 0; k < 12; k++ {
					cs = append(cs, rng.Intn(len(base)+64))
				}
				cs = append(cs, len(base)-1, len(base), len(base)+1, 2*len(base), 1<<17)
			}
			for _, c := range cs {
				if c < 0 {
					continue
				}
				b, err := build(p, c)
				r.Count("capacity_runs", 1)
				if err != nil || !bytes.Equal(b, base) {
					r.Violation("capacity %d changes the bytes sent (err %v): %s\ncalls: %s", c, err, where(base, b), clip(p))
					return
				}
			}
		})
	}
	caps("caps-every", r.N(250, 6000), 60, true)
	caps("caps-large", r.N(800, 20000), 20000, false)

	// reuse: any history, Reset, then the program
	r.Each("reuse", r.N(2500, 60000), func(i int, rng *rand.Rand) {
		p := gen.Program(rng, 600, 2, 5, false)
		base, err := build(p, 0)
		if err != nil {
			r.Violation("valid program fails: %v\ncalls: %s", err, clip(p))
			return
		}
		r.EvalBytes(base)
		x := xtorm.New(enc.Cap(rng))
		for k := 1 + rng.Intn(4); k > 0; k-- {
			switch rng.Intn(6) {
			case 0: // failed argument
				x.StmtExecute("bad", 1, struct{}{})
			case 1: // failed row
				x.Insert("t", []string{"a"}, [][]interface{}{{1}, {1, 2}})
			case 2: // failed expression losing the buffer
				x.Delete("t", xtorm.Eq(failing{}, 1))
			case 3: // high bytes everywhere: dirty capacity looks like unfinished varints
				x.StmtExecute(string(bytes.Repeat([]byte{0xff}, rng.Intn(4096))))
			case 4: // a history large enough for any policy about keeping buffers to kick in
				if rng.Intn(6) > 0 {
					break
				}
				for left := 1 << uint(12+rng.Intn(11)); left > 0; left -= 60000 {
					n := left
					if n > 60000 && rng.Intn(2) == 0 {
						n = 60000
					}
					x.Insert("t", []string{"a"}, [][]interface{}{{bytes.Repeat([]byte{0xa5}, n)}})
					if n == left {
						break
					}
				}
				r.Count("large_histories", 1)
			default:
				q := gen.Program(rng, 3000, 2, 6, true)
				q.Run(&x.Builder)
			}
			if rng.Intn(2) == 0 {
				send(x)
			}
			x.Reset()
			if rng.Intn(8) == 0 {
				x.Reset()
			}
			p.Run(&x.Builder)
			b, err := send(x)
			r.Count("reuse_runs", 1)
			if err != nil || !bytes.Equal(b, base) {
				r.Violation("a reused pipe sends other bytes (err %v): %s\ncalls: %s", err, where(base, b), clip(p))
				return
			}
			x.Reset()
		}
	})

	// one pipe for a long time
	r.Each("life", r.N(8, 64), func(i int, rng *rand.Rand) {
		var ps []*gen.Prog
		var base [][]byte
		for k := 0; k < 20; k++ {
			p := gen.Program(rng, []int{40, 300, 3000}[k%3], 2, 4, false)
			b, err := build(p, 0)
			if err != nil {
				r.Violation("valid program fails: %v\ncalls: %s", err, clip(p))
				return
			}
			ps, base = append(ps, p), append(base, b)
		}
		x := xtorm.New(enc.Cap(rng))
		n := r.N(3000, 20000)
		for k := 0; k < n; k++ {
			j := rng.Intn(len(ps))
			ps[j].Run(&x.Builder)
			b, err := send(x)
			if err != nil || !bytes.Equal(b, base[j]) {
				r.Violation("unit of work %d of one pipe: it sends other bytes than a new one (err %v): %s\ncalls: %s", k, err, where(base[j], b), clip(ps[j]))
				return
			}
			x.Reset()
			if i%2 == 1 && rng.Intn(3) == 0 {
				x.StmtExecute("bad", struct{}{})
				x.Reset()
			}
			r.Count("units_of_one_pipe", 1)
		}
	})
	r.Need("units_of_one_pipe", 20000)

	// prefix stability
	r.Each("prefix", r.N(2500, 60000), func(i int, rng *rand.Rand) {
		p := gen.Program(rng, 2000, 2, 10, false)
		base, _ := build(p, 0)
		r.EvalBytes(base)
		x := xtorm.New(enc.Cap(rng))
		var prev, alias []byte
		for k, op := range p.Ops {
			op.Do(&x.Builder)
			var s gen.Recorder
			x.Send(bg, &s)
			r.Count("prefix_sends", 1)
			if !bytes.HasPrefix(s.B, prev) {
				r.Violation("call %d changed messages recorded before it: %s\ncalls: %s", k, where(prev, s.B), clip(p))
				return
			}
			if !bytes.Equal(alias, prev) {
				r.Violation("call %d changed the bytes an earlier Send was given: %s\ncalls: %s", k, where(prev, alias), clip(p))
				return
			}
			prev, alias = s.B, s.Raw
		}
		if !bytes.Equal(prev, base) {
			r.Violation("sending in between changes the bytes sent: %s\ncalls: %s", where(base, prev), clip(p))
		}
	})

	// caller data
	r.Each("inputs", r.N(3000, 60000), func(i int, rng *rand.Rand) { inputs(r, i, rng) })
	r.Finish()
}

// inputs drives every entry point with caller-owned mutable data.
func inputs(r *rep.Run, i int, rng *rand.Rand) {
	byteSlice := func() []byte {
		n := rng.Intn(40)
		if rng.Intn(6) == 0 {
			n = gen.Size(rng, 20000)
		}
		spare := rng.Intn(64)
		switch rng.Intn(8) {
		case 0:
			spare = n + rng.Intn(600)
		case 1:
			spare = 0
		}
		if rng.Intn(40) == 0 { // far more room behind the value than encoding it takes
			n = rng.Intn(1 << uint(6+rng.Intn(13)))
			spare = rng.Intn(6*n + 100)
		}
		b := gen.Raw(rng, n+spare)
		return b[: n : n+spare] // spare capacity holds the caller's own data
	}
	var owned [][]byte // full extent of every byte slice handed over
	val := func() interface{} {
		switch rng.Intn(7) {
		case 0:
			b := byteSlice()
			owned = append(owned, b[:cap(b)])
			return b
		case 1:
			b := byteSlice()
			owned = append(owned, b[:cap(b)])
			return xtorm.JSON(b)
		case 2:
			b := byteSlice()
			owned = append(owned, b[:cap(b)])
			return xtorm.XML(b)
		case 3:
			b := byteSlice()
			owned = append(owned, b[:cap(b)])
			return xtorm.Geometry(b)
		case 4:
			return rng.Intn(100000)
		case 5:
			return string(gen.Raw(rng, rng.Intn(50)))
		default:
			return nil
		}
	}
	row := func(n int) []interface{} {
		a := make([]interface{}, n+4)
		for i := range a {
			a[i] = val()
		}
		return a[:n] // spare capacity again
	}
	w := 1 + rng.Intn(4)
	cols := make([]string, w+3)
	for i := range cols {
		cols[i] = string(gen.Raw(rng, rng.Intn(12)))
	}
	cols = cols[:w]
	data := make([][]interface{}, 1+rng.Intn(3))
	for i := range data {
		data[i] = row(w)
	}
	args := row(rng.Intn(5))
	list := row(1 + rng.Intn(4))
	set := map[string]interface{}{"k": val()}
	uval := val()

	type snap struct {
		cols []string
		data [][]interface{}
		args []interface{}
		list []interface{}
		set  map[string]interface{}
	}
	deep := func(a []interface{}) []interface{} {
		a = a[:cap(a)]
		c := make([]interface{}, len(a))
		for i := range a {
			switch v := a[i].(type) {
			case []byte:
				c[i] = bytes.Clone(v)
			default:
				rv := reflect.ValueOf(v)
				if rv.IsValid() && rv.Kind() == reflect.Slice {
					n := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
					reflect.Copy(n, rv)
					c[i] = n.Interface()
				} else {
					c[i] = v
				}
			}
		}
		return c
	}
	take := func() snap {
		s := snap{cols: append([]string(nil), cols[:cap(cols)]...), args: deep(args), list: deep(list), set: map[string]interface{}{}}
		for _, d := range data {
			s.data = append(s.data, deep(d))
		}
		for k, v := range set {
			s.set[k] = deep([]interface{}{v})[0]
		}
		return s
	}
	var ext [][]byte
	for _, o := range owned {
		ext = append(ext, bytes.Clone(o))
	}
	before := take()

	run := func(x *xtorm.XPipe, sel []int) {
		var b *xtorm.Builder = &x.Builder
		for _, k := range sel {
			switch k {
			case 0:
				b.StmtExecute("s", args...)
			case 1:
				b.Execute(9, args...)
			case 2:
				b.Insert("t", cols, data)
			case 3:
				b.InsertF("t", cols, func(in *xtorm.Insert) error {
					for _, d := range data {
						in.Row(d)
						in.RowV(d...)
					}
					return nil
				})
			case 4:
				var e xproto.AppendExprFunc = b.InsertRow("t", cols, data[0])
				b.Delete("t", xtorm.Eq(xtorm.Column("a"), e))
			case 5:
				b.Update("t", xtorm.In(xtorm.Column("c"), list), set)
			case 6:
				b.UpdateF("t", xtorm.NotInV(xtorm.Column("c"), list...), func(u *xtorm.Update) error { u.Set("x", uval); return nil })
			case 7:
				b.Delete("t", xtorm.Concat(list...))
			case 8:
				b.Tx(0, func(b *xtorm.Builder) error { b.Insert("t", cols, data); b.StmtExecute("q", list...); return nil })
			}
		}
	}
	var sel []int
	for k := 1 + rng.Intn(6); k > 0; k-- {
		sel = append(sel, rng.Intn(9))
	}
	ref := xtorm.New(0)
	run(ref, sel)
	want, err := send(ref)
	if err != nil {
		r.Violation("valid calls %v fail: %v", sel, err)
		return
	}
	r.EvalBytes(want)
	x := xtorm.New(enc.Cap(rng))
	run(x, sel)
	if !reflect.DeepEqual(before, take()) {
		r.Violation("caller's columns, rows or arguments were modified by calls %v", sel)
		return
	}
	for k := range owned {
		if !bytes.Equal(owned[k], ext[k]) {
			r.Violation("caller's byte slice was modified by calls %v: %s", sel, where(ext[k], owned[k]))
			return
		}
	}
	r.Count("owned_slices", len(owned))
	// now the caller reuses its memory
	for _, o := range owned {
		for j := range o {
			o[j] ^= 0x5a
		}
	}
	for _, d := range append(data, args, list) {
		for j := range d[:cap(d)] {
			d[:cap(d)][j] = "overwritten"
		}
	}
	for j := range cols[:cap(cols)] {
		cols[:cap(cols)][j] = "overwritten"
	}
	for k := range set {
		delete(set, k)
	}
	got, err := send(x)
	if err != nil || !bytes.Equal(got, want) {
		r.Violation("changing caller data after calls %v changed what was recorded (err %v): %s", sel, err, where(want, got))
	}
	// and the transport's copy of an earlier Send is not what the pipe keeps building on: sending twice is stable
	if again, _ := send(x); !bytes.Equal(again, want) {
		r.Violation("sending twice sends different bytes: %s", where(want, again))
	}
}
