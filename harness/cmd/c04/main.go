package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"

	"github.com/renthraysk/xtorm"
)

// use puts an expression in one of the places that accept one.
func use(rng *rand.Rand, e gen.Ex) *gen.Op {
	one := gen.Set{Col: "c", X: gen.LitEx(gen.Int(1))}
	switch rng.Intn(6) {
	case 0:
		return gen.OpDelete("t", &e)
	case 1:
		return gen.OpUpdate(0, "t", &e, []gen.Set{one})
	case 2:
		return gen.OpUpdate(1, "t", &e, []gen.Set{one, {Col: "d", X: e}})
	case 3:
		return gen.OpUpdate(0, "t", nil, []gen.Set{{Col: "d", X: e}})
	case 4:
		return gen.OpInsert(rng.Intn(3), "t", []string{"a", "b", "c"}, [][]gen.Ex{{one.X, e, one.X}, {e, e, one.X}})
	default:
		return gen.OpInsert(rng.Intn(3), "t", []string{"a"}, [][]gen.Ex{{e}})
	}
}

func main() {
	r := rep.Start("C04", "exploration", "every exported constructor over every operand kind, random trees (depth up to 40, operand counts up to hundreds, operand sizes across the varint boundaries), each expression used repeatedly in criteria, rows, assignments and as operand; decoded trees compared node by node with the tree built. Non-trivial: distinct buffer contents.")

	// every constructor, alone, with each operand kind in each position
	g0 := &gen.Gen{R: r.Rng("kinds", 0), Max: 200, Depth: 2}
	kinds := []gen.Ex{gen.ColumnEx("col"), gen.VarEx("@v"), gen.PlaceholderEx(3), gen.LitEx(gen.Null()), gen.LitEx(gen.Bool(true)), gen.LitEx(gen.Int(-7)), gen.LitEx(gen.Uint64(1 << 63)),
		gen.LitEx(gen.F64(0x3ff8000000000000)), gen.LitEx(gen.Str("text")), gen.LitEx(gen.Bytes([]byte{0})), gen.LitEx(gen.JSON([]byte("{}"))), gen.LitEx(gen.Dur(3600e9)),
		gen.Ctors[7].Apply([]gen.Ex{gen.ColumnEx("a"), gen.LitEx(gen.Int(1))}), gen.Ctors[40].Apply([]gen.Ex{gen.LitEx(gen.Str("a")), gen.ColumnEx("b")}), gen.Ctors[0].Apply(nil), gen.Ctors[41].Apply(nil),
		gen.LitEx(gen.CustomVal("cv")), g0.Expr(2)}
	type job struct{ e gen.Ex }
	var jobs []job
	for _, c := range gen.Ctors {
		n := c.Arity
		lo, hi := n, n
		if n < 0 {
			lo, hi = 0, 4
			if !c.Func {
				lo = 1
			}
		}
		for n := lo; n <= hi; n++ {
			if n == 0 {
				jobs = append(jobs, job{c.Apply(nil)})
				continue
			}
			for pos := 0; pos < n; pos++ {
				for k := range kinds {
					a := make([]gen.Ex, n)
					for j := range a {
						a[j] = kinds[(k+j+1)%len(kinds)]
					}
					a[pos] = kinds[k]
					jobs = append(jobs, job{c.Apply(a)})
				}
			}
		}
	}
	for u := range gen.Units {
		for k := range kinds {
			jobs = append(jobs, job{gen.DateEx(false, kinds[k], kinds[(k+5)%len(kinds)], u)}, job{gen.DateEx(true, kinds[k], kinds[(k+3)%len(kinds)], u)})
		}
	}
	r.Count("constructors", len(gen.Ctors)+2)
	r.Each("constructors", len(jobs), func(i int, rng *rand.Rand) {
		p := &gen.Prog{Ops: []*gen.Op{use(rng, jobs[i].e), use(rng, jobs[i].e)}}
		enc.Judge(r, p, enc.Cap(rng), "", "constructor "+jobs[i].e.D)
	})

	// special operands: each alone, every two of them next to each other, under
	// every constructor; and every constructor directly inside every other
	var sp []gen.Ex
	for _, v := range gen.Specials() {
		sp = append(sp, gen.LitEx(v))
	}
	for _, n := range []string{"", "*", "a", "A", "a.b", "@x"} {
		sp = append(sp, gen.ColumnEx(n), gen.VarEx(n))
	}
	sp = append(sp, gen.PlaceholderEx(0), gen.PlaceholderEx(1), gen.Ctors[0].Apply(nil), gen.Ctors[41].Apply(nil), gen.Ctors[42].Apply(nil))
	r.Each("pairs", len(gen.Ctors)*len(sp), func(i int, rng *rand.Rand) {
		c, a := gen.Ctors[i/len(sp)], sp[i%len(sp)]
		var l []gen.Ex
		switch c.Arity {
		case 0:
			return
		case 1:
			l = append(l, c.Apply([]gen.Ex{a}))
		default:
			for _, b := range sp {
				switch c.Arity {
				case 2:
					l = append(l, c.Apply([]gen.Ex{a, b}))
				case 3:
					l = append(l, c.Apply([]gen.Ex{gen.ColumnEx("c"), a, b}), c.Apply([]gen.Ex{a, b, gen.LitEx(gen.Int(5))}))
				default:
					l = append(l, c.Apply([]gen.Ex{gen.ColumnEx("c"), a, b}), c.Apply([]gen.Ex{a, b}))
				}
			}
		}
		p := &gen.Prog{}
		for _, e := range l {
			p.Ops = append(p.Ops, use(rng, e))
		}
		r.Count("special_operands", len(l))
		enc.Judge(r, p, enc.Cap(rng), "", "special operands under "+c.Go)
	})
	r.Each("dates", len(gen.Units)*len(sp), func(i int, rng *rand.Rand) {
		u, a := i/len(sp), sp[i%len(sp)]
		p := &gen.Prog{}
		for k := 0; k < 12; k++ {
			b := sp[rng.Intn(len(sp))]
			p.Ops = append(p.Ops, use(rng, gen.DateEx(k%2 == 0, a, b, u)), use(rng, gen.DateEx(k%2 == 0, b, a, u)))
		}
		enc.Judge(r, p, enc.Cap(rng), "", "special operands of a date operator")
	})
	r.Each("nested", len(gen.Ctors)*len(gen.Ctors), func(i int, rng *rand.Rand) {
		out, in := gen.Ctors[i/len(gen.Ctors)], gen.Ctors[i%len(gen.Ctors)]
		draw := func(c gen.Ctor) []gen.Ex {
			n := c.Arity
			if n < 0 {
				n = 1 + rng.Intn(3)
			}
			a := make([]gen.Ex, n)
			for j := range a {
				a[j] = sp[rng.Intn(len(sp))]
			}
			return a
		}
		p := &gen.Prog{}
		for k := 0; k < 6; k++ {
			a := draw(out)
			for j := range a {
				if k%2 == 0 || rng.Intn(2) == 0 {
					a[j] = in.Apply(draw(in))
				}
			}
			p.Ops = append(p.Ops, use(rng, out.Apply(a)))
		}
		enc.Judge(r, p, enc.Cap(rng), "", in.Go+" inside "+out.Go)
	})
	r.Each("trees", r.N(8000, 250000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		g := &gen.Gen{R: rng, Max: 300, Depth: 4, P: p}
		if rng.Intn(6) == 0 {
			g.Max = 20000
		}
		d := 1 + rng.Intn(5)
		e := g.Expr(d)
		if i < 4 {
			r.Sample("%s", e.D)
		}
		for k := 1 + rng.Intn(3); k > 0; k-- {
			p.Ops = append(p.Ops, use(rng, e))
		}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("tree %d", i))
		// the same expression values in another unit of work, twice: same bytes
		var a, b gen.Recorder
		for k, s := range []*gen.Recorder{&a, &b} {
			x := xtorm.New(k * 512)
			p.Run(&x.Builder)
			x.Send(context.Background(), s)
		}
		if !bytes.Equal(a.B, b.B) {
			r.Violation("the same expressions encode differently when used again\ncalls: %s\nfirst:  %x\nsecond: %x", p, a.B, b.B)
		}
		r.Count("reuses", 2)
	})
	r.Each("deep", r.N(200, 5000), func(i int, rng *rand.Rand) {
		g := &gen.Gen{R: rng, Max: 40, Depth: 2}
		e := gen.LitEx(gen.Lit(rng, 100))
		for d := rng.Intn(60); d >= 0; d-- {
			c := gen.Ctors[rng.Intn(len(gen.Ctors))]
			n := c.Arity
			if n < 0 {
				n = 1 + rng.Intn(3)
			}
			if n == 0 {
				continue
			}
			a := make([]gen.Ex, n)
			for j := range a {
				a[j] = g.Operand(0)
			}
			a[rng.Intn(n)] = e
			e = c.Apply(a)
		}
		enc.Judge(r, &gen.Prog{Ops: []*gen.Op{gen.OpInsert(0, "t", []string{"c"}, [][]gen.Ex{{e}})}}, enc.Cap(rng), "", fmt.Sprintf("deep %d", i))
	})
	// In/InV/NotIn/NotInV take their list by value: building is not sending.
	r.Each("lists", r.N(200, 2000), func(i int, rng *rand.Rand) {
		n := 1 + rng.Intn(6)
		l := make([]interface{}, n)
		x := make([]gen.Ex, n+1)
		x[0] = gen.ColumnEx("c")
		for j := range l {
			l[j] = rng.Intn(1000)
			x[j+1] = gen.LitEx(gen.Int(l[j].(int)))
		}
		var e gen.Ex
		if i%2 == 0 {
			e = gen.Ex{V: xtorm.In(x[0].V, l), N: gen.OpNode("in", x...), D: "In"}
		} else {
			e = gen.Ex{V: xtorm.NotIn(x[0].V, l), N: gen.OpNode("not_in", x...), D: "NotIn"}
		}
		enc.Judge(r, &gen.Prog{Ops: []*gen.Op{use(rng, e), use(rng, e)}}, enc.Cap(rng), "", "list operand")
	})
	pos := gen.EdgeU64(2)
	r.Each("placeholders", len(pos)/8, func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		for _, x := range pos[i*8 : i*8+8] {
			p.Ops = append(p.Ops, use(rng, gen.PlaceholderEx(uint32(x))))
		}
		enc.Judge(r, p, enc.Cap(rng), "", "placeholder positions")
	})
	enc.Huge(r, "expr", "")
	if r.Thorough() {
		enc.Sweep(r, "expr", "", gen.Lengths(17000, 0, 90), enc.Counts(1000))
	} else {
		enc.Sweep(r, "expr", "", gen.Lengths(400, 90, 30), enc.Counts(200))
	}
	r.Finish()
}
