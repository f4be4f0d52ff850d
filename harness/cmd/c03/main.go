package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"
)

func place(rng *rand.Rand, a []gen.Val) *gen.Op {
	x := make([]gen.Ex, len(a))
	for i := range a {
		x[i] = gen.LitEx(a[i])
	}
	switch rng.Intn(5) {
	case 0, 1:
		cols := make([]string, len(x))
		for i := range cols {
			cols[i] = fmt.Sprint("c", i)
		}
		return gen.OpInsert(rng.Intn(3), "t", cols, [][]gen.Ex{x})
	case 2:
		s := make([]gen.Set, len(x))
		for i := range s {
			s[i] = gen.Set{Col: fmt.Sprint("c", i), X: x[i]}
		}
		return gen.OpUpdate(rng.Intn(2), "t", nil, s)
	case 3: // operands of a function
		e := gen.Ctors[40].Apply(x)
		return gen.OpDelete("t", &e)
	default: // operands of an operator
		e := gen.Ctors[36].Apply(append([]gen.Ex{gen.ColumnEx("c")}, x...))
		return gen.OpUpdate(1, "t", &e, []gen.Set{{Col: "d", X: gen.LitEx(gen.Int(1))}})
	}
}

func main() {
	r := rep.Start("C03", "exploration", "every 8/16-bit integer, wider integers and floats around all powers of two, seconds of a day, dates, every string/bytes length across the varint boundaries, and random mixtures, used in rows, assignments and as operands; the decoded literals are compared with the values given. Non-trivial: distinct buffer contents.")
	rng := r.Rng("list", 0)
	vals := append(gen.Numbers(), gen.Times(rng, r.N(7, 1))...)
	const batch = 37
	n := (len(vals) + batch - 1) / batch
	r.Each("values", 2*n, func(i int, rng *rand.Rand) {
		a := vals[i/2*batch : min(len(vals), (i/2+1)*batch)]
		enc.Judge(r, &gen.Prog{Ops: []*gen.Op{place(rng, a)}}, enc.Cap(rng), "", "value list")
		r.Count("literal_values", len(a))
	})
	// every two special values next to each other
	sp := gen.Specials()
	r.Each("pairs", len(sp)*len(sp), func(i int, rng *rand.Rand) {
		a, b := gen.LitEx(sp[i/len(sp)]), gen.LitEx(sp[i%len(sp)])
		e := gen.Ctors[40].Apply([]gen.Ex{a, b})
		p := &gen.Prog{Ops: []*gen.Op{gen.OpInsert(rng.Intn(3), "t", []string{"a", "b"}, [][]gen.Ex{{a, b}, {b, b}, {a, b}}),
			gen.OpInsert(rng.Intn(3), "t", []string{"a"}, [][]gen.Ex{{a}, {b}}),
			gen.OpUpdate(1, "t", nil, []gen.Set{{Col: "a", X: a}, {Col: "b", X: b}}), gen.OpUpdate(0, "t", nil, []gen.Set{{Col: "a", X: a}}), gen.OpDelete("t", &e)}}
		r.Count("literal_values", 15)
		enc.Judge(r, p, enc.Cap(rng), "", "special values next to each other")
	})
	r.Each("mixed", r.N(12000, 300000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		k := 1 + rng.Intn(3)
		for j := 0; j < k; j++ {
			a := make([]gen.Val, rng.Intn(7))
			for l := range a {
				a[l] = gen.Lit(rng, 20000)
			}
			r.Count("literal_values", len(a))
			p.Ops = append(p.Ops, place(rng, a))
		}
		if i < 4 {
			r.Sample("%s", p)
		}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("mixed %d", i))
	})
	enc.Huge(r, "lit", "")
	if r.Thorough() {
		enc.Sweep(r, "lit", "", gen.Lengths(20000, 0, 70), nil)
	} else {
		enc.Sweep(r, "lit", "", gen.Lengths(700, 80, 30), nil)
	}
	r.Finish()
}
