package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"
)

func main() {
	r := rep.Start("C02", "exploration", "every 8/16-bit integer, wider integers and floats around all powers of two, seconds of a day, dates, every string/bytes length across the varint boundaries, random mixtures and pointers, sent as arguments of StmtExecute and Execute; the decoded Any messages are compared with the values given. Non-trivial: distinct buffer contents.")
	rng := r.Rng("list", 0)
	vals := append(gen.Numbers(), gen.Times(rng, r.N(7, 1))...)
	const batch = 37
	n := (len(vals) + batch - 1) / batch
	r.Each("values", 2*n, func(i int, rng *rand.Rand) {
		a := vals[i/2*batch : min(len(vals), (i/2+1)*batch)]
		p := &gen.Prog{Ops: []*gen.Op{gen.OpStmt("x", a)}}
		if i%2 == 1 {
			p = &gen.Prog{Ops: []*gen.Op{gen.OpExecute(uint32(i), a)}}
		}
		enc.Judge(r, p, enc.Cap(rng), "", "value list")
		r.Count("argument_values", len(a))
	})
	// every two special values next to each other
	sp := gen.Specials()
	r.Each("pairs", 2*len(sp), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		for j := range sp {
			a := []gen.Val{sp[i/2], sp[j]}
			if i%2 == 0 {
				p.Ops = append(p.Ops, gen.OpStmt("q", a))
			} else {
				p.Ops = append(p.Ops, gen.OpExecute(uint32(j), a))
			}
		}
		r.Count("argument_values", 2*len(sp))
		enc.Judge(r, p, enc.Cap(rng), "", "special values next to each other")
	})
	r.Each("mixed", r.N(8000, 300000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		k := 1 + rng.Intn(3)
		for j := 0; j < k; j++ {
			a := make([]gen.Val, rng.Intn(9))
			for l := range a {
				a[l] = gen.Arg(rng, 20000)
			}
			r.Count("argument_values", len(a))
			if rng.Intn(2) == 0 {
				p.Ops = append(p.Ops, gen.OpStmt(string(gen.Raw(rng, rng.Intn(9))), a))
			} else {
				p.Ops = append(p.Ops, gen.OpExecute(rng.Uint32(), a))
			}
		}
		if i < 4 {
			r.Sample("%s", p)
		}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("mixed %d", i))
	})
	r.Each("pointers", r.N(3000, 60000), func(i int, rng *rand.Rand) {
		a := make([]gen.Val, 1+rng.Intn(4))
		for l := range a {
			a[l] = gen.Ptr(rng, 300)
		}
		r.Count("argument_values", len(a))
		enc.Judge(r, &gen.Prog{Ops: []*gen.Op{gen.OpStmt("p", a)}}, enc.Cap(rng), "", fmt.Sprintf("pointers %d", i))
	})
	enc.Huge(r, "arg", "")
	if r.Thorough() {
		enc.Sweep(r, "arg", "", gen.Lengths(20000, 0, 70), enc.Counts(1000))
	} else {
		enc.Sweep(r, "arg", "", gen.Lengths(700, 80, 30), enc.Counts(200))
	}
	r.Finish()
}
