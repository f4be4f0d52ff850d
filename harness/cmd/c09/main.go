package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"
)

func main() {
	r := rep.Start("C09", "exploration", "all pairs and triples of directly nested and of consecutive scopes (6 isolation levels, 2 contexts) and random scope trees up to depth 40 with bodies of every kind of call; the message sequence is compared with the bracket structure of the calls. Non-trivial: distinct buffer contents.")
	mkScope := func(k int, body []*gen.Op) *gen.Op {
		if k < len(gen.Levels) {
			return gen.OpTx(k, body)
		}
		return gen.OpExpect(k-len(gen.Levels), body)
	}
	n := len(gen.Levels) + 2
	r.Each("nested", n*n*n*2, func(i int, rng *rand.Rand) {
		a, b, c := i%n, i/n%n, i/n/n%n
		s := gen.OpStmt("x", nil)
		var ops []*gen.Op
		if i < n*n*n {
			ops = []*gen.Op{mkScope(a, []*gen.Op{s, mkScope(b, []*gen.Op{mkScope(c, []*gen.Op{s}), s}), s})}
		} else {
			ops = []*gen.Op{mkScope(a, nil), mkScope(b, []*gen.Op{s}), mkScope(c, nil)}
		}
		enc.Judge(r, &gen.Prog{Ops: ops}, enc.Cap(rng), "", fmt.Sprintf("nested %d", i))
	})
	r.Each("trees", r.N(6000, 200000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		g := &gen.Gen{R: rng, Max: 40, Depth: 1, MapMulti: true, P: p}
		d := 1 + rng.Intn(5)
		if rng.Intn(20) == 0 {
			d = 40
		}
		p.Ops = g.Scopes(1+rng.Intn(4), d)
		if i < 4 {
			r.Sample("%s", p)
		}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("tree %d", i))
	})
	r.Each("bodies", r.N(2000, 50000), func(i int, rng *rand.Rand) {
		p := gen.Program(rng, 20000, 2, 5, true)
		p.Ops = []*gen.Op{mkScope(rng.Intn(n), p.Ops)}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("body %d", i))
	})
	r.Finish()
}
