package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"
)

func main() {
	r := rep.Start("C01", "exploration", "random programs over every builder entry point (nested scopes, sizes at varint boundaries) plus exhaustive sweeps of every name/text/value/row/argument-list size; each buffer handed to the transport is split and strictly decoded by an independent X Protocol reader. Non-trivial: distinct buffer contents.")
	r.Each("programs", r.N(4000, 150000), func(i int, rng *rand.Rand) {
		p := gen.Program(rng, 20000, 3, 8, true)
		if i < 3 {
			r.Sample("%s", p)
		}
		enc.Judge(r, p, enc.Cap(rng), gen.Framing, fmt.Sprintf("program %d", i))
	})
	r.Each("deep", r.N(300, 4000), func(i int, rng *rand.Rand) {
		p := gen.Program(rng, 200, 12, 6, true)
		enc.Judge(r, p, enc.Cap(rng), gen.Framing, fmt.Sprintf("deep program %d", i))
	})
	enc.Huge(r, "", gen.Framing)
	if r.Thorough() {
		enc.Sweep(r, "", gen.Framing, gen.Lengths(2200, 400, 70), enc.Counts(600))
	} else {
		enc.Sweep(r, "", gen.Framing, gen.Lengths(300, 70, 14), enc.Counts(150))
	}
	r.Finish()
}
