package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"
)

func main() {
	r := rep.Start("C06", "exploration", "statement ids around every power of two and at random, statement texts of every length across the varint boundaries and arbitrary bytes, in prepare/execute/deallocate/direct sequences with adjacent arguments; decoded messages compared with the calls. Non-trivial: distinct buffer contents.")
	ids := map[uint32]bool{}
	var list []uint32
	add := func(x uint32) {
		if !ids[x] {
			ids[x] = true
			list = append(list, x)
		}
	}
	for _, x := range gen.EdgeU64(uint64(r.N(40, 400))) {
		add(uint32(x))
	}
	for i := uint32(0); i < uint32(r.N(20000, 2100000)); i++ {
		add(i)
	}
	rng := r.Rng("ids", 0)
	for i := 0; i < r.N(40000, 2000000); i++ {
		add(rng.Uint32() >> uint(rng.Intn(32)))
	}
	const batch = 64
	n := (len(list) + batch - 1) / batch
	r.Each("ids", n, func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		for _, id := range list[i*batch : min(len(list), (i+1)*batch)] {
			p.Ops = append(p.Ops, gen.OpPrepare(id, fmt.Sprint("s", id)), gen.OpExecute(id, nil), gen.OpDeallocate(id))
		}
		enc.Judge(r, p, enc.Cap(rng), "", "statement ids")
		r.Count("ids", len(p.Ops)/3)
	})
	// texts that could be treated specially, every two of them in a row
	texts := gen.SpecialTexts()
	r.Each("texts", len(texts)*len(texts), func(i int, rng *rand.Rand) {
		a, b := texts[i/len(texts)], texts[i%len(texts)]
		p := &gen.Prog{Ops: []*gen.Op{gen.OpStmt(a, nil), gen.OpStmt(b, nil), gen.OpPrepare(1, a), gen.OpPrepare(2, b), gen.OpStmt(a, []gen.Val{gen.Int(1)}), gen.OpStmt(b, []gen.Val{gen.Str(a)}),
			gen.OpTx(rng.Intn(6), []*gen.Op{gen.OpStmt(a, nil), gen.OpPrepare(0, b)}), gen.OpExpect(rng.Intn(2), []*gen.Op{gen.OpStmt(b, nil), gen.OpPrepare(0, a)})}}
		enc.Judge(r, p, enc.Cap(rng), "", "special texts")
	})
	r.Each("sequences", r.N(6000, 200000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		for k := 1 + rng.Intn(10); k > 0; k-- {
			max := 400
			if rng.Intn(20) == 0 {
				max = 40000
			}
			var args []gen.Val
			for j := rng.Intn(4); j > 0; j-- {
				args = append(args, gen.Arg(rng, 200))
			}
			id := uint32(gen.U64(rng))
			txt := string(gen.Raw(rng, gen.Size(rng, max)))
			if i%2 == 0 { // the same few statements again and again
				id = uint32(rng.Intn(3))
				txt = []string{"", "SELECT 1", "SELECT ?"}[rng.Intn(3)]
			}
			switch rng.Intn(4) {
			case 0:
				p.Ops = append(p.Ops, gen.OpPrepare(id, txt))
			case 1:
				p.Ops = append(p.Ops, gen.OpExecute(id, args))
			case 2:
				p.Ops = append(p.Ops, gen.OpDeallocate(id))
			default:
				p.Ops = append(p.Ops, gen.OpStmt(txt, args))
			}
		}
		if i < 4 {
			r.Sample("%s", p)
		}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("sequence %d", i))
	})
	enc.Huge(r, "sql", "")
	if r.Thorough() {
		enc.Sweep(r, "sql", "", gen.Lengths(20000, 0, 70), nil)
	} else {
		enc.Sweep(r, "sql", "", gen.Lengths(2000, 80, 40), nil)
	}
	r.Finish()
}
