package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"
)

func main() {
	r := rep.Start("C05", "exploration", "random and size-swept inserts (Insert, InsertF, InsertRow), updates (map and callback form) and deletes with arbitrary tables, columns, rows, assignments and criteria, alone and interleaved in nested scopes; decoded messages compared with the data given, captured ids tracked to the variable they were stored in. Non-trivial: distinct buffer contents.")
	r.Each("crud", r.N(9000, 300000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		g := &gen.Gen{R: rng, Max: 300, Depth: 2, MapMulti: true, P: p}
		if rng.Intn(8) == 0 {
			g.Max = 20000
		}
		p.Ops = g.Crud(1+rng.Intn(4), 2)
		if i < 4 {
			r.Sample("%s", p)
		}
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("crud %d", i))
		r.Count("captured_ids", len(p.CaptureNames()))
	})
	// names that could be treated specially, every two of them together
	names := gen.SpecialTexts()
	r.Each("names", len(names)*len(names), func(i int, rng *rand.Rand) {
		a, b := names[i/len(names)], names[i%len(names)]
		one, two := gen.LitEx(gen.Int(1)), gen.LitEx(gen.Int(2))
		c := gen.Ctors[7].Apply([]gen.Ex{gen.ColumnEx(b), one})
		p := &gen.Prog{}
		g := &gen.Gen{R: rng, Max: 40, Depth: 1, P: p}
		p.Ops = []*gen.Op{gen.OpInsert(rng.Intn(3), a, []string{b, "c"}, [][]gen.Ex{{one, two}}), gen.OpInsert(rng.Intn(3), "t", []string{a, b}, [][]gen.Ex{{one, two}, {two, one}}),
			gen.OpUpdate(rng.Intn(2), a, &c, []gen.Set{{Col: b, X: one}}), gen.OpUpdate(1, "t", nil, []gen.Set{{Col: a, X: one}, {Col: b, X: two}}), gen.OpDelete(a, &c), gen.OpDelete(b, nil), g.OpInsertRow(a, []string{b}, []gen.Ex{one})}
		enc.Judge(r, p, enc.Cap(rng), "", "special names")
	})
	// very many captures in one unit of work, in flat and nested scopes, over more than 64 KiB
	r.Each("many-captures", r.N(6, 40), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		g := &gen.Gen{R: rng, Max: 40, Depth: 1, P: p}
		n := []int{300, 1500, 4000, 8000}[i%4]
		fixed := rng.Intn(2) == 0 // all of one size: any arithmetic on positions repeats soon
		var ops []*gen.Op
		for j := 0; j < n; j++ {
			row := []gen.Ex{gen.LitEx(gen.Str("v"))}
			if !fixed {
				row = []gen.Ex{gen.LitEx(gen.Str(string(gen.Raw(rng, rng.Intn(50)))))}
			}
			ops = append(ops, g.OpInsertRow("t", []string{"a"}, row))
			if rng.Intn(400) == 0 {
				k := len(ops) - rng.Intn(len(ops)) - 1
				ops = append(ops[:k:k], gen.OpTx(0, ops[k:]))
			}
			if rng.Intn(500) == 0 {
				ops = append(ops, gen.OpStmt(string(gen.Raw(rng, rng.Intn(70000))), nil))
			}
		}
		p.Ops = ops
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("many captures %d", i))
		r.Count("captured_ids", len(p.CaptureNames()))
	})
	// long chains of captures: pairwise different variables, references across scopes
	r.Each("captures", r.N(300, 6000), func(i int, rng *rand.Rand) {
		p := &gen.Prog{}
		g := &gen.Gen{R: rng, Max: 40, Depth: 1, MapMulti: true, P: p}
		n := 2 + rng.Intn(60)
		var ops []*gen.Op
		for j := 0; j < n; j++ {
			row := []gen.Ex{gen.LitEx(gen.Int(j))}
			cols := []string{"a"}
			if e, ok := g.Capture(); ok && rng.Intn(3) > 0 {
				row, cols = append(row, e), append(cols, "b")
			}
			o := g.OpInsertRow("t", cols, row)
			switch rng.Intn(6) {
			case 0:
				ops = append(ops, gen.OpTx(0, []*gen.Op{o}))
			case 1:
				ops = append(ops, gen.OpExpect(rng.Intn(2), []*gen.Op{o, gen.OpStmt("x", nil)}))
			default:
				ops = append(ops, o)
			}
			if rng.Intn(4) == 0 {
				if e, ok := g.Capture(); ok {
					c := gen.Ctors[7].Apply([]gen.Ex{gen.ColumnEx("id"), e})
					switch rng.Intn(3) {
					case 0:
						ops = append(ops, gen.OpDelete("u", &c))
					case 1:
						ops = append(ops, gen.OpUpdate(0, "u", &c, []gen.Set{{Col: "r", X: e}}))
					default:
						ops = append(ops, gen.OpInsert(rng.Intn(3), "u", []string{"r", "s"}, [][]gen.Ex{{e, e}, {gen.LitEx(gen.Int(1)), e}}))
					}
				}
			}
		}
		p.Ops = ops
		enc.Judge(r, p, enc.Cap(rng), "", fmt.Sprintf("captures %d", i))
		r.Count("captured_ids", len(p.CaptureNames()))
	})
	enc.Huge(r, "crud", "")
	if r.Thorough() {
		enc.Sweep(r, "crud", "", gen.Lengths(17000, 0, 90), enc.Counts(2000))
	} else {
		enc.Sweep(r, "crud", "", gen.Lengths(400, 90, 30), enc.Counts(300))
	}
	r.Need("captured_ids", 1000)
	r.Finish()
}
