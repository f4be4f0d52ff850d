package main

import (
	"fmt"
	"math/rand"

	"xv/enc"
	"xv/gen"
	"xv/rep"

	"github.com/renthraysk/xtorm/collation"
)

func main() {
	r := rep.Start("C23", "exploration", "every exported collation constant against MySQL's id and name (an independent table), the text form and IsBinary of every id up to 70000 and random wider ids, and strings tagged with every id up to 4096 and at every varint boundary, of many lengths, as arguments and as literals in rows, assignments and criteria, decoded independently. Non-trivial: distinct ids and messages.")
	ids := map[string]uint{}
	for id, n := range mysqlNames {
		ids[n] = id
	}
	for _, c := range constants {
		if uint(c.v) != ids[c.mysql] {
			r.Violation("collation.%s is %d; MySQL's %s has id %d", c.go_, uint(c.v), c.mysql, ids[c.mysql])
		}
		if got := c.v.String(); got != c.mysql {
			r.Violation("collation.%s renders as %q, MySQL calls it %q", c.go_, got, c.mysql)
		}
		r.Eval("const/" + c.go_)
		r.Count("constants", 1)
	}
	seen := map[string]uint{}
	one := func(id uint) {
		c := collation.Collation(id)
		got := c.String()
		unknown := fmt.Sprintf("Collation(%d)", id)
		name, known := mysqlNames[id]
		switch {
		case known && got == name:
			r.Count("named_ids", 1)
		case got == unknown && (!known || !hasConstant(name)):
			r.Count("unknown_ids", 1)
		default:
			want := unknown
			if known {
				want = name
			}
			r.Violation("Collation(%d).String() is %q, expected %q", id, got, want)
		}
		if other, dup := seen[got]; dup && other != id {
			r.Violation("ids %d and %d are both rendered as %q", other, id, got)
		}
		seen[got] = id
		if c.IsBinary() != (id == 63) {
			r.Violation("Collation(%d).IsBinary() is %v (binary is 63)", id, c.IsBinary())
		}
		r.Eval(fmt.Sprintf("id/%d", id))
	}
	for id := uint(0); id <= 70000; id++ {
		one(id)
	}
	rng := r.Rng("ids", 0)
	for i := 0; i < 20000; i++ {
		one(uint(gen.U64(rng)))
		one(uint(rng.Intn(310)) | 1<<uint(9+rng.Intn(55))) // known low bits, unknown id
	}

	// delivery
	var tags []uint
	for id := uint(0); id <= 4096; id++ {
		tags = append(tags, id)
	}
	for s := uint(7); s < 64; s++ {
		tags = append(tags, 1<<s-1, 1<<s, 1<<s+1)
	}
	tags = append(tags, ^uint(0))
	lens := []int{0, 1, 2, 3, 10, 100, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200, 16370, 16383, 16384}
	r.Each("tags", len(tags), func(i int, rng *rand.Rand) {
		ls := lens[:1+i%4]
		if i > 320 && !r.Thorough() {
			ls = []int{lens[rng.Intn(len(lens))]}
		} else if i <= 320 || r.Thorough() {
			ls = lens
		}
		for _, n := range ls {
			v := gen.CStr(string(gen.Raw(rng, n)), tags[i])
			x := gen.LitEx(v)
			crit := gen.Ctors[7].Apply([]gen.Ex{gen.ColumnEx("c"), x})
			p := &gen.Prog{Ops: []*gen.Op{
				gen.OpStmt("SELECT ?", []gen.Val{v}),
				gen.OpExecute(1, []gen.Val{gen.Int(1), v}),
				gen.OpInsert(rng.Intn(3), "t", []string{"a", "b"}, [][]gen.Ex{{x, gen.LitEx(gen.Int(2))}}),
				gen.OpUpdate(1, "t", &crit, []gen.Set{{Col: "c", X: x}}),
				gen.OpDelete("t", &crit),
			}}
			enc.Judge(r, p, rng.Intn(100), "", fmt.Sprintf("string of %d bytes tagged with collation %d", n, tags[i]))
			r.Count("tagged_messages", 5)
		}
	})
	r.Sample("utf8mb4_0900_ai_ci=%d binary=%d unknown: %s", collation.Collation(ids["utf8mb4_0900_ai_ci"]), ids["binary"], collation.Collation(1000))
	r.Need("constants", 250)
	r.Need("tagged_messages", 20000)
	r.Finish()
}

func hasConstant(name string) bool {
	for _, c := range constants {
		if c.mysql == name {
			return true
		}
	}
	return false
}
