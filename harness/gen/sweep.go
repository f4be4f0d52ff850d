package gen

import (
	"xv/wire"

	"github.com/renthraysk/xtorm/xproto"
)

// Sweep is a place in a unit of work whose size is swept exhaustively across
// the varint boundaries. Group tells the specialised checks which are theirs.
type Sweep struct {
	Name  string
	Group string // arg, lit, expr, crud, sql
	Mk    func(g *Gen, n int) *Op
}

func body(g *Gen, n int) []byte { return Raw(g.R, n) }
func bodyS(g *Gen, n int) string {
	return string(Raw(g.R, n))
}

func one(x Ex) *Op {
	return OpInsert(0, "t", []string{"c"}, [][]Ex{{x}})
}

func critUpdate(x Ex) *Op { return OpUpdate(1, "t", &x, []Set{{"c", LitEx(Int(1))}}) }
func critDelete(x Ex) *Op { return OpDelete("t", &x) }

var Sweeps = []Sweep{
	{"stmt text", "sql", func(g *Gen, n int) *Op { return OpStmt(bodyS(g, n), []Val{Int(5)}) }},
	{"stmt text, no args", "sql", func(g *Gen, n int) *Op { return OpStmt(bodyS(g, n), nil) }},
	{"prepare text", "sql", func(g *Gen, n int) *Op { return OpPrepare(uint32(U64(g.R)), bodyS(g, n)) }},
	{"arg string", "arg", func(g *Gen, n int) *Op { return OpStmt("a", []Val{Int(1), Str(bodyS(g, n)), Null()}) }},
	{"arg String", "arg", func(g *Gen, n int) *Op { return OpExecute(7, []Val{CStr(bodyS(g, n), randColl(g.R)), Bool(true)}) }},
	{"arg []byte", "arg", func(g *Gen, n int) *Op { return OpStmt("a", []Val{Bytes(body(g, n)), Int(-1)}) }},
	{"arg JSON", "arg", func(g *Gen, n int) *Op { return OpExecute(1, []Val{JSON(body(g, n)), XML(body(g, n/2))}) }},
	{"arg XML/Geometry", "arg", func(g *Gen, n int) *Op { return OpExecute(1, []Val{Geometry(body(g, n)), XML(body(g, n))}) }},
	{"arg JSONString", "arg", func(g *Gen, n int) *Op { return OpStmt("q", []Val{JSONString(bodyS(g, n))}) }},
	{"arg XMLString", "arg", func(g *Gen, n int) *Op { return OpStmt("q", []Val{XMLString(bodyS(g, n)), Uint8(200)}) }},
	{"row string", "lit", func(g *Gen, n int) *Op { return one(LitEx(Str(bodyS(g, n)))) }},
	{"row String", "lit", func(g *Gen, n int) *Op { return one(LitEx(CStr(bodyS(g, n), randColl(g.R)))) }},
	{"row []byte", "lit", func(g *Gen, n int) *Op { return one(LitEx(Bytes(body(g, n)))) }},
	{"row JSON", "lit", func(g *Gen, n int) *Op { return one(LitEx(JSON(body(g, n)))) }},
	{"row XML", "lit", func(g *Gen, n int) *Op { return one(LitEx(XML(body(g, n)))) }},
	{"row Geometry", "lit", func(g *Gen, n int) *Op { return one(LitEx(Geometry(body(g, n)))) }},
	{"row JSONString", "lit", func(g *Gen, n int) *Op { return one(LitEx(JSONString(bodyS(g, n)))) }},
	{"row XMLString", "lit", func(g *Gen, n int) *Op { return one(LitEx(XMLString(bodyS(g, n)))) }},
	{"set string", "lit", func(g *Gen, n int) *Op { return OpUpdate(0, "t", nil, []Set{{"c", LitEx(Str(bodyS(g, n)))}}) }},
	{"criteria bytes", "lit", func(g *Gen, n int) *Op {
		return critDelete(Ctors[7].Apply([]Ex{ColumnEx("c"), LitEx(Bytes(body(g, n)))}))
	}},
	{"column expr", "expr", func(g *Gen, n int) *Op { return critDelete(ColumnEx(bodyS(g, n))) }},
	{"variable", "expr", func(g *Gen, n int) *Op { return critUpdate(VarEx(bodyS(g, n))) }},
	{"variable in row", "expr", func(g *Gen, n int) *Op { return one(VarEx(bodyS(g, n))) }},
	{"operator operand", "expr", func(g *Gen, n int) *Op {
		return critDelete(Ctors[4].Apply([]Ex{Ctors[7].Apply([]Ex{ColumnEx("c"), LitEx(Str(bodyS(g, n)))}), ColumnEx("d")}))
	}},
	{"function operand", "expr", func(g *Gen, n int) *Op {
		return one(Ctors[40].Apply([]Ex{LitEx(Int(1)), LitEx(Str(bodyS(g, n))), ColumnEx("x")}))
	}},
	{"function name", "expr", func(g *Gen, n int) *Op {
		name := bodyS(g, n)
		a := []Ex{LitEx(Int(1)), ColumnEx("x")}
		return critUpdate(Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) {
			return xproto.AppendExprFunctionCallV(p, tag, name, a[0].V, a[1].V)
		}), FuncNode(name, a...), "func name"})
	}},
	{"operator name", "expr", func(g *Gen, n int) *Op {
		name := bodyS(g, n)
		a := []Ex{LitEx(Int(1)), ColumnEx("x")}
		return critUpdate(Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) {
			return xproto.AppendExprOperatorV(p, tag, name, a[0].V, a[1].V)
		}), OpNode(name, a...), "operator name"})
	}},
	{"insert table", "crud", func(g *Gen, n int) *Op {
		return OpInsert(g.R.Intn(3), bodyS(g, n), []string{"a", "b"}, [][]Ex{{LitEx(Int(1)), LitEx(Null())}})
	}},
	{"insert column", "crud", func(g *Gen, n int) *Op {
		return OpInsert(g.R.Intn(3), "t", []string{"a", bodyS(g, n), "c"}, [][]Ex{{LitEx(Int(1)), LitEx(Null()), LitEx(Str("x"))}})
	}},
	{"update table", "crud", func(g *Gen, n int) *Op {
		return OpUpdate(g.R.Intn(2), bodyS(g, n), nil, []Set{{"a", LitEx(Int(1))}})
	}},
	{"update column", "crud", func(g *Gen, n int) *Op {
		return OpUpdate(g.R.Intn(2), "t", nil, []Set{{bodyS(g, n), LitEx(Int(1))}})
	}},
	{"update value", "crud", func(g *Gen, n int) *Op {
		return OpUpdate(1, "t", nil, []Set{{"c", LitEx(Str(bodyS(g, n)))}, {"d", LitEx(Int(1))}})
	}},
	{"delete criteria", "crud", func(g *Gen, n int) *Op {
		c := Ctors[7].Apply([]Ex{ColumnEx("c"), LitEx(Str(bodyS(g, n)))})
		return OpDelete("t", &c)
	}},
	{"update criteria", "crud", func(g *Gen, n int) *Op {
		c := Ctors[7].Apply([]Ex{ColumnEx("c"), LitEx(Bytes(body(g, n)))})
		return OpUpdate(g.R.Intn(2), "t", &c, []Set{{"a", LitEx(Int(1))}})
	}},
	{"delete table", "crud", func(g *Gen, n int) *Op { return OpDelete(bodyS(g, n), nil) }},
	{"insert row total", "crud", func(g *Gen, n int) *Op {
		return OpInsert(g.R.Intn(3), "t", []string{"a", "b"}, [][]Ex{{LitEx(Int(1)), LitEx(Bytes(body(g, n)))}, {LitEx(Str(bodyS(g, n))), LitEx(Int(2))}, {LitEx(Null()), LitEx(Null())}})
	}},
	{"insertrow total", "crud", func(g *Gen, n int) *Op {
		return g.OpInsertRow("t", []string{"a", "b"}, []Ex{LitEx(Int(1)), LitEx(Bytes(body(g, n)))})
	}},
}

// CountSweeps sweep numbers of rows, arguments and operands.
var CountSweeps = []Sweep{
	{"args", "arg", func(g *Gen, n int) *Op {
		a := make([]Val, n)
		for i := range a {
			a[i] = Int(i)
		}
		return OpStmt("s", a)
	}},
	{"execute args", "arg", func(g *Gen, n int) *Op {
		a := make([]Val, n)
		for i := range a {
			a[i] = Uint16(uint16(i))
		}
		return OpExecute(uint32(n), a)
	}},
	{"rows", "crud", func(g *Gen, n int) *Op {
		rows := make([][]Ex, n)
		for i := range rows {
			rows[i] = []Ex{LitEx(Int(i))}
		}
		return OpInsert(n%3, "t", []string{"c"}, rows)
	}},
	{"columns", "crud", func(g *Gen, n int) *Op {
		cols := make([]string, n)
		row := make([]Ex, n)
		for i := range cols {
			cols[i] = string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26)})
			row[i] = LitEx(Int(i))
		}
		return OpInsert(n%3, "t", cols, [][]Ex{row})
	}},
	{"sets", "crud", func(g *Gen, n int) *Op {
		s := make([]Set, n)
		for i := range s {
			s[i] = Set{string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676)}), LitEx(Int(i))}
		}
		return OpUpdate(n%2, "t", nil, s)
	}},
	{"in operands", "expr", func(g *Gen, n int) *Op {
		a := make([]Ex, n+1)
		for i := range a {
			a[i] = LitEx(Int(i))
		}
		return critDelete(Ctors[36+n%4].Apply(a))
	}},
	{"concat operands", "expr", func(g *Gen, n int) *Op {
		a := make([]Ex, n)
		for i := range a {
			a[i] = LitEx(Str("x"))
		}
		return one(Ctors[40].Apply(a))
	}},
	{"nested operators", "expr", func(g *Gen, n int) *Op {
		e := ColumnEx("c")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				e = Ctors[1].Apply([]Ex{{e.V, e.N, "."}})
			} else {
				e = Ctors[4].Apply([]Ex{LitEx(Int(i)), {e.V, e.N, "."}})
			}
		}
		return critDelete(e)
	}},
}

// Lengths is the exhaustive list of swept sizes: everything up to lo, then the
// neighbourhoods of 2^14 and 2^21 (below: nested headers push the boundary of
// an enclosing length down by a few dozen bytes).
func Lengths(lo, below14, below21 int) []int {
	var r []int
	for i := 0; i <= lo; i++ {
		r = append(r, i)
	}
	for i := 16384 - below14; below14 > 0 && i <= 16384+4; i++ {
		if i > lo {
			r = append(r, i)
		}
	}
	for i := 1<<21 - below21; below21 > 0 && i <= 1<<21+2; i++ {
		r = append(r, i)
	}
	return r
}

// SweepProg is a unit of work with the swept op in the middle, so that an
// error in its size also derails what follows.
func SweepProg(g *Gen, s Sweep, n int) *Prog {
	p := &Prog{}
	g.P = p
	p.Ops = []*Op{OpDeallocate(1), s.Mk(g, n), OpStmt("tail", []Val{Int(1)})}
	return p
}

var _ = wire.VNull
