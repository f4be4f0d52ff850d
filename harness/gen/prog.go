package gen

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"xv/wire"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/xproto"
)

// Ex is something usable as an expression operand.
type Ex struct {
	V interface{}
	N *wire.Node // Expr
	D string
}

// F is the value as an expression function (criteria need one).
func (e Ex) F() xproto.AppendExprFunc { return e.V.(xproto.AppendExprFunc) }

func OpNode(name string, p ...Ex) *wire.Node {
	op := wire.New("Operator").Str(1, name)
	for _, x := range p {
		op.Sub(2, x.N)
	}
	return wire.New("Expr").U(1, wire.ExprOp).Sub(6, op)
}

func FuncNode(name string, p ...Ex) *wire.Node {
	f := wire.New("FunctionCall").Sub(1, wire.New("Identifier").Str(1, name))
	for _, x := range p {
		f.Sub(2, x.N)
	}
	return wire.New("Expr").U(1, wire.ExprFunc).Sub(5, f)
}

func names(p []Ex) string {
	var s []string
	for _, x := range p {
		s = append(s, x.D)
	}
	return strings.Join(s, ", ")
}

func vs(p []Ex) []interface{} {
	r := make([]interface{}, len(p))
	for i := range p {
		r[i] = p[i].V
	}
	return r
}

func LitEx(v Val) Ex { return Ex{v.V, v.Expr(), v.D} }

func ColumnEx(name string) Ex {
	return Ex{xtorm.Column(name), wire.New("Expr").U(1, wire.ExprIdent).Sub(2, wire.New("ColumnIdentifier").Str(2, name)), "Column(" + short([]byte(name)) + ")"}
}

func VarEx(name string) Ex {
	return Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) }),
		wire.New("Expr").U(1, wire.ExprVariable).Str(3, name), "Variable(" + short([]byte(name)) + ")"}
}

func PlaceholderEx(pos uint32) Ex {
	return Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, pos) }),
		wire.New("Expr").U(1, wire.ExprPlaceholder).U(7, uint64(pos)), fmt.Sprintf("Placeholder(%d)", pos)}
}

// Ctor is an exported expression constructor: its X Protocol name and arity.
type Ctor struct {
	Go, Name string
	Arity    int // -1: any (first operand fixed for in/not_in)
	Func     bool
	Mk       func(a []interface{}) xproto.AppendExprFunc
}

func u1(f func(a interface{}) xproto.AppendExprFunc) func([]interface{}) xproto.AppendExprFunc {
	return func(a []interface{}) xproto.AppendExprFunc { return f(a[0]) }
}
func b2(f func(a, b interface{}) xproto.AppendExprFunc) func([]interface{}) xproto.AppendExprFunc {
	return func(a []interface{}) xproto.AppendExprFunc { return f(a[0], a[1]) }
}

// Ctors lists every operator and function constructor; operator names are the
// ones the X Protocol defines.
var Ctors = []Ctor{
	{"Default", "default", 0, false, func([]interface{}) xproto.AppendExprFunc { return xtorm.Default() }},
	{"Not", "!", 1, false, u1(xtorm.Not)},
	{"Plus", "sign_plus", 1, false, u1(xtorm.Plus)},
	{"Minus", "sign_minus", 1, false, u1(xtorm.Minus)},
	{"And", "&&", 2, false, b2(xtorm.And)},
	{"Or", "||", 2, false, b2(xtorm.Or)},
	{"Xor", "xor", 2, false, b2(xtorm.Xor)},
	{"Eq", "==", 2, false, b2(xtorm.Eq)},
	{"Neq", "!=", 2, false, b2(xtorm.Neq)},
	{"Lte", "<=", 2, false, b2(xtorm.Lte)},
	{"Lt", "<", 2, false, b2(xtorm.Lt)},
	{"Gt", ">", 2, false, b2(xtorm.Gt)},
	{"Gte", ">=", 2, false, b2(xtorm.Gte)},
	{"BitAnd", "&", 2, false, b2(xtorm.BitAnd)},
	{"BitOr", "|", 2, false, b2(xtorm.BitOr)},
	{"BitXor", "^", 2, false, b2(xtorm.BitXor)},
	{"LeftShift", "<<", 2, false, b2(xtorm.LeftShift)},
	{"RightShift", ">>", 2, false, b2(xtorm.RightShift)},
	{"Add", "+", 2, false, b2(xtorm.Add)},
	{"Sub", "-", 2, false, b2(xtorm.Sub)},
	{"Mul", "*", 2, false, b2(xtorm.Mul)},
	{"Div", "/", 2, false, b2(xtorm.Div)},
	{"IntDiv", "div", 2, false, b2(xtorm.IntDiv)},
	{"Mod", "%", 2, false, b2(xtorm.Mod)},
	{"Is", "is", 2, false, b2(xtorm.Is)},
	{"IsNot", "is_not", 2, false, b2(xtorm.IsNot)},
	{"Regexp", "regexp", 2, false, b2(xtorm.Regexp)},
	{"NotRegexp", "not_regexp", 2, false, b2(xtorm.NotRegexp)},
	{"Like", "like", 2, false, b2(xtorm.Like)},
	{"NotLike", "not_like", 2, false, b2(xtorm.NotLike)},
	{"ContIn", "cont_in", 2, false, b2(xtorm.ContIn)},
	{"NotContIn", "not_cont_in", 2, false, b2(xtorm.NotContIn)},
	{"Overlaps", "overlaps", 2, false, b2(xtorm.Overlaps)},
	{"NotOverlaps", "not_overlaps", 2, false, b2(xtorm.NotOverlaps)},
	{"Between", "between", 3, false, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Between(a[0], a[1], a[2]) }},
	{"NotBetween", "not_between", 3, false, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotBetween(a[0], a[1], a[2]) }},
	{"In", "in", -1, false, func(a []interface{}) xproto.AppendExprFunc { return xtorm.In(a[0], a[1:]) }},
	{"InV", "in", -1, false, func(a []interface{}) xproto.AppendExprFunc { return xtorm.InV(a[0], a[1:]...) }},
	{"NotIn", "not_in", -1, false, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotIn(a[0], a[1:]) }},
	{"NotInV", "not_in", -1, false, func(a []interface{}) xproto.AppendExprFunc { return xtorm.NotInV(a[0], a[1:]...) }},
	{"Concat", "CONCAT", -1, true, func(a []interface{}) xproto.AppendExprFunc { return xtorm.Concat(a...) }},
	{"RowCount", "ROW_COUNT", 0, true, func([]interface{}) xproto.AppendExprFunc { return xtorm.RowCount() }},
	{"LastInsertID", "LAST_INSERT_ID", 0, true, func([]interface{}) xproto.AppendExprFunc { return xtorm.LastInsertID() }},
}

// Units lists the date units with the text MySQL expects.
var Units = []struct {
	U xtorm.DateUnit
	S string
}{
	{xtorm.UnitMicroSecond, "MICROSECOND"}, {xtorm.UnitSecond, "SECOND"}, {xtorm.UnitMinute, "MINUTE"}, {xtorm.UnitHour, "HOUR"},
	{xtorm.UnitDay, "DAY"}, {xtorm.UnitWeek, "WEEK"}, {xtorm.UnitMonth, "MONTH"}, {xtorm.UnitQuarter, "QUARTER"}, {xtorm.UnitYear, "YEAR"},
	{xtorm.UnitSecondMicrosecond, "SECOND_MICROSECOND"}, {xtorm.UnitMinuteMicrosecond, "MINUTE_MICROSECOND"}, {xtorm.UnitMinuteSecond, "MINUTE_SECOND"},
	{xtorm.UnitHourMicrosecond, "HOUR_MICROSECOND"}, {xtorm.UnitHourSecond, "HOUR_SECOND"}, {xtorm.UnitHourMinute, "HOUR_MINUTE"},
	{xtorm.UnitDayMicrosecond, "DAY_MICROSECOND"}, {xtorm.UnitDaySecond, "DAY_SECOND"}, {xtorm.UnitDayMinute, "DAY_MINUTE"}, {xtorm.UnitDayHour, "DAY_HOUR"},
}

// Apply builds the expression of a constructor over operands.
func (c Ctor) Apply(a []Ex) Ex {
	n := OpNode
	if c.Func {
		n = FuncNode
	}
	return Ex{c.Mk(vs(a)), n(c.Name, a...), c.Go + "(" + names(a) + ")"}
}

func DateEx(sub bool, a, b Ex, u int) Ex {
	unit := LitEx(Bytes([]byte(Units[u].S)))
	if sub {
		return Ex{xtorm.DateSub(a.V, b.V, Units[u].U), OpNode("date_sub", a, b, unit), "DateSub(" + a.D + ", " + b.D + ", " + Units[u].S + ")"}
	}
	return Ex{xtorm.DateAdd(a.V, b.V, Units[u].U), OpNode("date_add", a, b, unit), "DateAdd(" + a.D + ", " + b.D + ", " + Units[u].S + ")"}
}

// Gen carries generation state of one program.
type Gen struct {
	R        *rand.Rand
	Max      int // largest single name/value
	Depth    int // expression depth
	MaxOps   int
	MapMulti bool // Update(map) with more than one entry
	P        *Prog

	Budget int // Scopes: calls left (0: 200)

	Pool []Ex  // expressions to draw from (all expression functions), if any
	Vals []Val // literals to draw from, if any

	seen []string // names and texts drawn so far: some are drawn again
}

var usual = []string{"", "*", "id", "t", "a.b", "`a`", "@x", "@@autocommit", "$.a", "ID", "default", "NULL", "?", "SELECT 1", "select 1;", "a\x00b", "COMMIT", "é", "users", "db.users"}

// Text draws a name or statement text of any size; often one used before, or
// one that a careless implementation could treat specially.
func (g *Gen) Text() string {
	switch k := g.R.Intn(10); {
	case k < 3 && len(g.seen) > 0:
		return g.seen[g.R.Intn(len(g.seen))]
	case k == 3:
		s := usual[g.R.Intn(len(usual))]
		g.seen = append(g.seen, s)
		return s
	}
	s := string(Raw(g.R, Size(g.R, g.Max)))
	if len(g.seen) < 16 {
		g.seen = append(g.seen, s)
	} else {
		g.seen[g.R.Intn(16)] = s
	}
	return s
}

// Expr draws an operator/function/column expression (always an expression function).
func (g *Gen) Expr(depth int) Ex {
	r := g.R
	if len(g.Pool) > 0 && r.Intn(3) == 0 {
		return g.Pool[r.Intn(len(g.Pool))]
	}
	if depth <= 0 || r.Intn(6) == 0 {
		switch r.Intn(5) {
		case 0:
			if e, ok := g.capture(); ok {
				return e
			}
			fallthrough
		case 1:
			return VarEx(g.Text())
		case 2:
			return PlaceholderEx(uint32(U64(r)))
		default:
			return ColumnEx(g.Text())
		}
	}
	switch r.Intn(12) {
	case 0:
		return DateEx(r.Intn(2) == 0, g.Operand(depth-1), g.Operand(depth-1), r.Intn(len(Units)))
	case 1:
		name := g.Text()
		a := g.operands(r.Intn(4), depth)
		return Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) {
			return xproto.AppendExprFunctionCall(p, tag, name, vs(a))
		}), FuncNode(name, a...), "FunctionCall(" + short([]byte(name)) + "; " + names(a) + ")"}
	case 2:
		name := g.Text()
		a := g.operands(r.Intn(4), depth)
		return Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) {
			return xproto.AppendExprOperator(p, tag, name, vs(a))
		}), OpNode(name, a...), "Operator(" + short([]byte(name)) + "; " + names(a) + ")"}
	}
	c := Ctors[r.Intn(len(Ctors))]
	n := c.Arity
	if n < 0 {
		n = r.Intn(5)
		if !c.Func {
			n++
		}
		if r.Intn(20) == 0 {
			n += r.Intn(60)
		}
	}
	return c.Apply(g.operands(n, depth))
}

func (g *Gen) operands(n, depth int) []Ex {
	a := make([]Ex, n)
	for i := range a {
		if i > 0 && g.R.Intn(6) == 0 {
			a[i] = a[g.R.Intn(i)] // the same expression value again
			continue
		}
		a[i] = g.Operand(depth - 1)
	}
	return a
}

// Operand draws a literal or an expression.
func (g *Gen) Operand(depth int) Ex {
	if depth > 0 && g.R.Intn(2) == 0 {
		return g.Expr(depth)
	}
	if g.R.Intn(4) == 0 {
		return g.Expr(0)
	}
	if len(g.Vals) > 0 && g.R.Intn(2) == 0 {
		return LitEx(g.Vals[g.R.Intn(len(g.Vals))])
	}
	return LitEx(Lit(g.R, g.Max))
}

// ---- programs ----

// ExpFrame is one expected message.
type ExpFrame struct {
	Type byte
	N    *wire.Node
	// Unordered: repeated field whose order is not specified (sorted by its encoding key).
	Unordered int
	What      string
}

// Op is one builder call with what it has to produce.
type Op struct {
	D     string
	Do    func(b *xtorm.Builder)
	Exp   []ExpFrame // before Body
	Body  []*Op
	After []ExpFrame
	capt  bool
}

// Prog is a re-runnable unit of work.
type Prog struct {
	Ops  []*Op
	vars []*capture
}

type capture struct {
	f    xproto.AppendExprFunc
	name string
	done bool
}

// Run makes the calls.
func (p *Prog) Run(b *xtorm.Builder) {
	for _, op := range p.Ops {
		op.Do(b)
	}
}

// Frames is the expected message sequence.
func (p *Prog) Frames() []ExpFrame {
	var r []ExpFrame
	var rec func(ops []*Op)
	rec = func(ops []*Op) {
		for _, o := range ops {
			r = append(r, o.Exp...)
			rec(o.Body)
			r = append(r, o.After...)
		}
	}
	rec(p.Ops)
	return r
}

func (p *Prog) String() string {
	var sb strings.Builder
	var rec func(ops []*Op)
	rec = func(ops []*Op) {
		for _, o := range ops {
			sb.WriteString(o.D)
			if o.Body != nil {
				sb.WriteString("{ ")
				rec(o.Body)
				sb.WriteString("}")
			}
			sb.WriteString("; ")
		}
	}
	rec(p.Ops)
	return sb.String()
}

// CaptureNames returns the variable names seen by the last comparison.
func (p *Prog) CaptureNames() []string {
	var r []string
	for _, c := range p.vars {
		if c.name != "" {
			r = append(r, c.name)
		}
	}
	return r
}

// capture draws an already made id capture.
func (g *Gen) capture() (Ex, bool) {
	if g.P == nil {
		return Ex{}, false
	}
	var ok []*capture
	for _, c := range g.P.vars {
		if c.done {
			ok = append(ok, c)
		}
	}
	if len(ok) == 0 {
		return Ex{}, false
	}
	c := ok[g.R.Intn(len(ok))]
	n := wire.New("Expr").U(1, wire.ExprVariable).Match(3, func(b []byte) string {
		if c.name == "" {
			return "reference to a captured id before its SET statement"
		}
		if varName(string(b)) != varName(c.name) {
			return fmt.Sprintf("refers to variable %q, the id was stored in %q", b, c.name)
		}
		return ""
	})
	return Ex{xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return c.f(p, tag) }), n, "captured-id"}, true
}

func varName(s string) string {
	s = strings.TrimPrefix(s, "@")
	if len(s) >= 2 && (s[0] == '`' || s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
		s = s[1 : len(s)-1]
	}
	return strings.ToLower(s) // user variable names are not case sensitive
}

// SQLIs matches SQL text up to case and white space.
func SQLIs(want string) func([]byte) string {
	norm := func(s string) string {
		s = strings.ToUpper(strings.Join(strings.Fields(s), " "))
		return strings.TrimSpace(strings.TrimSuffix(s, ";"))
	}
	return func(b []byte) string {
		if norm(string(b)) == norm(want) {
			return ""
		}
		return fmt.Sprintf("statement is %s, want %q", short(b), want)
	}
}

// setID matches SET @x = LAST_INSERT_ID() and captures the variable.
func setID(c *capture) func([]byte) string {
	return func(b []byte) string {
		s := strings.TrimSuffix(strings.TrimSpace(string(b)), ";")
		f := strings.TrimSpace(s)
		if len(f) < 4 || !strings.EqualFold(f[:3], "set") || (f[3] != ' ' && f[3] != '\t' && f[3] != '\n') {
			return fmt.Sprintf("statement is %s, want SET @variable = LAST_INSERT_ID()", short(b))
		}
		f = f[4:]
		i := strings.Index(f, "=")
		if i < 0 {
			return fmt.Sprintf("statement is %s, want SET @variable = LAST_INSERT_ID()", short(b))
		}
		name := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(f[:i]), ":"))
		val := strings.Join(strings.Fields(f[i+1:]), "")
		if !strings.EqualFold(val, "LAST_INSERT_ID()") || len(name) < 2 || name[0] != '@' || name[1] == '@' {
			return fmt.Sprintf("statement is %s, want SET @variable = LAST_INSERT_ID()", short(b))
		}
		c.name = name
		return ""
	}
}

func (g *Gen) name() string { return g.Text() }

func StmtFrame(stmt string, args ...Val) ExpFrame {
	n := wire.New("StmtExecute").Str(1, stmt)
	for _, a := range args {
		n.Sub(2, a.Any())
	}
	return ExpFrame{Type: wire.StmtExecute, N: n, What: "StmtExecute"}
}

func sqlFrame(want string) ExpFrame {
	return ExpFrame{Type: wire.StmtExecute, N: wire.New("StmtExecute").Match(1, SQLIs(want)), What: want}
}

func vals(a []Val) []interface{} {
	r := make([]interface{}, len(a))
	for i := range a {
		r[i] = a[i].V
	}
	return r
}

func vdesc(a []Val) string {
	var s []string
	for i, x := range a {
		if i == 8 {
			s = append(s, fmt.Sprintf("..(%d)", len(a)))
			break
		}
		s = append(s, x.D)
	}
	return strings.Join(s, ", ")
}

func (g *Gen) args() []Val {
	n := g.R.Intn(5)
	if g.R.Intn(30) == 0 {
		n = g.R.Intn(300)
	}
	a := make([]Val, n)
	for i := range a {
		if len(g.Vals) > 0 && g.R.Intn(2) == 0 {
			a[i] = g.Vals[g.R.Intn(len(g.Vals))]
			continue
		}
		if i > 0 && g.R.Intn(8) == 0 {
			a[i] = a[g.R.Intn(i)]
			continue
		}
		a[i] = Arg(g.R, g.Max)
	}
	return a
}

// Constructors of single ops, reused by the specialised checks.

func OpStmt(stmt string, args []Val) *Op {
	v := vals(args)
	return &Op{D: "StmtExecute(" + short([]byte(stmt)) + "; " + vdesc(args) + ")",
		Do: func(b *xtorm.Builder) { b.StmtExecute(stmt, v...) }, Exp: []ExpFrame{StmtFrame(stmt, args...)}}
}

func OpPrepare(id uint32, stmt string) *Op {
	n := wire.New("Prepare").U(1, uint64(id)).Sub(2, wire.New("OneOfMessage").U(1, 5).Sub(6, wire.New("StmtExecute").Str(1, stmt)))
	return &Op{D: fmt.Sprintf("Prepare(%d, %s)", id, short([]byte(stmt))),
		Do: func(b *xtorm.Builder) { b.Prepare(id, stmt) }, Exp: []ExpFrame{{Type: wire.PreparePrepare, N: n, What: "Prepare"}}}
}

func OpExecute(id uint32, args []Val) *Op {
	n := wire.New("Execute").U(1, uint64(id))
	for _, a := range args {
		n.Sub(2, a.Any())
	}
	v := vals(args)
	return &Op{D: fmt.Sprintf("Execute(%d; %s)", id, vdesc(args)),
		Do: func(b *xtorm.Builder) { b.Execute(id, v...) }, Exp: []ExpFrame{{Type: wire.PrepareExecute, N: n, What: "Execute"}}}
}

func OpDeallocate(id uint32) *Op {
	return &Op{D: fmt.Sprintf("Deallocate(%d)", id), Do: func(b *xtorm.Builder) { b.Deallocate(id) },
		Exp: []ExpFrame{{Type: wire.PrepareDeallocate, N: wire.New("Deallocate").U(1, uint64(id)), What: "Deallocate"}}}
}

func InsertNode(table string, cols []string, rows [][]Ex) *wire.Node {
	n := wire.New("Insert").Sub(1, wire.New("Collection").Str(1, table)).U(2, wire.ModelTable)
	for _, c := range cols {
		n.Sub(3, wire.New("Column").Str(1, c))
	}
	for _, row := range rows {
		t := wire.New("TypedRow")
		for _, x := range row {
			t.Sub(1, x.N)
		}
		n.Sub(4, t)
	}
	return n
}

func rowsDesc(rows [][]Ex) string {
	var sb strings.Builder
	for i, r := range rows {
		if i == 3 {
			fmt.Fprintf(&sb, "..(%d rows)", len(rows))
			break
		}
		sb.WriteString("[" + names(r) + "]")
	}
	return sb.String()
}

// OpInsert: form 0 Insert, 1 InsertF with Row, 2 InsertF with RowV.
func OpInsert(form int, table string, cols []string, rows [][]Ex) *Op {
	data := make([][]interface{}, len(rows))
	for i := range rows {
		data[i] = vs(rows[i])
	}
	o := &Op{Exp: []ExpFrame{{Type: wire.CrudInsert, N: InsertNode(table, cols, rows), What: "Insert"}}}
	d := fmt.Sprintf("%s, %d cols, %s)", short([]byte(table)), len(cols), rowsDesc(rows))
	switch form {
	case 0:
		o.D = "Insert(" + d
		o.Do = func(b *xtorm.Builder) { b.Insert(table, cols, data) }
	default:
		o.D = "InsertF(" + d
		o.Do = func(b *xtorm.Builder) {
			b.InsertF(table, cols, func(i *xtorm.Insert) error {
				for _, r := range data {
					if form == 2 {
						i.RowV(r...)
					} else {
						i.Row(r)
					}
				}
				return nil
			})
		}
	}
	return o
}

// OpInsertRow captures the generated id.
func (g *Gen) OpInsertRow(table string, cols []string, row []Ex) *Op {
	c := &capture{}
	g.P.vars = append(g.P.vars, c)
	v := vs(row)
	o := &Op{D: fmt.Sprintf("InsertRow(%s, %d cols, %s)", short([]byte(table)), len(cols), rowsDesc([][]Ex{row})),
		Do: func(b *xtorm.Builder) { c.f = b.InsertRow(table, cols, v) },
		Exp: []ExpFrame{{Type: wire.CrudInsert, N: InsertNode(table, cols, [][]Ex{row}), What: "InsertRow"},
			{Type: wire.StmtExecute, N: wire.New("StmtExecute").Match(1, setID(c)), What: "SET @id"}}}
	c.done = true
	o.capt = true
	return o
}

type Set struct {
	Col string
	X   Ex
}

func UpdateNode(table string, crit *Ex, sets []Set) *wire.Node {
	n := wire.New("Update").Sub(2, wire.New("Collection").Str(1, table)).U(3, wire.ModelTable)
	if crit != nil {
		n.Sub(4, crit.N)
	}
	for _, s := range sets {
		n.Sub(7, wire.New("UpdateOperation").Sub(1, wire.New("ColumnIdentifier").Str(2, s.Col)).U(2, 1).Sub(3, s.X.N))
	}
	return n
}

func critF(c *Ex) xproto.AppendExprFunc {
	if c == nil {
		return nil
	}
	return c.F()
}
func critD(c *Ex) string {
	if c == nil {
		return "no criteria"
	}
	return c.D
}

// OpUpdate: form 0 map, 1 callback.
func OpUpdate(form int, table string, crit *Ex, sets []Set) *Op {
	o := &Op{Exp: []ExpFrame{{Type: wire.CrudUpdate, N: UpdateNode(table, crit, sets), What: "Update"}}}
	var sd []string
	for _, s := range sets {
		sd = append(sd, short([]byte(s.Col))+"="+s.X.D)
	}
	d := short([]byte(table)) + ", " + critD(crit) + ", {" + strings.Join(sd, ", ") + "})"
	f := critF(crit)
	if form == 0 {
		m := map[string]interface{}{}
		for _, s := range sets {
			m[s.Col] = s.X.V
		}
		o.Exp[0].Unordered = 7
		o.D = "Update(" + d
		o.Do = func(b *xtorm.Builder) { b.Update(table, f, m) }
	} else {
		o.D = "UpdateF(" + d
		o.Do = func(b *xtorm.Builder) {
			b.UpdateF(table, f, func(u *xtorm.Update) error {
				for _, s := range sets {
					u.Set(s.Col, s.X.V)
				}
				return nil
			})
		}
	}
	return o
}

func OpDelete(table string, crit *Ex) *Op {
	n := wire.New("Delete").Sub(1, wire.New("Collection").Str(1, table)).OptU(2, wire.ModelTable)
	if crit != nil {
		n.Sub(3, crit.N)
	}
	f := critF(crit)
	return &Op{D: "Delete(" + short([]byte(table)) + ", " + critD(crit) + ")", Do: func(b *xtorm.Builder) { b.Delete(table, f) },
		Exp: []ExpFrame{{Type: wire.CrudDelete, N: n, What: "Delete"}}}
}

// Levels is every isolation level with the statements it has to emit first.
var Levels = []struct {
	L     xtorm.IsolationLevel
	Name  string
	Set   string
	Start string
}{
	{xtorm.IsolationLevelDefault, "default", "", "START TRANSACTION"},
	{xtorm.IsolationLevelReadUncommitted, "ru", "SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED", "START TRANSACTION"},
	{xtorm.IsolationLevelReadCommitted, "rc", "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "START TRANSACTION"},
	{xtorm.IsolationLevelRepeatableRead, "rr", "SET TRANSACTION ISOLATION LEVEL REPEATABLE READ", "START TRANSACTION"},
	{xtorm.IsolationLevelSerializable, "ser", "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "START TRANSACTION"},
	{xtorm.IsolationLevelSnapshot, "snap", "", "START TRANSACTION WITH CONSISTENT SNAPSHOT"},
}

func OpTx(level int, body []*Op) *Op {
	l := Levels[level]
	o := &Op{D: "Tx(" + l.Name + ")", Body: body, After: []ExpFrame{sqlFrame("COMMIT")}}
	if l.Set != "" {
		o.Exp = append(o.Exp, sqlFrame(l.Set))
	}
	o.Exp = append(o.Exp, sqlFrame(l.Start))
	o.Do = func(b *xtorm.Builder) {
		b.Tx(l.L, func(c *xtorm.Builder) error {
			for _, x := range o.Body {
				x.Do(c)
			}
			return nil
		})
	}
	if o.Body == nil {
		o.Body = []*Op{}
	}
	return o
}

// Contexts: COPY_PREV is 0, EMPTY is 1.
var Contexts = []struct {
	C xtorm.OpenContext
	V uint64
}{{xtorm.OpenExpectCtxCopyPrev, 0}, {xtorm.OpenExpectCtxEmpty, 1}}

func OpExpect(ctx int, body []*Op) *Op {
	c := Contexts[ctx]
	open := wire.New("Open").U(1, c.V).Sub(2, wire.New("Condition").U(1, 1).Str(2, "1"))
	o := &Op{D: fmt.Sprintf("Expect(%d)", c.V), Body: body,
		Exp:   []ExpFrame{{Type: wire.ExpectOpen, N: open, What: "ExpectOpen"}},
		After: []ExpFrame{{Type: wire.ExpectClose, N: wire.New("Close"), What: "ExpectClose"}}}
	o.Do = func(b *xtorm.Builder) {
		b.ExpectFailOnError(c.C, func(cb *xtorm.Builder) error {
			for _, x := range o.Body {
				x.Do(cb)
			}
			return nil
		})
	}
	if o.Body == nil {
		o.Body = []*Op{}
	}
	return o
}

func (g *Gen) cols(n int) []string {
	c := make([]string, n)
	for i := range c {
		c[i] = g.name()
	}
	return c
}

func (g *Gen) Row(n int) []Ex {
	r := make([]Ex, n)
	for i := range r {
		r[i] = g.Operand(g.R.Intn(g.Depth + 1))
	}
	return r
}

// rows draws n rows of width w; some repeat an earlier one.
func (g *Gen) rows(n, w int) [][]Ex {
	r := make([][]Ex, n)
	for i := range r {
		if i > 0 && g.R.Intn(5) == 0 {
			r[i] = r[g.R.Intn(i)]
			continue
		}
		r[i] = g.Row(w)
	}
	return r
}

func (g *Gen) sets(n int, unique bool) []Set {
	seen := map[string]bool{}
	var s []Set
	for i := 0; i < n; i++ {
		c := g.name()
		if unique && seen[c] {
			c += fmt.Sprintf("#%d", i)
		}
		if unique && seen[c] {
			continue
		}
		if !unique && i > 0 && g.R.Intn(4) == 0 {
			c = s[i-1].Col // twice in a row
		}
		seen[c] = true
		if i > 0 && len(s) > 0 && g.R.Intn(6) == 0 {
			s = append(s, Set{c, s[g.R.Intn(len(s))].X})
			continue
		}
		s = append(s, Set{c, g.Operand(g.R.Intn(g.Depth + 1))})
	}
	return s
}

func (g *Gen) crit() *Ex {
	if g.R.Intn(4) == 0 {
		return nil
	}
	e := g.Expr(g.R.Intn(g.Depth + 1))
	return &e
}

// Op draws one builder call.
func (g *Gen) Op(depth int) *Op {
	r := g.R
	k := r.Intn(15)
	if depth <= 0 && k >= 12 {
		k = r.Intn(12)
	}
	switch k {
	case 0, 1, 2:
		return OpStmt(g.Text(), g.args())
	case 3:
		return OpPrepare(uint32(U64(r)), g.Text())
	case 4:
		return OpExecute(uint32(U64(r)), g.args())
	case 5:
		return OpDeallocate(uint32(U64(r)))
	case 6, 7:
		n := r.Intn(5)
		k := r.Intn(4)
		if r.Intn(40) == 0 {
			k = r.Intn(60)
		}
		return OpInsert(r.Intn(3), g.name(), g.cols(n), g.rows(k, n))
	case 8:
		n := r.Intn(5)
		return g.OpInsertRow(g.name(), g.cols(n), g.Row(n))
	case 9:
		n := 1
		if g.MapMulti {
			n = r.Intn(5)
		}
		return OpUpdate(0, g.name(), g.crit(), g.sets(n, true))
	case 10:
		return OpUpdate(1, g.name(), g.crit(), g.sets(r.Intn(5), false))
	case 11:
		return OpDelete(g.name(), g.crit())
	case 12, 13:
		return OpTx(r.Intn(len(Levels)), g.ops(r.Intn(4), depth-1))
	default:
		return OpExpect(r.Intn(2), g.ops(r.Intn(4), depth-1))
	}
}

func (g *Gen) ops(n, depth int) []*Op {
	var o []*Op
	for i := 0; i < n; i++ {
		if i > 0 && g.R.Intn(8) == 0 && o[i-1].again() {
			o = append(o, o[i-1])
			continue
		}
		o = append(o, g.Op(depth))
	}
	return o
}

// again: can the very same call be made twice (no id is captured in it)?
func (o *Op) again() bool {
	for _, b := range o.Body {
		if !b.again() {
			return false
		}
	}
	return !o.capt
}

// Program draws a whole unit of work.
func Program(r *rand.Rand, max, depth, maxOps int, mapMulti bool) *Prog {
	p := &Prog{}
	g := &Gen{R: r, Max: max, Depth: 3, MaxOps: maxOps, MapMulti: mapMulti, P: p}
	p.Ops = g.ops(1+r.Intn(maxOps), depth)
	return p
}

// SharedProgram draws a unit of work that uses the given expressions and values.
func SharedProgram(r *rand.Rand, max, depth, maxOps int, pool []Ex, vals []Val) *Prog {
	p := &Prog{}
	g := &Gen{R: r, Max: max, Depth: 3, MaxOps: maxOps, MapMulti: true, P: p, Pool: pool, Vals: vals}
	p.Ops = g.ops(1+r.Intn(maxOps), depth)
	return p
}

// ---- observation ----

// Recorder is a netx.Sender that keeps what it is given.
type Recorder struct {
	Calls int
	B     []byte
	Raw   []byte // the slice itself, not a copy
	Ctx   context.Context
	Resp  []netx.Response
	Err   error
}

func (s *Recorder) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.Calls++
	s.B = append([]byte(nil), b...)
	s.Raw = b
	s.Ctx = ctx
	return s.Resp, s.Err
}

// Class of a mismatch.
const (
	Framing = "framing" // frames, encoding, number/type/order of messages
	Content = "content"
)

// Compare decides whether a sent buffer is the expected message sequence.
func Compare(exp []ExpFrame, b []byte) (class, diff string) {
	fr, err := wire.Split(b)
	if err != nil {
		return Framing, err.Error()
	}
	for i := range fr {
		if i >= len(exp) {
			return Framing, fmt.Sprintf("message %d (%s) is not expected: %d messages were made", i, wire.TypeName(fr[i].Type), len(exp))
		}
		if fr[i].Type != exp[i].Type {
			return Framing, fmt.Sprintf("message %d is a %s, want a %s (%s)", i, wire.TypeName(fr[i].Type), wire.TypeName(exp[i].Type), exp[i].What)
		}
		if _, err := fr[i].Decode(); err != nil {
			return Framing, fmt.Sprintf("message %d (%s) does not decode: %s", i, exp[i].What, err)
		}
	}
	if len(fr) < len(exp) {
		return Framing, fmt.Sprintf("only %d of %d messages: %s missing", len(fr), len(exp), exp[len(fr)].What)
	}
	for i := range fr {
		n, _ := fr[i].Decode()
		e := exp[i].N
		if u := exp[i].Unordered; u != 0 {
			e, n = sorted(e, u), sorted(n, u)
		}
		if d := wire.Diff(e, n); d != "" {
			return Content, fmt.Sprintf("message %d (%s): %s", i, exp[i].What, d)
		}
	}
	return "", ""
}

// sorted returns a copy of an Update node with its operations ordered by column.
func sorted(n *wire.Node, field int) *wire.Node {
	c := &wire.Node{S: n.S, F: append([]wire.Val(nil), n.F...)}
	key := func(v wire.Val) string {
		if v.N != nil {
			if s := v.N.Get(1); s != nil && s.N != nil {
				if m := s.N.Get(2); m != nil {
					return string(m.B)
				}
			}
		}
		return ""
	}
	sort.SliceStable(c.F, func(i, j int) bool {
		a, b := c.F[i], c.F[j]
		if a.Num != b.Num {
			return a.Num < b.Num
		}
		return a.Num == field && key(a) < key(b)
	})
	return c
}

// Check runs the program on a fresh pipe of capacity n and compares.
func (p *Prog) Check(n int) (class, diff string, sent []byte) {
	x := xtorm.New(n)
	p.Run(&x.Builder)
	return p.CheckPipe(x)
}

// CheckPipe sends what the pipe holds and compares.
func (p *Prog) CheckPipe(x *xtorm.XPipe) (class, diff string, sent []byte) {
	var s Recorder
	_, err := x.Send(context.Background(), &s)
	if err != nil {
		return Content, "Send failed although every call was valid: " + err.Error(), nil
	}
	if s.Calls != 1 {
		return Framing, fmt.Sprintf("Send reached the transport %d times", s.Calls), s.B
	}
	class, diff = p.Compare(s.B)
	return class, diff, s.B
}

// Compare decides whether b is what the program has to send.
func (p *Prog) Compare(b []byte) (class, diff string) {
	for _, c := range p.vars {
		c.name = ""
	}
	class, diff = Compare(p.Frames(), b)
	if class == "" {
		seen := map[string]bool{}
		for _, n := range p.CaptureNames() {
			if seen[varName(n)] {
				return Content, "two captured ids share the variable " + n
			}
			seen[varName(n)] = true
		}
	}
	return class, diff
}

// Capture draws an already made id capture, if any.
func (g *Gen) Capture() (Ex, bool) { return g.capture() }

// Crud draws inserts, updates and deletes, some inside scopes.
func (g *Gen) Crud(n, depth int) []*Op {
	var o []*Op
	r := g.R
	for i := 0; i < n; i++ {
		switch k := r.Intn(12); {
		case k < 3:
			w := r.Intn(6)
			o = append(o, OpInsert(r.Intn(3), g.name(), g.cols(w), g.rows(r.Intn(5), w)))
		case k < 5:
			w := r.Intn(5)
			o = append(o, g.OpInsertRow(g.name(), g.cols(w), g.Row(w)))
		case k < 7:
			o = append(o, OpUpdate(0, g.name(), g.crit(), g.sets(r.Intn(7), true)))
		case k < 9:
			o = append(o, OpUpdate(1, g.name(), g.crit(), g.sets(r.Intn(7), false)))
		case k < 11 || depth == 0:
			o = append(o, OpDelete(g.name(), g.crit()))
		default:
			b := g.Crud(1+r.Intn(3), depth-1)
			if r.Intn(2) == 0 {
				o = append(o, OpTx(r.Intn(len(Levels)), b))
			} else {
				o = append(o, OpExpect(r.Intn(2), b))
			}
		}
	}
	return o
}

// Scopes draws a tree of scopes with little in them.
func (g *Gen) Scopes(n, depth int) []*Op {
	var o []*Op
	r := g.R
	if g.Budget == 0 {
		g.Budget = 200
	}
	for i := 0; i < n && g.Budget > 1; i++ {
		g.Budget--
		k := r.Intn(10)
		switch {
		case depth > 0 && k < 4:
			o = append(o, OpTx(r.Intn(len(Levels)), g.Scopes(r.Intn(4), depth-1)))
		case depth > 0 && k < 8:
			o = append(o, OpExpect(r.Intn(2), g.Scopes(r.Intn(4), depth-1)))
		case k == 8:
			o = append(o, g.OpInsertRow("t", []string{"a"}, []Ex{LitEx(Int(i))}))
		default:
			switch r.Intn(6) {
			case 0:
				o = append(o, OpStmt(g.name(), nil))
			case 1:
				o = append(o, OpDelete("t", g.crit()))
			case 2:
				o = append(o, OpInsert(r.Intn(3), "t", []string{"a"}, [][]Ex{g.Row(1)}))
			case 3:
				o = append(o, OpUpdate(r.Intn(2), "t", nil, g.sets(1, true)))
			case 4:
				o = append(o, OpExecute(uint32(i), []Val{Int(i)}))
			default:
				o = append(o, OpPrepare(uint32(i), "SELECT ?"))
			}
		}
	}
	return o
}
