// Package wire is an independent, strict reader (and small writer) of the
// MySQL X Protocol: frames plus protobuf payloads. It shares no code with the
// repository under test: message types, field numbers and enum values are
// written down here from the published protocol definition, so that a wrong
// constant in the repository cannot hide itself.
package wire

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Client message types.
const (
	CapabilitiesSet      = 2
	ConClose             = 3
	AuthenticateStart    = 4
	AuthenticateContinue = 5
	SessReset            = 6
	SessClose            = 7
	StmtExecute          = 12
	CrudInsert           = 18
	CrudUpdate           = 19
	CrudDelete           = 20
	ExpectOpen           = 24
	ExpectClose          = 25
	PreparePrepare       = 40
	PrepareExecute       = 41
	PrepareDeallocate    = 42
)

// Server message types.
const (
	SOk             = 0
	SError          = 1
	SCapabilities   = 2
	SAuthContinue   = 3
	SAuthOk         = 4
	SNotice         = 11
	SColumnMeta     = 12
	SRow            = 13
	SFetchDone      = 14
	SFetchSuspended = 15
	SFetchDoneMore  = 16
	SStmtOk         = 17
	SFetchDoneOut   = 18
)

// Scalar types, Any types, Expr types.
const (
	VSint, VUint, VNull, VOctets, VDouble, VFloat, VBool, VString = 1, 2, 3, 4, 5, 6, 7, 8

	AnyScalar = 1

	ExprIdent, ExprLiteral, ExprVariable, ExprFunc, ExprOp, ExprPlaceholder = 1, 2, 3, 4, 5, 6

	ModelDocument, ModelTable = 1, 2
)

type kind int

const (
	kUint kind = iota // varint
	kUint32
	kSint // zigzag
	kEnum
	kBool
	kF64
	kF32
	kBytes
	kMsg
)

type field struct {
	name string
	k    kind
	msg  string
	enum []uint64
	req  bool
	rep  bool
	// def: for optional non-repeated fields, the value that means the same as absent.
	def    []byte
	hasDef bool
	udef   uint64
}

type Schema struct {
	Name string
	F    map[int]field
}

func en(v ...uint64) []uint64 { return v }

var schemas = map[string]*Schema{}

func def(name string, f map[int]field) { schemas[name] = &Schema{name, f} }

func init() {
	def("String", map[int]field{1: {name: "value", k: kBytes, req: true}, 2: {name: "collation", k: kUint, hasDef: true}})
	def("Octets", map[int]field{1: {name: "value", k: kBytes, req: true}, 2: {name: "content_type", k: kUint32, hasDef: true}})
	def("Scalar", map[int]field{
		1: {name: "type", k: kEnum, req: true, enum: en(1, 2, 3, 4, 5, 6, 7, 8)},
		2: {name: "v_signed_int", k: kSint}, 3: {name: "v_unsigned_int", k: kUint},
		5: {name: "v_octets", k: kMsg, msg: "Octets"}, 6: {name: "v_double", k: kF64}, 7: {name: "v_float", k: kF32},
		8: {name: "v_bool", k: kBool}, 9: {name: "v_string", k: kMsg, msg: "String"}})
	def("Any", map[int]field{
		1: {name: "type", k: kEnum, req: true, enum: en(1, 2, 3)}, 2: {name: "scalar", k: kMsg, msg: "Scalar"}})
	def("Identifier", map[int]field{1: {name: "name", k: kBytes, req: true}, 2: {name: "schema_name", k: kBytes}})
	def("DocumentPathItem", map[int]field{1: {name: "type", k: kEnum, req: true, enum: en(1, 2, 3, 4, 5)}, 2: {name: "value", k: kBytes}, 3: {name: "index", k: kUint32}})
	def("ColumnIdentifier", map[int]field{1: {name: "document_path", k: kMsg, msg: "DocumentPathItem", rep: true}, 2: {name: "name", k: kBytes}, 3: {name: "table_name", k: kBytes}, 4: {name: "schema_name", k: kBytes}})
	def("FunctionCall", map[int]field{1: {name: "name", k: kMsg, msg: "Identifier", req: true}, 2: {name: "param", k: kMsg, msg: "Expr", rep: true}})
	def("Operator", map[int]field{1: {name: "name", k: kBytes, req: true}, 2: {name: "param", k: kMsg, msg: "Expr", rep: true}})
	def("Expr", map[int]field{
		1: {name: "type", k: kEnum, req: true, enum: en(1, 2, 3, 4, 5, 6, 7, 8)},
		2: {name: "identifier", k: kMsg, msg: "ColumnIdentifier"}, 3: {name: "variable", k: kBytes},
		4: {name: "literal", k: kMsg, msg: "Scalar"}, 5: {name: "function_call", k: kMsg, msg: "FunctionCall"},
		6: {name: "operator", k: kMsg, msg: "Operator"}, 7: {name: "position", k: kUint32}})
	def("Collection", map[int]field{1: {name: "name", k: kBytes, req: true}, 2: {name: "schema", k: kBytes}})
	def("Column", map[int]field{1: {name: "name", k: kBytes}, 2: {name: "alias", k: kBytes}, 3: {name: "document_path", k: kMsg, msg: "DocumentPathItem", rep: true}})
	def("TypedRow", map[int]field{1: {name: "field", k: kMsg, msg: "Expr", rep: true}})
	model := field{name: "data_model", k: kEnum, enum: en(1, 2)}
	def("Insert", map[int]field{
		1: {name: "collection", k: kMsg, msg: "Collection", req: true}, 2: model,
		3: {name: "projection", k: kMsg, msg: "Column", rep: true}, 4: {name: "row", k: kMsg, msg: "TypedRow", rep: true},
		5: {name: "args", k: kMsg, msg: "Scalar", rep: true}, 6: {name: "upsert", k: kBool, hasDef: true}})
	def("UpdateOperation", map[int]field{1: {name: "source", k: kMsg, msg: "ColumnIdentifier", req: true},
		2: {name: "operation", k: kEnum, req: true, enum: en(1, 2, 3, 4, 5, 6, 7, 8)}, 3: {name: "value", k: kMsg, msg: "Expr"}})
	def("Update", map[int]field{
		2: {name: "collection", k: kMsg, msg: "Collection", req: true}, 3: model, 4: {name: "criteria", k: kMsg, msg: "Expr"},
		7: {name: "operation", k: kMsg, msg: "UpdateOperation", rep: true}, 8: {name: "args", k: kMsg, msg: "Scalar", rep: true}})
	def("Delete", map[int]field{
		1: {name: "collection", k: kMsg, msg: "Collection", req: true}, 2: model, 3: {name: "criteria", k: kMsg, msg: "Expr"},
		6: {name: "args", k: kMsg, msg: "Scalar", rep: true}})
	def("StmtExecute", map[int]field{
		1: {name: "stmt", k: kBytes, req: true}, 2: {name: "args", k: kMsg, msg: "Any", rep: true},
		3: {name: "namespace", k: kBytes, hasDef: true, def: []byte("sql")}, 4: {name: "compact_metadata", k: kBool, hasDef: true}})
	def("OneOfMessage", map[int]field{1: {name: "type", k: kEnum, req: true, enum: en(0, 1, 2, 4, 5)},
		3: {name: "insert", k: kMsg, msg: "Insert"}, 4: {name: "update", k: kMsg, msg: "Update"}, 5: {name: "delete", k: kMsg, msg: "Delete"},
		6: {name: "stmt_execute", k: kMsg, msg: "StmtExecute"}})
	def("Prepare", map[int]field{1: {name: "stmt_id", k: kUint32, req: true}, 2: {name: "stmt", k: kMsg, msg: "OneOfMessage", req: true}})
	def("Execute", map[int]field{1: {name: "stmt_id", k: kUint32, req: true}, 2: {name: "args", k: kMsg, msg: "Any", rep: true}, 3: {name: "compact_metadata", k: kBool, hasDef: true}})
	def("Deallocate", map[int]field{1: {name: "stmt_id", k: kUint32, req: true}})
	def("Condition", map[int]field{1: {name: "condition_key", k: kUint32, req: true}, 2: {name: "condition_value", k: kBytes}, 3: {name: "op", k: kEnum, enum: en(0, 1), hasDef: true}})
	def("Open", map[int]field{1: {name: "op", k: kEnum, enum: en(0, 1), hasDef: true}, 2: {name: "cond", k: kMsg, msg: "Condition", rep: true}})
	def("Close", map[int]field{})
	def("Reset", map[int]field{1: {name: "keep_open", k: kBool, hasDef: true}})
	def("AuthenticateStart", map[int]field{1: {name: "mech_name", k: kBytes, req: true}, 2: {name: "auth_data", k: kBytes, hasDef: true}, 3: {name: "initial_response", k: kBytes}})
	def("AuthenticateContinue", map[int]field{1: {name: "auth_data", k: kBytes, req: true}})
	def("Capability", map[int]field{1: {name: "name", k: kBytes, req: true}, 2: {name: "value", k: kMsg, msg: "Any", req: true}})
	def("Capabilities", map[int]field{1: {name: "capabilities", k: kMsg, msg: "Capability", rep: true}})
	def("CapabilitiesSet", map[int]field{1: {name: "capabilities", k: kMsg, msg: "Capabilities", req: true}})
}

// Message type -> payload schema, for every message the client may send.
var clientSchema = map[byte]string{
	CapabilitiesSet: "CapabilitiesSet", AuthenticateStart: "AuthenticateStart", AuthenticateContinue: "AuthenticateContinue",
	SessReset: "Reset", StmtExecute: "StmtExecute", CrudInsert: "Insert", CrudUpdate: "Update", CrudDelete: "Delete",
	ExpectOpen: "Open", ExpectClose: "Close", PreparePrepare: "Prepare", PrepareExecute: "Execute", PrepareDeallocate: "Deallocate",
}

func TypeName(t byte) string {
	if s, ok := clientSchema[t]; ok {
		return s
	}
	return fmt.Sprintf("type(%d)", t)
}

// Val is one field value of a Node.
type Val struct {
	Num int
	U   uint64 // varint, zigzag-decoded (as uint64), fixed bits, enum, bool
	B   []byte
	N   *Node
	// M, on the expected side only: decides a bytes value itself.
	M func(b []byte) string
	// Opt, on the expected side only: the field may also be absent.
	Opt bool
}

// Node is a decoded (or expected) protobuf message.
type Node struct {
	S *Schema
	F []Val
}

func New(schema string) *Node {
	s := schemas[schema]
	if s == nil {
		panic("wire: no schema " + schema)
	}
	return &Node{S: s}
}

func (n *Node) U(num int, u uint64) *Node   { n.F = append(n.F, Val{Num: num, U: u}); return n }
func (n *Node) B(num int, b []byte) *Node   { n.F = append(n.F, Val{Num: num, B: b}); return n }
func (n *Node) Str(num int, s string) *Node { n.F = append(n.F, Val{Num: num, B: []byte(s)}); return n }
func (n *Node) Sub(num int, c *Node) *Node  { n.F = append(n.F, Val{Num: num, N: c}); return n }
func (n *Node) Match(num int, m func([]byte) string) *Node {
	n.F = append(n.F, Val{Num: num, M: m})
	return n
}
func (n *Node) OptU(num int, u uint64) *Node {
	n.F = append(n.F, Val{Num: num, U: u, Opt: true})
	return n
}

func (n *Node) Get(num int) *Val {
	for i := range n.F {
		if n.F[i].Num == num {
			return &n.F[i]
		}
	}
	return nil
}

func (n *Node) All(num int) (r []Val) {
	for _, v := range n.F {
		if v.Num == num {
			r = append(r, v)
		}
	}
	return r
}

func (n *Node) normalize() []Val {
	r := make([]Val, 0, len(n.F))
	for _, v := range n.F {
		f := n.S.F[v.Num]
		if f.hasDef && v.M == nil {
			if f.k == kBytes {
				if bytes.Equal(v.B, f.def) {
					continue
				}
			} else if v.U == f.udef {
				continue
			}
		}
		r = append(r, v)
	}
	sorted := sort.SliceIsSorted(r, func(i, j int) bool { return r[i].Num < r[j].Num })
	if !sorted {
		sort.SliceStable(r, func(i, j int) bool { return r[i].Num < r[j].Num })
	}
	return r
}

// Frame is one protocol message.
type Frame struct {
	Type    byte
	Payload []byte
}

// Split cuts a buffer into frames.
func Split(b []byte) ([]Frame, error) {
	var r []Frame
	for i := 0; i < len(b); {
		if len(b)-i < 5 {
			return r, fmt.Errorf("frame %d: %d stray byte(s) at offset %d", len(r), len(b)-i, i)
		}
		n := uint64(binary.LittleEndian.Uint32(b[i:]))
		if n < 1 {
			return r, fmt.Errorf("frame %d at offset %d: length 0", len(r), i)
		}
		if n > uint64(len(b)-i-4) {
			return r, fmt.Errorf("frame %d at offset %d: length %d exceeds the %d bytes left", len(r), i, n, len(b)-i-4)
		}
		r = append(r, Frame{b[i+4], b[i+5 : i+4+int(n)]})
		i += 4 + int(n)
	}
	return r, nil
}

// Decode strictly decodes a client frame.
func (f Frame) Decode() (*Node, error) {
	s, ok := clientSchema[f.Type]
	if !ok {
		return nil, fmt.Errorf("unknown client message type %d", f.Type)
	}
	return Decode(s, f.Payload)
}

func uvarint(b []byte) (uint64, int) {
	var x uint64
	for i := 0; i < len(b); i++ {
		if i == 10 {
			return 0, -1
		}
		c := b[i]
		if i == 9 && c > 1 {
			return 0, -1
		}
		x |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return x, i + 1
		}
	}
	return 0, 0
}

// Decode strictly decodes b as the named message: every field must be in the
// schema with the right wire type, singular fields at most once, required
// fields present, enums in range, lengths exact.
func Decode(schema string, b []byte) (*Node, error) { return decode(schemas[schema], b, 0) }

func decode(s *Schema, b []byte, depth int) (*Node, error) {
	if depth > 20000 {
		return nil, fmt.Errorf("nesting too deep")
	}
	n := &Node{S: s}
	seen := uint64(0)
	fail := func(format string, a ...interface{}) (*Node, error) {
		return nil, fmt.Errorf("%s: %s", s.Name, fmt.Sprintf(format, a...))
	}
	for i := 0; i < len(b); {
		key, k := uvarint(b[i:])
		if k <= 0 {
			return fail("bad field key at %d", i)
		}
		i += k
		num, wt := int(key>>3), int(key&7)
		f, ok := s.F[num]
		if !ok || key>>3 > 63 {
			return fail("unknown field %d (wire type %d)", key>>3, wt)
		}
		if seen&(1<<uint(num)) != 0 && !f.rep {
			return fail("field %s occurs twice", f.name)
		}
		seen |= 1 << uint(num)
		v := Val{Num: num}
		want := 0
		switch f.k {
		case kF64:
			want = 1
		case kBytes, kMsg:
			want = 2
		case kF32:
			want = 5
		}
		if wt != want {
			return fail("field %s has wire type %d, want %d", f.name, wt, want)
		}
		switch wt {
		case 0:
			u, k := uvarint(b[i:])
			if k <= 0 {
				return fail("field %s: bad varint", f.name)
			}
			i += k
			switch f.k {
			case kSint:
				u = uint64(int64(u>>1) ^ -int64(u&1))
			case kUint32:
				if u > math.MaxUint32 {
					return fail("field %s: %d does not fit 32 bits", f.name, u)
				}
			case kBool:
				if u > 1 {
					return fail("field %s: bool %d", f.name, u)
				}
			case kEnum:
				ok := false
				for _, e := range f.enum {
					ok = ok || e == u
				}
				if !ok {
					return fail("field %s: enum value %d", f.name, u)
				}
			}
			v.U = u
		case 1:
			if len(b)-i < 8 {
				return fail("field %s: truncated fixed64", f.name)
			}
			v.U = binary.LittleEndian.Uint64(b[i:])
			i += 8
		case 5:
			if len(b)-i < 4 {
				return fail("field %s: truncated fixed32", f.name)
			}
			v.U = uint64(binary.LittleEndian.Uint32(b[i:]))
			i += 4
		case 2:
			l, k := uvarint(b[i:])
			if k <= 0 {
				return fail("field %s: bad length", f.name)
			}
			i += k
			if l > uint64(len(b)-i) {
				return fail("field %s: length %d exceeds the %d bytes left", f.name, l, len(b)-i)
			}
			v.B = b[i : i+int(l)]
			i += int(l)
			if f.k == kMsg {
				c, err := decode(schemas[f.msg], v.B, depth+1)
				if err != nil {
					return fail("field %s: %s", f.name, err)
				}
				v.N, v.B = c, nil
			}
		}
		n.F = append(n.F, v)
	}
	for num, f := range s.F {
		if f.req && seen&(1<<uint(num)) == 0 {
			return fail("required field %s missing", f.name)
		}
	}
	return n, nil
}

func trunc(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Diff compares an expected node with a decoded one; "" means equal.
func Diff(exp, got *Node) string {
	if exp == nil || got == nil {
		if exp == got {
			return ""
		}
		return "message present on one side only"
	}
	if exp.S != got.S {
		return fmt.Sprintf("is a %s, want a %s", got.S.Name, exp.S.Name)
	}
	e, g := exp.normalize(), got.normalize()
	i, j := 0, 0
	idx := map[int]int{}
	for i < len(e) || j < len(g) {
		switch {
		case i < len(e) && e[i].Opt && (j >= len(g) || g[j].Num != e[i].Num):
			i++
			continue
		case j >= len(g) || (i < len(e) && e[i].Num < g[j].Num):
			return fmt.Sprintf("%s[%d] missing", exp.S.F[e[i].Num].name, idx[e[i].Num])
		case i >= len(e) || g[j].Num < e[i].Num:
			return fmt.Sprintf("unexpected %s[%d]", exp.S.F[g[j].Num].name, idx[g[j].Num])
		}
		a, b := &e[i], &g[j]
		f := exp.S.F[a.Num]
		name := f.name
		if f.rep {
			name = fmt.Sprintf("%s[%d]", f.name, idx[a.Num])
		}
		idx[a.Num]++
		switch {
		case f.k == kMsg:
			if d := Diff(a.N, b.N); d != "" {
				return name + "." + d
			}
		case f.k == kBytes:
			if a.M != nil {
				if d := a.M(b.B); d != "" {
					return name + ": " + d
				}
			} else if !bytes.Equal(a.B, b.B) {
				return fmt.Sprintf("%s: got %s, want %s", name, trunc(b.B), trunc(a.B))
			}
		case a.U != b.U:
			if f.k == kSint {
				return fmt.Sprintf("%s: got %d, want %d", name, int64(b.U), int64(a.U))
			}
			return fmt.Sprintf("%s: got %#x, want %#x", name, b.U, a.U)
		}
		i++
		j++
	}
	return ""
}

func (n *Node) String() string {
	var sb strings.Builder
	n.str(&sb)
	return sb.String()
}

func (n *Node) str(sb *strings.Builder) {
	if sb.Len() > 600 {
		sb.WriteString("...")
		return
	}
	sb.WriteString(n.S.Name + "{")
	for i, v := range n.F {
		if i > 0 {
			sb.WriteByte(' ')
		}
		f := n.S.F[v.Num]
		sb.WriteString(f.name + ":")
		switch {
		case v.N != nil:
			v.N.str(sb)
		case v.M != nil:
			sb.WriteString("<matched>")
		case f.k == kBytes:
			sb.WriteString(trunc(v.B))
		case f.k == kSint:
			fmt.Fprint(sb, int64(v.U))
		default:
			fmt.Fprint(sb, v.U)
		}
	}
	sb.WriteByte('}')
}

// ---- writer side, used by the simulated servers ----

func AppendUvarint(b []byte, x uint64) []byte { return binary.AppendUvarint(b, x) }

func AppendVar(b []byte, num int, x uint64) []byte {
	return binary.AppendUvarint(append(b, byte(num<<3)), x)
}

func AppendBytes(b []byte, num int, v []byte) []byte {
	b = binary.AppendUvarint(append(b, byte(num<<3|2)), uint64(len(v)))
	return append(b, v...)
}

// AppendFrame appends a server frame.
func AppendFrame(b []byte, typ byte, payload []byte) []byte {
	b = binary.LittleEndian.AppendUint32(b, uint32(len(payload)+1))
	b = append(b, typ)
	return append(b, payload...)
}

// ErrorPayload encodes a Mysqlx.Error.
func ErrorPayload(severity uint64, code uint32, state, msg string) []byte {
	var p []byte
	if severity != 0 {
		p = AppendVar(p, 1, severity)
	}
	p = AppendVar(p, 2, uint64(code))
	p = AppendBytes(p, 3, []byte(msg))
	return AppendBytes(p, 4, []byte(state))
}
