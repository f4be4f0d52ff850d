// Package msim simulates the part of a MySQL server that decides whether a unit
// of work is atomic: sessions with autocommit, START TRANSACTION (with its
// implicit commit), COMMIT, ROLLBACK, rollback on disconnect, and X Protocol
// expectation blocks. Faults are injected at chosen messages and bytes.
package msim

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"sync"

	"xv/fnet"
	"xv/wire"
)

// Change is one effect: unit of work, sequence number within it.
type Change struct{ U, K int }

// DB is the shared store.
type DB struct {
	mu        sync.Mutex
	Committed map[Change]int
	Problems  []string
	CommitErr map[int]bool // unit of work whose COMMIT was answered with an error
	Stats     map[string]int
}

func NewDB() *DB {
	return &DB{Committed: map[Change]int{}, CommitErr: map[int]bool{}, Stats: map[string]int{}}
}

// Count returns how many of the n changes of unit u are committed, and whether
// any is committed more than once.
func (d *DB) Count(u, n int) (have int, dup bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for k := 0; k < n; k++ {
		switch c := d.Committed[Change{u, k}]; {
		case c == 1:
			have++
		case c > 1:
			have++
			dup = true
		}
	}
	return
}

// Snapshot copies what the sessions have recorded so far.
func (d *DB) Snapshot() (problems []string, commitErr map[int]bool, stats map[string]int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	commitErr, stats = map[int]bool{}, map[string]int{}
	for k, v := range d.CommitErr {
		commitErr[k] = v
	}
	for k, v := range d.Stats {
		stats[k] = v
	}
	return append(problems, d.Problems...), commitErr, stats
}

func (d *DB) stat(s string) {
	d.mu.Lock()
	d.Stats[s]++
	d.mu.Unlock()
}

type block struct {
	noError bool
	failed  bool
}

// Session is one server session.
type Session struct {
	DB     *DB
	inTx   bool
	tx     []Change
	blocks []block
	prep   map[uint64]string
	Gone   bool
	Unit   int        // unit of work whose message is being executed (0: unknown)
	R      *rand.Rand // varies how errors are worded (nil: plainly)
}

func (s *Session) commit(why string) {
	s.DB.mu.Lock()
	defer s.DB.mu.Unlock()
	for _, c := range s.tx {
		s.DB.Committed[c]++
		if s.Unit != c.U {
			s.DB.Problems = append(s.DB.Problems, fmt.Sprintf("%s in unit of work %d made a change of unit of work %d visible", why, s.Unit, c.U))
		}
	}
	s.tx = nil
}

// Disconnect rolls an open transaction back.
func (s *Session) Disconnect() {
	if s.inTx && len(s.tx) > 0 {
		s.DB.stat("rolled_back_on_disconnect")
	}
	s.tx, s.inTx, s.Gone = nil, false, true
}

const errExpect = 5159

// errFrame words an error: code, state and text are the server's business, and
// an error stays an error whatever they are.
func (s *Session) errFrame(sev uint64, code uint32, msg string) []byte {
	if s.R != nil && s.R.Intn(2) == 0 {
		o := fnet.Failure(s.R, 30)
		if s.R.Intn(3) == 0 {
			o.Msg = ""
		}
		if s.R.Intn(3) == 0 {
			o.Code = code
		}
		if s.R.Intn(3) == 0 {
			o.State = []string{"", "00000", "01000", "02000", "HY000", "40001"}[s.R.Intn(6)]
		}
		return wire.AppendFrame(nil, 1, wire.ErrorPayload(sev, o.Code, o.State, o.Msg))
	}
	return wire.AppendFrame(nil, 1, wire.ErrorPayload(sev, code, "HY000", msg))
}

func okFrame(t byte) []byte {
	switch t {
	case wire.ExpectOpen, wire.ExpectClose, wire.PreparePrepare, wire.PrepareDeallocate:
		return wire.AppendFrame(nil, 0, nil)
	}
	return wire.AppendFrame(nil, 17, nil)
}

// Fault is injected into the execution of one message.
type Fault int

const (
	None         Fault = iota
	Fail               // the statement fails, the transaction stays
	Deadlock           // the statement fails and the transaction is rolled back
	Fatal              // fatal error, the session ends
	ErrRolledOff       // COMMIT only: fails and rolls back
)

// Exec executes one message and returns the reply; end: the session is over.
func (s *Session) Exec(f wire.Frame, fault Fault) (reply []byte, end bool) {
	n, err := f.Decode()
	if err != nil {
		s.Disconnect()
		return s.errFrame(1, 5000, "Parse error unserializing protobuf message"), true
	}
	isCommit := f.Type == wire.StmtExecute && isSQL(n, "COMMIT")
	fail := func(code uint32, msg string) ([]byte, bool) {
		if len(s.blocks) > 0 && s.blocks[len(s.blocks)-1].noError {
			s.blocks[len(s.blocks)-1].failed = true
		}
		if isCommit && s.Unit != 0 {
			s.DB.mu.Lock()
			s.DB.CommitErr[s.Unit] = true
			s.DB.mu.Unlock()
		}
		return s.errFrame(0, code, msg), false
	}
	if fault == Fatal {
		if isCommit && s.Unit != 0 {
			s.DB.mu.Lock()
			s.DB.CommitErr[s.Unit] = true
			s.DB.mu.Unlock()
		}
		s.Disconnect()
		return s.errFrame(1, 1053, "Server shutdown in progress"), true
	}
	switch f.Type {
	case wire.ExpectOpen:
		b := block{}
		if len(s.blocks) > 0 {
			top := s.blocks[len(s.blocks)-1]
			if v := n.Get(1); v == nil || v.U == 0 {
				b.noError = top.noError
			}
			b.failed = top.failed
		}
		for _, c := range n.All(2) {
			if k := c.N.Get(1); k != nil && k.U == 1 {
				on := true
				if v := c.N.Get(2); v != nil && string(v.B) == "0" {
					on = false
				}
				if op := c.N.Get(3); op != nil && op.U == 1 {
					on = false
				}
				b.noError = on
			}
		}
		s.blocks = append(s.blocks, b)
		if b.failed {
			return s.errFrame(0, errExpect, "Expectation failed: no_error"), false
		}
		return okFrame(f.Type), false
	case wire.ExpectClose:
		if len(s.blocks) == 0 {
			return s.errFrame(0, 5158, "Expect block currently not open"), false
		}
		top := s.blocks[len(s.blocks)-1]
		s.blocks = s.blocks[:len(s.blocks)-1]
		if top.failed {
			if len(s.blocks) > 0 && s.blocks[len(s.blocks)-1].noError {
				s.blocks[len(s.blocks)-1].failed = true
			}
			return s.errFrame(0, errExpect, "Expectation failed: no_error"), false
		}
		return okFrame(f.Type), false
	}
	if len(s.blocks) > 0 && s.blocks[len(s.blocks)-1].failed {
		s.DB.stat("skipped_in_failed_block")
		return fail(errExpect, "Expectation failed: no_error")
	}
	switch fault {
	case Fail:
		return fail(1062, "Duplicate entry")
	case Deadlock, ErrRolledOff:
		s.tx, s.inTx = nil, false
		return fail(1213, "Deadlock found when trying to get lock; try restarting transaction")
	}
	switch f.Type {
	case wire.StmtExecute:
		sql := strings.ToUpper(strings.TrimSpace(string(n.Get(1).B)))
		switch {
		case sql == "COMMIT":
			s.commit("COMMIT")
			s.inTx = false
			s.DB.stat("commits")
		case sql == "ROLLBACK":
			s.tx, s.inTx = nil, false
		case strings.HasPrefix(sql, "START TRANSACTION"):
			if len(s.tx) > 0 {
				s.DB.stat("implicit_commits")
			}
			s.commit("the implicit commit of START TRANSACTION")
			s.inTx = true
		default:
			s.sql(string(n.Get(1).B), anys(n.All(2)))
		}
	case wire.PreparePrepare:
		if s.prep == nil {
			s.prep = map[uint64]string{}
		}
		if st := n.Get(2).N.Get(6); st != nil {
			s.prep[n.Get(1).U] = string(st.N.Get(1).B)
		}
	case wire.PrepareExecute:
		sql, ok := s.prep[n.Get(1).U]
		if !ok {
			return fail(5110, "Statement with ID was not prepared")
		}
		s.sql(sql, anys(n.All(2)))
	case wire.PrepareDeallocate:
		if _, ok := s.prep[n.Get(1).U]; !ok {
			return fail(5110, "Statement with ID was not prepared")
		}
		delete(s.prep, n.Get(1).U)
	case wire.CrudInsert:
		u := unit(n.Get(1))
		for _, row := range n.All(4) {
			fs := row.N.All(1)
			if len(fs) > 0 {
				s.effect(u, lit(fs[0].N))
			}
		}
	case wire.CrudUpdate:
		u := unit(n.Get(2))
		for _, o := range n.All(7) {
			s.effect(u, lit(o.N.Get(3).N))
		}
	case wire.CrudDelete:
		u := unit(n.Get(1))
		if c := n.Get(3); c != nil { // c = k
			if op := c.N.Get(6); op != nil {
				if ps := op.N.All(2); len(ps) == 2 {
					s.effect(u, lit(ps[1].N))
				}
			}
		}
	}
	return okFrame(f.Type), false
}

func isSQL(n *wire.Node, want string) bool {
	return strings.ToUpper(strings.TrimSpace(string(n.Get(1).B))) == want
}

func (s *Session) effect(u, k int) {
	if u == 0 || k < 0 {
		return
	}
	s.tx = append(s.tx, Change{u, k})
	if !s.inTx {
		s.commit("autocommit")
	}
}

// sql: "... INTO u<unit> ..." with the sequence number as first argument.
func (s *Session) sql(q string, args []int) {
	for _, w := range strings.Fields(q) {
		if u := table(w); u > 0 && len(args) > 0 {
			s.effect(u, args[0])
			return
		}
	}
}

func table(w string) int {
	if len(w) < 2 || w[0] != 'u' {
		return 0
	}
	u, err := strconv.Atoi(w[1:])
	if err != nil {
		return 0
	}
	return u
}

func unit(v *wire.Val) int {
	if v == nil || v.N == nil || v.N.Get(1) == nil {
		return 0
	}
	return table(string(v.N.Get(1).B))
}

// number of a Scalar node.
func number(n *wire.Node) int {
	if n == nil {
		return -1
	}
	if v := n.Get(2); v != nil {
		return int(int64(v.U))
	}
	if v := n.Get(3); v != nil {
		return int(v.U)
	}
	if v := n.Get(6); v != nil {
		return int(math.Float64frombits(v.U))
	}
	return -1
}

func lit(n *wire.Node) int {
	if v := n.Get(4); v != nil {
		return number(v.N)
	}
	return -1
}

func anys(vs []wire.Val) (r []int) {
	for _, v := range vs {
		if sc := v.N.Get(2); sc != nil {
			r = append(r, number(sc.N))
		}
	}
	return
}

// UnitOf finds which unit of work a buffer belongs to.
func UnitOf(frames []wire.Frame) int {
	for _, f := range frames {
		n, err := f.Decode()
		if err != nil {
			continue
		}
		u := 0
		switch f.Type {
		case wire.CrudInsert, wire.CrudDelete:
			u = unit(n.Get(1))
		case wire.CrudUpdate:
			u = unit(n.Get(2))
		case wire.StmtExecute:
			for _, w := range strings.Fields(string(n.Get(1).B)) {
				if t := table(w); t > 0 {
					u = t
				}
			}
		case wire.PreparePrepare:
			if st := n.Get(2).N.Get(6); st != nil {
				for _, w := range strings.Fields(string(st.N.Get(1).B)) {
					if t := table(w); t > 0 {
						u = t
					}
				}
			}
		}
		if u > 0 {
			return u
		}
	}
	return 0
}
