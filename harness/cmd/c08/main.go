package main

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"

	"xv/enc"
	"xv/gen"
	"xv/rep"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/xproto"
)

type marker struct{ n int }

func (m *marker) Error() string {
	if m == nil {
		return "nil marker"
	}
	return fmt.Sprintf("injected error %d", m.n)
}

// silent is an error without a text.
type silent struct{ n int }

func (e *silent) Error() string { return "" }

// failing values: caller-defined types whose append fails, keeping or losing the buffer
type bad struct {
	err error
	nil bool
}

func (b bad) AppendAny(p []byte, tag uint8) ([]byte, error) {
	if b.nil {
		return nil, b.err
	}
	return append(p, 0xff, 0xff), b.err
}
func (b bad) AppendExpr(p []byte, tag uint8) ([]byte, error) { return b.AppendAny(p, tag) }

type named int
type strct struct{ A int }

func unsupported(r *rand.Rand) interface{} {
	x := 1
	c := make(chan int)
	l := []interface{}{strct{1}, &strct{1}, named(3), []int{1}, map[string]int{"a": 1}, c, func() {}, complex(1, 2), uintptr(1), [4]byte{1}, []string{"a"}, &[]int{1}, errors.New("x"), struct{}{}, &c, []interface{}{1}}
	_ = x
	return l[r.Intn(len(l))]
}

// exprOnly: unsupported inside expressions and rows (pointers are not accepted there).
func unsupportedExpr(r *rand.Rand) interface{} {
	x, s := 1, "a"
	l := []interface{}{&x, &s, (*int)(nil)}
	if r.Intn(3) == 0 {
		return l[r.Intn(len(l))]
	}
	return unsupported(r)
}

type fault struct {
	err  error // nil: an error of the library's own
	what string
}

// scene is one generated history with failing calls.
type scene struct {
	r      *rand.Rand
	n      int
	faults []*fault // in the order they were executed
	trace  strings.Builder
	p      *gen.Prog
	g      *gen.Gen
}

func (s *scene) hit(what string, m error) {
	s.faults = append(s.faults, &fault{m, what})
}

// mark draws the error a call fails with: mostly one of its own, or one callers return commonly.
func (s *scene) mark() error {
	s.n++
	switch s.r.Intn(12) {
	case 0:
		return []error{context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, sql.ErrNoRows, sql.ErrTxDone, driver.ErrSkip, driver.ErrBadConn, os.ErrNotExist, net.ErrClosed, errors.ErrUnsupported, pool.ErrPoolClosed}[s.r.Intn(12)]
	case 1:
		return fmt.Errorf("row %d: %w", s.n, []error{context.Canceled, io.EOF, sql.ErrNoRows, &marker{s.n}}[s.r.Intn(4)])
	case 2:
		return &connection.MySqlXError{Code: uint32(s.r.Intn(6000)), Severity: mysqlx.Error_Severity(s.r.Intn(3)), SqlState: "HY000", Msg: fmt.Sprint(s.n)}
	case 3:
		return &silent{s.n}
	case 4:
		if s.r.Intn(3) == 0 {
			return (*marker)(nil)
		}
		return errors.Join(&marker{s.n}, io.EOF)
	}
	return &marker{s.n}
}

// value returns a failing operand and the marker it fails with.
func (s *scene) value(expr bool) (interface{}, error) {
	switch s.r.Intn(4) {
	case 0:
		if expr {
			return unsupportedExpr(s.r), nil
		}
		return unsupported(s.r), nil
	case 1:
		m := s.mark()
		return bad{m, true}, m
	case 2:
		m := s.mark()
		if expr {
			return xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return nil, m }), m
		}
		return &bad{m, false}, m
	default:
		m := s.mark()
		return bad{m, false}, m
	}
}

// expr wraps a failing operand in some expression.
func (s *scene) expr() (xproto.AppendExprFunc, error) {
	v, m := s.value(true)
	var e interface{} = v
	for k := 1 + s.r.Intn(3); k > 0; k-- {
		switch s.r.Intn(6) {
		case 0:
			e = xtorm.Eq(xtorm.Column("a"), e)
		case 1:
			e = xtorm.And(e, 1)
		case 2:
			e = xtorm.Concat("x", e, "y")
		case 3:
			e = xtorm.InV(1, 2, e)
		case 4:
			e = xtorm.Not(e)
		default:
			e = xtorm.Between(xtorm.Column("z"), e, 9)
		}
	}
	return e.(xproto.AppendExprFunc), m
}

func (s *scene) goodOp(b *xtorm.Builder) {
	op := s.g.Op(1)
	fmt.Fprintf(&s.trace, "%s; ", clipS(op.D))
	op.Do(b)
}

func clipS(d string) string {
	if len(d) > 80 {
		return d[:80] + ".."
	}
	return d
}

// calls makes n calls on b, some failing; done reports whether an error is pending.
func (s *scene) calls(b *xtorm.Builder, n, depth int, pfail int) {
	for i := 0; i < n; i++ {
		if s.r.Intn(100) < pfail {
			s.bad(b, depth)
		} else {
			s.goodOp(b)
		}
	}
}

// name draws a table, column or statement text, also an empty or long one.
func (s *scene) name() string {
	switch s.r.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(gen.Raw(s.r, s.r.Intn(300)))
	}
	return "t"
}

// bad makes one call that fails (when nothing failed before).
func (s *scene) bad(b *xtorm.Builder, depth int) {
	r := s.r
	k := r.Intn(15)
	if depth <= 0 && k >= 13 {
		k = r.Intn(13)
	}
	rowWith := func(v interface{}) ([]string, []interface{}) {
		n := 1 + r.Intn(4)
		c := make([]string, n)
		a := make([]interface{}, n)
		for i := range a {
			c[i], a[i] = "c", i
		}
		a[r.Intn(n)] = v
		return c, a
	}
	switch k {
	case 0, 1:
		v, m := s.value(false)
		_, a := rowWith(v)
		s.hit(fmt.Sprintf("argument %T", v), m)
		if k == 0 {
			b.StmtExecute(s.name(), a...)
		} else {
			b.Execute(uint32(r.Intn(300)), a...)
		}
	case 2:
		v, m := s.value(true)
		c, a := rowWith(v)
		rows := make([][]interface{}, 1+r.Intn(4))
		for i := range rows {
			rows[i] = make([]interface{}, len(a))
		}
		rows[r.Intn(len(rows))] = a
		s.hit(fmt.Sprintf("Insert row value %T", v), m)
		b.Insert(s.name(), c, rows)
	case 3:
		v, m := s.value(true)
		c, a := rowWith(v)
		s.hit(fmt.Sprintf("InsertRow value %T", v), m)
		b.InsertRow(s.name(), c, a)
	case 4: // wrong width
		n := r.Intn(4)
		c := make([]string, n)
		rows := make([][]interface{}, 1+r.Intn(5))
		for i := range rows {
			rows[i] = make([]interface{}, n)
		}
		w := n + 1 + r.Intn(3)
		if n > 0 && r.Intn(2) == 0 {
			w = r.Intn(n)
		}
		rows[r.Intn(len(rows))] = make([]interface{}, w)
		if n > 0 && r.Intn(4) == 0 {
			rows[r.Intn(len(rows))] = nil
		}
		if n == 0 && r.Intn(2) == 0 {
			c = nil
		}
		s.hit("Insert row width", nil)
		b.Insert(s.name(), c, rows)
	case 5: // unknown level
		lv := xtorm.IsolationLevel(6 + r.Intn(300))
		if r.Intn(3) == 0 {
			lv = ^xtorm.IsolationLevel(0)
		}
		s.hit("isolation level", nil)
		b.Tx(lv, func(c *xtorm.Builder) error { c.StmtExecute("x"); return nil })
	case 6:
		v, m := s.value(true)
		s.hit(fmt.Sprintf("Update value %T", v), m)
		set := map[string]interface{}{s.name(): v}
		for j := r.Intn(4); j > 0; j-- {
			set[fmt.Sprint("k", j)] = j
		}
		b.Update(s.name(), nil, set)
	case 7:
		e, m := s.expr()
		s.hit("Update criteria", m)
		var set map[string]interface{}
		if r.Intn(3) > 0 {
			set = map[string]interface{}{"a": 1}
		}
		b.Update(s.name(), e, set)
	case 8:
		e, m := s.expr()
		s.hit("Delete criteria", m)
		b.Delete(s.name(), e)
	case 9: // UpdateF: failing criteria, value or callback
		var crit xproto.AppendExprFunc
		mode := r.Intn(3)
		if mode == 0 {
			var m error
			crit, m = s.expr()
			s.hit("UpdateF criteria", m)
		}
		b.UpdateF(s.name(), crit, func(u *xtorm.Update) error {
			for j := r.Intn(3); j > 0; j-- {
				u.Set(s.name(), 1)
			}
			if mode == 1 {
				v, m := s.value(true)
				s.hit(fmt.Sprintf("UpdateF value %T", v), m)
				u.Set(s.name(), v)
			}
			if r.Intn(2) == 0 {
				u.Set("c", 2)
			}
			if mode == 2 || r.Intn(3) == 0 {
				m := s.mark()
				s.hit("UpdateF callback", m)
				return m
			}
			return nil
		})
	case 10: // InsertF
		mode := r.Intn(2)
		cols := []string{"a", "b", "c"}[:r.Intn(4)]
		b.InsertF(s.name(), cols, func(in *xtorm.Insert) error {
			for j := r.Intn(3); j > 0; j-- {
				in.Row([]interface{}{1})
			}
			if mode == 0 {
				v, m := s.value(true)
				s.hit(fmt.Sprintf("InsertF value %T", v), m)
				if r.Intn(2) == 0 {
					in.RowV(v)
				} else {
					_, a := rowWith(v)
					in.Row(a)
				}
			}
			if r.Intn(2) == 0 {
				in.RowV(2)
			}
			if mode == 1 || r.Intn(3) == 0 {
				m := s.mark()
				s.hit("InsertF callback", m)
				return m
			}
			return nil
		})
	case 11, 12: // callback error with an otherwise fine body
		f := func(c *xtorm.Builder) error {
			for j := r.Intn(3); j > 0; j-- {
				s.goodOp(c)
			}
			m := s.mark()
			s.hit("scope callback", m)
			return m
		}
		if k == 11 {
			b.Tx(xtorm.IsolationLevel(r.Intn(6)), f)
		} else {
			b.ExpectFailOnError(xtorm.OpenContext(r.Intn(2)), f)
		}
	default: // failure inside a scope
		f := func(c *xtorm.Builder) error {
			s.calls(c, r.Intn(3), depth-1, 10)
			s.bad(c, depth-1)
			s.calls(c, r.Intn(3), depth-1, 30)
			if r.Intn(4) == 0 {
				m := s.mark()
				s.hit("scope callback after a failure", m)
				return m
			}
			return nil
		}
		if k == 13 {
			b.Tx(xtorm.IsolationLevel(r.Intn(6)), f)
		} else {
			b.ExpectFailOnError(xtorm.OpenContext(r.Intn(2)), f)
		}
	}
}

func main() {
	r := rep.Start("C08", "exploration", "random histories of builder calls with one or more failing calls (unsupported values of 19 kinds, caller types failing with and without losing the buffer, wrong row widths, unknown isolation levels, errors returned by callbacks) at every position and depth, on fresh and reused pipes; the monitor records what Send returns and what reaches the transport, then checks the pipe after Reset. Non-trivial: distinct (failure kinds, first failure) traces.")
	r.Each("histories", r.N(20000, 600000), func(i int, rng *rand.Rand) {
		s := &scene{r: rng, p: &gen.Prog{}}
		s.g = &gen.Gen{R: rng, Max: 60, Depth: 1, P: s.p, MapMulti: true}
		x := xtorm.New(enc.Cap(rng))
		for round := 1 + rng.Intn(2); round > 0; round-- {
			s.faults, s.p.Ops = nil, nil
			s.p = &gen.Prog{}
			s.g.P = s.p
			s.trace.Reset()
			p, st := rep.Panics(func() {
				s.calls(&x.Builder, rng.Intn(4), 3, 0)
				s.bad(&x.Builder, 3)
				s.calls(&x.Builder, rng.Intn(5), 3, 30)
			})
			desc := func() string {
				var w []string
				for _, f := range s.faults {
					w = append(w, f.what)
				}
				return fmt.Sprintf("history %d, failing calls in order: %s", i, strings.Join(w, " | "))
			}
			if p != nil {
				r.Violation("panic: %v\n%s\n%s", p, desc(), st)
				return
			}
			if len(s.faults) == 0 {
				r.Harness("history %d without a fault", i)
				return
			}
			r.Eval(fmt.Sprintf("%s/%d", desc()[7+len(fmt.Sprint(i)):], len(s.trace.String())))
			r.Count("failing_calls", len(s.faults))
			if i < 4 {
				r.Sample("%s", desc())
			}
			first := s.faults[0]
			for k := 0; k < 2; k++ { // sending again does not help
				var rec gen.Recorder
				resp, err := x.Send(context.Background(), &rec)
				if rec.Calls != 0 {
					r.Violation("a unit of work with a failed call was transmitted (%d bytes, Send returned %v)\n%s", len(rec.B), err, desc())
					return
				}
				if err == nil {
					r.Violation("Send reported success for a unit of work with a failed call\n%s", desc())
					return
				}
				if first.err != nil && !errors.Is(err, first.err) {
					r.Violation("Send returned %q, the first error was %q (%s)\n%s", err, first.err, first.what, desc())
					return
				}
				for _, f := range s.faults[1:] {
					if f.err != nil && errors.Is(err, f.err) && (first.err == nil || !errors.Is(first.err, f.err)) {
						r.Violation("Send returned the later error %q, the first failing call was %s\n%s", err, first.what, desc())
						return
					}
				}
				for _, v := range resp {
					if v != nil {
						r.Violation("Send returned responses without sending\n%s", desc())
					}
				}
			}
			x.Reset()
			q := gen.Program(rng, 200, 2, 4, false)
			q.Run(&x.Builder)
			if _, diff, sent := q.CheckPipe(x); diff != "" {
				r.Violation("after Reset the pipe does not work as new: %s\n%s", diff, desc())
				return
			} else {
				y := xtorm.New(0)
				q.Run(&y.Builder)
				var rec gen.Recorder
				y.Send(context.Background(), &rec)
				if !bytes.Equal(rec.B, sent) {
					r.Violation("after Reset the pipe sends other bytes than a new one\n%s", desc())
					return
				}
			}
			x.Reset()
		}
	})
	// one pipe for a long time: every third unit of work fails
	r.Each("life", r.N(8, 64), func(i int, rng *rand.Rand) {
		x := xtorm.New(enc.Cap(rng))
		n := r.N(6000, 40000)
		fails := 0
		for k := 0; k < n; k++ {
			m := &marker{k}
			failing := rng.Intn(3) == 0 || i%4 == 3
			x.StmtExecute("s", k)
			if failing {
				fails++
				switch rng.Intn(4) {
				case 0:
					x.StmtExecute("bad", bad{m, false})
				case 1:
					x.Tx(0, func(b *xtorm.Builder) error { return m })
				case 2:
					x.InsertF("t", []string{"a"}, func(in *xtorm.Insert) error { return m })
				default:
					x.Delete("t", xtorm.Eq(bad{m, true}, 1))
				}
			}
			var rec gen.Recorder
			_, err := x.Send(context.Background(), &rec)
			if failing && (rec.Calls != 0 || !errors.Is(err, m)) {
				r.Violation("unit of work %d of one pipe (%d failed) has a failed call: transmitted %d times, Send returned %v, the error was %v", k, fails, rec.Calls, err, m)
				return
			}
			if !failing && (rec.Calls != 1 || err != nil) {
				r.Violation("unit of work %d of one pipe (%d failed) has no failed call: transmitted %d times, Send returned %v", k, fails, rec.Calls, err)
				return
			}
			x.Reset()
			r.Count("units_of_one_pipe", 1)
		}
	})
	// failures deep down
	r.Each("deep", r.N(600, 6000), func(i int, rng *rand.Rand) {
		depth := 1 + rng.Intn(150)
		x := xtorm.New(enc.Cap(rng))
		m := &marker{i}
		at := rng.Intn(depth + 1) // depth of the failing call
		how := rng.Intn(4)
		var nest func(b *xtorm.Builder, d int) error
		nest = func(b *xtorm.Builder, d int) error {
			if d == at && how == 0 {
				b.StmtExecute("bad", bad{m, rng.Intn(2) == 0})
			}
			if d == at && how == 1 {
				b.InsertF("t", []string{"a"}, func(in *xtorm.Insert) error { return m })
			}
			if d < depth {
				f := func(c *xtorm.Builder) error { return nest(c, d+1) }
				if rng.Intn(2) == 0 {
					b.Tx(xtorm.IsolationLevel(rng.Intn(6)), f)
				} else {
					b.ExpectFailOnError(xtorm.OpenContext(rng.Intn(2)), f)
				}
			}
			if d == at && how == 2 {
				b.StmtExecute("bad", bad{m, rng.Intn(2) == 0})
			}
			if d == at && d > 0 && how == 3 {
				return m
			}
			b.StmtExecute("after", d)
			return nil
		}
		if at == 0 && how == 3 {
			how = 2
		}
		if p, st := rep.Panics(func() { nest(&x.Builder, 0) }); p != nil {
			r.Violation("failure at depth %d of %d: panic %v\n%s", at, depth, p, st)
			return
		}
		var rec gen.Recorder
		_, err := x.Send(context.Background(), &rec)
		if rec.Calls != 0 || !errors.Is(err, m) {
			r.Violation("failure (kind %d) at depth %d of %d: transmitted %d times, Send returned %v", how, at, depth, rec.Calls, err)
			return
		}
		r.Count("deep_failures", 1)
		r.Eval(fmt.Sprintf("deep %d %d %d", depth, at, how))
	})
	r.Need("deep_failures", 500)
	r.Need("units_of_one_pipe", 40000)
	r.Finish()
}
