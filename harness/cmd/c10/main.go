package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strings"

	"xv/enc"
	"xv/gen"
	"xv/rep"

	"github.com/renthraysk/xtorm"
)

type method struct {
	name string
	call func(b *xtorm.Builder)
}

var methods = []method{
	{"StmtExecute", func(b *xtorm.Builder) { b.StmtExecute("misuse", 1) }},
	{"empty StmtExecute", func(b *xtorm.Builder) { b.StmtExecute("") }},
	{"empty Prepare", func(b *xtorm.Builder) { b.Prepare(0, "") }},
	{"empty Execute", func(b *xtorm.Builder) { b.Execute(0) }},
	{"Deallocate 0", func(b *xtorm.Builder) { b.Deallocate(0) }},
	{"empty Insert", func(b *xtorm.Builder) { b.Insert("", nil, nil) }},
	{"empty InsertF", func(b *xtorm.Builder) { b.InsertF("", nil, func(i *xtorm.Insert) error { return nil }) }},
	{"empty InsertRow", func(b *xtorm.Builder) { b.InsertRow("", nil, nil) }},
	{"empty Update", func(b *xtorm.Builder) { b.Update("", nil, nil) }},
	{"Update with criteria", func(b *xtorm.Builder) { b.Update("t", xtorm.Eq(1, 1), map[string]interface{}{"a": 1}) }},
	{"empty UpdateF", func(b *xtorm.Builder) { b.UpdateF("", nil, func(u *xtorm.Update) error { return nil }) }},
	{"empty Delete", func(b *xtorm.Builder) { b.Delete("", nil) }},
	{"Delete with criteria", func(b *xtorm.Builder) { b.Delete("t", xtorm.Eq(1, 1)) }},
	{"empty Tx", func(b *xtorm.Builder) { b.Tx(5, func(b *xtorm.Builder) error { return nil }) }},
	{"unknown Tx", func(b *xtorm.Builder) { b.Tx(77, func(b *xtorm.Builder) error { return nil }) }},
	{"empty Expect", func(b *xtorm.Builder) { b.ExpectFailOnError(1, func(b *xtorm.Builder) error { return nil }) }},
	{"Prepare", func(b *xtorm.Builder) { b.Prepare(99, "misuse") }},
	{"Execute", func(b *xtorm.Builder) { b.Execute(99, 1) }},
	{"Deallocate", func(b *xtorm.Builder) { b.Deallocate(99) }},
	{"Insert", func(b *xtorm.Builder) { b.Insert("misuse", []string{"a"}, [][]interface{}{{1}}) }},
	{"InsertF", func(b *xtorm.Builder) {
		b.InsertF("misuse", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(1); return nil })
	}},
	{"InsertRow", func(b *xtorm.Builder) { b.InsertRow("misuse", []string{"a"}, []interface{}{1}) }},
	{"Update", func(b *xtorm.Builder) { b.Update("misuse", nil, map[string]interface{}{"a": 1}) }},
	{"UpdateF", func(b *xtorm.Builder) {
		b.UpdateF("misuse", nil, func(u *xtorm.Update) error { u.Set("a", 1); return nil })
	}},
	{"Delete", func(b *xtorm.Builder) { b.Delete("misuse", nil) }},
	{"Tx", func(b *xtorm.Builder) { b.Tx(0, func(b *xtorm.Builder) error { b.StmtExecute("misuse"); return nil }) }},
	{"Expect", func(b *xtorm.Builder) {
		b.ExpectFailOnError(0, func(b *xtorm.Builder) error { b.StmtExecute("misuse"); return nil })
	}},
}

// world runs one program; with misuse on, every wrong builder in reach is
// used at random moments.
type world struct {
	r      *rep.Run
	rng    *rand.Rand
	misuse bool
	log    strings.Builder

	pipe   *xtorm.XPipe
	outer  []*xtorm.Builder // enclosing builders, disabled right now
	stale  []*xtorm.Builder // builders of finished scopes
	staleI []*xtorm.Insert
	staleU []*xtorm.Update
	fail   string
	depth  int
}

// panics is rep.Panics without the stack, which is long in deep scopes.
func panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func (w *world) must(kind string, m string, f func()) {
	p := panics(f)
	w.r.Count("misuses_"+kind, 1)
	w.r.Eval(fmt.Sprintf("%s/%s/%d", kind, m, w.depth))
	fmt.Fprintf(&w.log, "%s %s at depth %d; ", kind, m, w.depth)
	if p == nil && w.fail == "" {
		w.fail = fmt.Sprintf("%s: %s did not panic (depth %d)", kind, m, w.depth)
	}
}

// abuse misuses whatever is in reach. pr: the generator deciding (separate
// from the program's own, so that programs are the same with misuse off).
func (w *world) abuse() {
	if !w.misuse {
		return
	}
	for k := w.rng.Intn(3); k > 0; k-- {
		m := methods[w.rng.Intn(len(methods))]
		switch w.rng.Intn(5) {
		case 0, 1:
			if len(w.outer) > 0 {
				b := w.outer[w.rng.Intn(len(w.outer))]
				switch {
				case w.rng.Intn(8) == 0:
					w.must("enclosing", "Send", func() { w.pipe.Send(context.Background(), &gen.Recorder{}) })
				case w.rng.Intn(8) == 0:
					w.must("enclosing", "Reset", func() { w.pipe.Reset() })
				default:
					w.must("enclosing", m.name, func() { m.call(b) })
				}
			}
		case 2:
			if len(w.stale) > 0 {
				b := w.stale[w.rng.Intn(len(w.stale))]
				w.must("stale", m.name, func() { m.call(b) })
			}
		case 3:
			if len(w.staleI) > 0 { // may panic or do nothing, but changes nothing
				i := w.staleI[w.rng.Intn(len(w.staleI))]
				rep.Panics(func() { i.RowV("stale insert handle", w.rng.Intn(1000)) })
				rep.Panics(func() { i.Row([]interface{}{struct{}{}}) })
				w.r.Count("misuses_insert_handle", 1)
				w.log.WriteString("stale Insert handle; ")
			}
		default:
			if len(w.staleU) > 0 {
				u := w.staleU[w.rng.Intn(len(w.staleU))]
				rep.Panics(func() { u.Set("stale update handle", w.rng.Intn(1000)) })
				rep.Panics(func() { u.Set("x", struct{}{}) })
				w.r.Count("misuses_update_handle", 1)
				w.log.WriteString("stale Update handle; ")
			}
		}
	}
}

func (w *world) body(b *xtorm.Builder, pr *rand.Rand, n, depth int) {
	for i := 0; i < n; i++ {
		w.abuse()
		switch k := pr.Intn(9); {
		case k == 0:
			b.StmtExecute(string(gen.Raw(pr, pr.Intn(60))), pr.Intn(1000))
		case k == 1:
			b.Insert("t", []string{"a"}, [][]interface{}{{pr.Intn(100)}, {"v"}})
		case k == 2:
			b.Delete("t", xtorm.Eq(xtorm.Column("a"), pr.Intn(10)))
		case k == 3:
			b.InsertRow("t", []string{"a"}, []interface{}{pr.Intn(100)})
		case k == 4:
			rows := pr.Intn(4)
			vals := pr.Perm(8)
			w.enter(b)
			var keep *xtorm.Insert
			name, cols := pick(pr)
			b.InsertF(name, cols, func(in *xtorm.Insert) error {
				keep = in
				w.abuse()
				for j := 0; j < rows; j++ {
					in.RowV(vals[j])
					w.abuse()
				}
				return nil
			})
			w.leave()
			w.staleI = append(w.staleI, keep)
		case k == 5:
			rows := pr.Intn(4)
			vals := pr.Perm(8)
			w.enter(b)
			var keep *xtorm.Update
			name, _ := pick(pr)
			crit := xtorm.Column("c")
			if pr.Intn(3) == 0 {
				crit = nil
			}
			b.UpdateF(name, crit, func(u *xtorm.Update) error {
				keep = u
				w.abuse()
				for j := 0; j < rows; j++ {
					u.Set("a", vals[j])
					w.abuse()
				}
				return nil
			})
			w.leave()
			w.staleU = append(w.staleU, keep)
		case depth > 0 && k >= 6:
			m := pr.Intn(4)
			lv := pr.Intn(6)
			var keep *xtorm.Builder
			w.enter(b)
			f := func(c *xtorm.Builder) error {
				keep = c
				w.body(c, pr, m, depth-1)
				return nil
			}
			if k == 6 {
				b.ExpectFailOnError(xtorm.OpenContext(lv%2), f)
			} else {
				b.Tx(xtorm.IsolationLevel(lv), f)
			}
			w.leave()
			w.stale = append(w.stale, keep)
		}
		w.abuse()
	}
}

// pick draws a table and columns, also empty ones.
func pick(pr *rand.Rand) (string, []string) {
	name := []string{"t", "t", "", "u", strings.Repeat("n", pr.Intn(300))}[pr.Intn(5)]
	return name, [][]string{{"a"}, nil, {}, {"a", "b"}, {""}}[pr.Intn(5)]
}

func (w *world) enter(b *xtorm.Builder) { w.outer = append(w.outer, b); w.depth++ }
func (w *world) leave()                 { w.outer = w.outer[:len(w.outer)-1]; w.depth-- }

func main() {
	r := rep.Start("C10", "exploration", "random nested programs run twice, once clean and once with every builder method (and Send/Reset) called on enclosing builders during callbacks, on finished scopes' builders, and on finished insert/update handles; each misuse must panic where required and the bytes finally sent must equal the clean run's. Non-trivial: distinct (kind of misuse, method, depth).")
	r.Each("programs", r.N(8000, 250000), func(i int, rng *rand.Rand) {
		seed := rng.Int63()
		capacity := enc.Cap(rng)
		n := 1 + rng.Intn(5)
		run := func(misuse bool) (*world, []byte, error) {
			w := &world{r: r, rng: r.Rng("misuse", i), misuse: misuse, pipe: xtorm.New(capacity)}
			for round := 0; round < 2; round++ { // the second round reuses the pipe: stale handles survive the Reset
				pr := rand.New(rand.NewSource(seed + int64(round)))
				if round == 1 {
					w.pipe.Reset()
				}
				w.body(&w.pipe.Builder, pr, n, 4)
			}
			var s gen.Recorder
			_, err := w.pipe.Send(context.Background(), &s)
			return w, s.B, err
		}
		_, clean, err := run(false)
		if err != nil {
			r.Violation("program %d fails without misuse: %v", i, err)
			return
		}
		w, got, err := run(true)
		if i < 3 {
			r.Sample("program %d: %s", i, w.log.String())
		}
		if w.fail != "" {
			r.Violation("program %d: %s\nhistory of misuses: %s", i, w.fail, w.log.String())
		} else if err != nil {
			r.Violation("program %d: misuse made Send fail: %v\nmisuses: %s", i, err, w.log.String())
		} else if !bytes.Equal(clean, got) {
			r.Violation("program %d: misuse changed the unit of work (%d bytes, clean %d)\nmisuses: %s\nclean: %x\ngot:   %x", i, len(got), len(clean), w.log.String(), clean, got)
		}
	})
	// misuse after a call has failed: it still panics, and the first error stays
	r.Each("failed", r.N(4000, 100000), func(i int, rng *rand.Rand) {
		x := xtorm.New(enc.Cap(rng))
		seed := rng.Int63()
		w := &world{r: r, rng: rand.New(rand.NewSource(seed)), misuse: true, pipe: x}
		cause := fmt.Errorf("cause %d", i)
		mode := rng.Intn(5)
		fail := func(b *xtorm.Builder) {
			switch mode {
			case 0:
				b.StmtExecute("s", struct{}{})
			case 1:
				b.Insert("t", []string{"a"}, [][]interface{}{{1, 2}})
			case 2:
				b.Tx(99, nil)
			case 3:
				b.Tx(0, func(c *xtorm.Builder) error { w.stale = append(w.stale, c); return cause })
			default:
				b.Delete("t", xtorm.Eq(struct{}{}, 1))
			}
		}
		pr := rand.New(rand.NewSource(seed))
		root := &x.Builder
		if rng.Intn(2) == 0 { // an earlier scope, so that there is a stale builder
			root.ExpectFailOnError(0, func(c *xtorm.Builder) error { w.stale = append(w.stale, c); return nil })
		}
		var nest func(b *xtorm.Builder, depth int)
		nest = func(b *xtorm.Builder, depth int) {
			if depth == 0 {
				fail(b)
				for k := 3; k > 0; k-- {
					w.abuse()
				}
				b.StmtExecute("after")
				w.abuse()
				return
			}
			w.enter(b)
			f := func(c *xtorm.Builder) error {
				w.abuse()
				nest(c, depth-1)
				w.abuse()
				w.stale = append(w.stale, c)
				return nil
			}
			if pr.Intn(2) == 0 {
				b.Tx(0, f)
			} else {
				b.ExpectFailOnError(1, f)
			}
			w.leave()
			for k := 3; k > 0; k-- {
				w.abuse()
			}
		}
		nest(root, rng.Intn(4))
		var s gen.Recorder
		_, err := x.Send(context.Background(), &s)
		r.Count("misuses_after_failure", 1)
		if w.fail != "" {
			r.Violation("failed unit of work %d: %s\nhistory of misuses: %s", i, w.fail, w.log.String())
		} else if err == nil || s.Calls != 0 {
			r.Violation("failed unit of work %d: after misuse Send returned %v and transmitted %d times\nmisuses: %s", i, err, s.Calls, w.log.String())
		}
	})
	// scopes nested far deeper than the programs above
	r.Each("deep", r.N(120, 3000), func(i int, rng *rand.Rand) {
		depth := []int{5, 8, 17, 33, 65, 130}[i%6] + rng.Intn(5)
		seed := rng.Int63()
		capacity := enc.Cap(rng)
		run := func(misuse bool) (*world, []byte, error) {
			w := &world{r: r, rng: r.Rng("deep misuse", i), misuse: misuse, pipe: xtorm.New(capacity)}
			pr := rand.New(rand.NewSource(seed))
			var nest func(b *xtorm.Builder, left int)
			nest = func(b *xtorm.Builder, left int) {
				if left == 0 {
					w.body(b, pr, 2, 1)
					return
				}
				w.enter(b)
				var keep *xtorm.Builder
				f := func(c *xtorm.Builder) error {
					keep = c
					if misuse && w.fail == "" { // some enclosing builders at every depth, all of them innermost
						for k, o := range w.outer {
							n := 1
							switch {
							case k == 0 || k == len(w.outer)-1:
								n = 3
							case left > 1 && w.rng.Intn(len(w.outer)) > 3:
								n = 0
							}
							for ; n > 0; n-- {
								m := methods[w.rng.Intn(len(methods))]
								w.must("enclosing", m.name, func() { m.call(o) })
							}
						}
					}
					w.abuse()
					nest(c, left-1)
					c.StmtExecute("x", left)
					w.abuse()
					return nil
				}
				if pr.Intn(2) == 0 {
					b.Tx(xtorm.IsolationLevel(pr.Intn(6)), f)
				} else {
					b.ExpectFailOnError(xtorm.OpenContext(pr.Intn(2)), f)
				}
				w.leave()
				w.stale = append(w.stale, keep)
				if misuse && w.fail == "" {
					m := methods[w.rng.Intn(len(methods))]
					w.must("stale", m.name, func() { m.call(keep) })
				}
				w.log.Reset()
			}
			nest(&w.pipe.Builder, depth)
			var s gen.Recorder
			_, err := w.pipe.Send(context.Background(), &s)
			return w, s.B, err
		}
		_, clean, err := run(false)
		if err != nil {
			r.Violation("scopes nested %d deep fail without misuse: %v", depth, err)
			return
		}
		w, got, err := run(true)
		r.Count("deep_programs", 1)
		if w.fail != "" {
			r.Violation("scopes nested %d deep: %s", depth, w.fail)
		} else if err != nil {
			r.Violation("scopes nested %d deep: misuse made Send fail: %v", depth, err)
		} else if !bytes.Equal(clean, got) {
			r.Violation("scopes nested %d deep: misuse changed the unit of work (%d bytes, clean %d)", depth, len(got), len(clean))
		}
	})
	// one pipe used again and again
	r.Each("long", r.N(8, 64), func(i int, rng *rand.Rand) {
		x := xtorm.New(enc.Cap(rng))
		w := &world{r: r, rng: rng, misuse: true, pipe: x}
		n := r.N(1500, 6000)
		for k := 0; k < n; k++ {
			x.Reset()
			var keep *xtorm.Builder
			w.enter(&x.Builder)
			x.Tx(0, func(c *xtorm.Builder) error {
				keep = c
				w.abuse()
				c.StmtExecute("x", k)
				return nil
			})
			w.leave()
			for j := 0; j < 2; j++ {
				m := methods[rng.Intn(len(methods))]
				w.must("stale", m.name, func() { m.call(keep) })
			}
			if len(w.stale) < 50 {
				w.stale = append(w.stale, keep)
			}
			w.abuse()
			w.log.Reset()
			if w.fail != "" {
				r.Violation("unit of work %d of one pipe: %s", k, w.fail)
				return
			}
			var s gen.Recorder
			if _, err := x.Send(context.Background(), &s); err != nil || s.Calls != 1 {
				r.Violation("unit of work %d of one pipe: after misuse Send returned %v and transmitted %d times", k, err, s.Calls)
				return
			}
			r.Count("units_of_one_pipe", 1)
		}
	})
	r.Need("deep_programs", 100)
	r.Need("units_of_one_pipe", 5000)
	r.Need("misuses_enclosing", 1000)
	r.Need("misuses_stale", 1000)
	r.Need("misuses_insert_handle", 500)
	r.Need("misuses_update_handle", 500)
	r.Finish()
}
