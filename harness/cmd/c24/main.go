package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"xv/fnet"
	"xv/gen"
	"xv/rep"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

var r *rep.Run

func cut(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// receive lets a server answer a statement with an error and returns what the
// caller gets hold of: from the responses, or from Send's error if fatal.
func receive(rng *rand.Rand, o fnet.Outcome) (*connection.MySqlXError, error) {
	c := &fnet.Conn{NoLog: true}
	switch rng.Intn(4) {
	case 0:
		c.Rng, c.Max = rng, 1
	case 1:
		c.Rng, c.Max = rng, 9
	}
	c.OnWrite = func(c *fnet.Conn, b []byte) {
		if rng.Intn(3) == 0 {
			c.In = fnet.Notice(rng, c.In, 60)
		}
		c.In = fnet.ErrFrame(c.In, o)
	}
	x := xtorm.New(32)
	x.StmtExecute("SELECT 1")
	var resp []netx.Response
	var err error
	what := func() string { return fmt.Sprintf("server answers %v", o) }
	r.Watch(60*time.Second, what, func() {
		r.Guard(what, func() { resp, err = x.Send(context.Background(), connection.New(c)) })
	})
	if o.Severity == 1 {
		if err == nil {
			return nil, fmt.Errorf("Send returned no error")
		}
	} else {
		if err != nil {
			return nil, fmt.Errorf("Send returned error %q", err)
		}
		if len(resp) != 1 {
			return nil, fmt.Errorf("%d responses", len(resp))
		}
		e, ok := resp[0].(error)
		if !ok {
			return nil, fmt.Errorf("response is %#v, no error", resp[0])
		}
		err = e
	}
	var m *connection.MySqlXError
	if !errors.As(err, &m) {
		return nil, fmt.Errorf("%T %q is no MySqlXError", err, err)
	}
	return m, nil
}

// text judges an error's text form and severity.
func text(e *connection.MySqlXError) {
	what := func() string {
		return fmt.Sprintf("error severity=%d code=%d state=%q msg=%q", e.Severity, e.Code, e.SqlState, cut(e.Msg))
	}
	var s string
	if !r.Guard(what, func() { s = e.Error() }) {
		return
	}
	r.Count("texts", 1)
	var fatal bool
	r.Guard(what, func() { fatal = e.IsFatal() })
	if want := e.Severity == mysqlx.Error_FATAL; fatal != want {
		r.Violation("%s: IsFatal() is %v", what(), fatal)
	}
	if !strings.Contains(s, e.Msg) {
		r.Violation("%s: text %q lacks the message", what(), cut(s))
		return
	}
	// the rest of the text, with one occurrence of the message taken out
	ok := false
	for i := strings.LastIndex(s, e.Msg); i >= 0 && !ok; i = -1 {
		rest := s[:i] + "\x00" + s[i+len(e.Msg):]
		ok = strings.Contains(rest, e.SqlState) && hasNumber(strings.Replace(rest, e.SqlState, "\x00", 1), e.Code) ||
			hasNumber(rest, e.Code) && strings.Contains(rest, e.SqlState)
	}
	if !ok {
		r.Violation("%s: text %q lacks the code or the SQL state", what(), cut(s))
		return
	}
	// ERROR or FATAL, the code, the SQL state in parentheses, a colon and the message
	if tail := " " + strconv.FormatUint(uint64(e.Code), 10) + " (" + e.SqlState + "): " + e.Msg; !strings.HasSuffix(s, tail) ||
		e.Severity == mysqlx.Error_ERROR && s != "ERROR"+tail || e.Severity == mysqlx.Error_FATAL && s != "FATAL"+tail {
		r.Violation("%s: text is %q", what(), cut(s))
	}
}

// hasNumber reports whether s contains n in decimal, not as part of a longer number.
func hasNumber(s string, n uint32) bool {
	d := strconv.FormatUint(uint64(n), 10)
	digit := func(i int) bool { return i >= 0 && i < len(s) && s[i] >= '0' && s[i] <= '9' }
	for i := 0; i+len(d) <= len(s); i++ {
		if s[i:i+len(d)] == d && !digit(i-1) && !digit(i+len(d)) {
			return true
		}
	}
	return false
}

func state(rng *rand.Rand) string {
	if rng.Intn(8) == 0 {
		return []string{"", "HY000", "42000", "23000", "00000"}[rng.Intn(5)]
	}
	const a = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	n := 5
	if rng.Intn(8) == 0 { // the protocol sets no length
		n = rng.Intn(40)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = a[rng.Intn(len(a))]
	}
	return string(b)
}

func message(rng *rand.Rand) string {
	switch rng.Intn(6) {
	case 0:
		return ""
	case 1:
		return []string{"%s %d %v %!", "100%", "Duplicate entry '1' for key 'PRIMARY'", "Table 'a.b' doesn't exist", "line 1\nline 2", "\u00e9\u4e2d\U0001f600"}[rng.Intn(6)]
	case 2:
		b := gen.Raw(rng, gen.Size(rng, 9000))
		return strings.ToValidUTF8(string(b), "?")
	default:
		b := make([]byte, rng.Intn(120))
		for i := range b {
			b[i] = byte(32 + rng.Intn(95))
		}
		return string(b)
	}
}

func main() {
	r = rep.Start("C24", "exploration", "every constant of package errs is compared with MySQL's code of that name and then received: a server answers a statement with that code, any severity, SQL state and text, over a real connection, and the caller must get exactly these, tell it apart by comparing with the constant and no other, see IsFatal exactly for FATAL, and find code, state and message in the text form; plus errors with any code, state and text. Non-trivial: distinct errors received.")
	byCode := map[uint64]string{}
	for _, c := range codes {
		if c.v != uint64(c.code) {
			r.Violation("errs.%s is %d; MySQL's code is %d", c.name, c.v, c.code)
		}
		if o, dup := byCode[c.v]; dup {
			r.Violation("errs.%s and errs.%s are both %d", c.name, o, c.v)
		}
		byCode[c.v] = c.name
		r.Count("constants", 1)
		if c.boost {
			r.Count("constants_in_boost_headers", 1)
		}
	}
	one := func(rng *rand.Rand, o fnet.Outcome, name string) {
		m, err := receive(rng, o)
		r.Eval(o.String() + o.Msg)
		r.Count("errors_received", 1)
		if err != nil {
			r.Violation("server answered %v (%s): %v", cut(o.String()), name, err)
			return
		}
		if m.Code != o.Code || uint64(m.Severity) != o.Severity || m.SqlState != o.State || m.Msg != o.Msg {
			r.Violation("server answered %s (%s): caller got severity=%d code=%d state=%q msg=%q", cut(o.String()), name, m.Severity, m.Code, m.SqlState, cut(m.Msg))
		}
		text(m)
	}
	r.Each("constants", len(codes), func(i int, rng *rand.Rand) {
		for _, sev := range []uint64{0, 1} {
			one(rng, fnet.Outcome{Err: true, Severity: sev, Code: codes[i].code, State: state(rng), Msg: message(rng)}, "errs."+codes[i].name)
		}
	})
	r.Each("any", r.N(6000, 400000), func(i int, rng *rand.Rand) {
		o := fnet.Outcome{Err: true, Severity: uint64(rng.Intn(2)), Code: uint32(gen.U64(rng)), State: state(rng), Msg: message(rng)}
		one(rng, o, "any code")
		if i < 3 {
			r.Sample("%s", cut(o.String()))
		}
	})
	// text form and severity of errors made by hand
	r.Each("text", r.N(6000, 400000), func(i int, rng *rand.Rand) {
		text(&connection.MySqlXError{Severity: mysqlx.Error_Severity(rng.Intn(2)), Code: uint32(gen.U64(rng)), SqlState: state(rng), Msg: message(rng)})
	})
	r.Need("constants", 1100)
	r.Need("errors_received", 7000)
	r.Finish()
}
