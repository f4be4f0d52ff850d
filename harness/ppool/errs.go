package ppool

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
)

type tempErr struct{ timeout, temporary bool }

func (e *tempErr) Error() string {
	return fmt.Sprintf("timeout %v, temporary %v", e.timeout, e.temporary)
}
func (e *tempErr) Timeout() bool   { return e.timeout }
func (e *tempErr) Temporary() bool { return e.temporary }

// anError is an error a connection or a dialer may fail with: every identity
// that code is known to treat specially, bare or wrapped.
func anError(x uint64, id int) error {
	bases := []error{
		errors.New("broken"),
		io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress,
		net.ErrClosed, os.ErrDeadlineExceeded, driver.ErrBadConn,
		syscall.EPIPE, syscall.ECONNRESET, syscall.ECONNREFUSED, syscall.ETIMEDOUT, syscall.EAGAIN, syscall.EINTR, syscall.ECONNABORTED,
		&tempErr{true, false}, &tempErr{false, true}, &tempErr{true, true},
		context.Canceled, context.DeadlineExceeded,
		pool.ErrPoolClosed,
		connection.ErrUnexpectedAuthenticateContinue,
		&connection.ErrRequireAuthenticateContinue{AuthData: []byte("x")},
		&connection.MySqlXError{Code: 1040, SqlState: "08004", Msg: "Too many connections"},
		&connection.MySqlXError{Code: 1045, SqlState: "28000"},
		&connection.MySqlXError{Severity: 1, Code: 1053},
		&connection.MySqlXError{Code: 0},
	}
	b := bases[x%uint64(len(bases))]
	switch x / uint64(len(bases)) % 4 {
	case 0:
		return b
	case 1:
		return fmt.Errorf("Write failed: %w", b)
	case 2:
		return &net.OpError{Op: []string{"read", "write", "dial"}[id%3], Net: "tcp", Err: b}
	}
	return fmt.Errorf("op %d: %w", id, &net.OpError{Op: "write", Net: "unix", Err: os.NewSyscallError("write", b)})
}

// notClosed replaces ErrPoolClosed, where a send getting it is itself judged.
func notClosed(err error) error {
	if errors.Is(err, pool.ErrPoolClosed) {
		return net.ErrClosed
	}
	return err
}

// anErrorResponse is a statement's error, of any code, state and message.
func anErrorResponse(x uint64, id int) error {
	e := &connection.MySqlXError{Msg: fmt.Sprint(id)}
	codes := []uint32{0, 1, 1022, 1045, 1050, 1051, 1062, 1064, 1091, 1146, 1205, 1213, 1317, 1451, 1452, 3024, 4031, 5000, 5012, 5108, 5115, 5154, 5156, 5159, 5160, 65535, uint32(x >> 20)}
	e.Code = codes[x%uint64(len(codes))]
	if x>>7%3 == 0 {
		e.Code = uint32(x >> 9 % 7000)
	}
	e.SqlState = []string{"", "HY000", "00000", "01000", "02000", "23000", "40001", "42000", "42S02", "70100"}[x/64%10]
	if x/640%4 == 0 {
		e.Msg = ""
	}
	return e
}
