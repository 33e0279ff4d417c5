package verifkit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"pgregory.net/rapid"
)

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// Faults are the errors an injected failure may carry: none of them is a success.
var Faults = []error{
	errors.New("storage is down"),
	context.DeadlineExceeded,
	context.Canceled,
	fmt.Errorf("write: %w", context.DeadlineExceeded),
	fmt.Errorf("write: %w", context.Canceled),
	io.EOF,
	io.ErrUnexpectedEOF,
	net.ErrClosed,
	os.ErrDeadlineExceeded,
	timeoutErr{},
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
	syscall.EPIPE,
	errors.New(""),
	errors.New("LOADING Redis is loading the dataset in memory"),
	errors.New("READONLY You can't write against a read only replica."),
	errors.New("NOSCRIPT No matching script. Please use EVAL."),
	errors.New("ERR already applied"),
	errors.New("pq: duplicate key value violates unique constraint"),
	errors.New("kafka: duplicate sequence number"),
	sql.ErrTxDone,
	sql.ErrNoRows,
	driver.ErrBadConn,
}

// DrawFault draws one of them.
func DrawFault(t *rapid.T) error {
	return Faults[rapid.IntRange(0, len(Faults)-1).Draw(t, "error")]
}
