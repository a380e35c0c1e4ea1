package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

type oddErr []string // can't be compared

func (e oddErr) Error() string { return "odd " + e[0] }

type temporary struct{}

func (temporary) Error() string   { return "not now" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

// errKinds are errors that a reader, a writer, Open, Glob or an external lexer may return. None has the text of another.
// The code must not take one for an end of the data, for an absent file or for an error of its own.
var errKinds = []error{
	errFault,
	io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrShortWrite,
	fmt.Errorf("read: %w", io.EOF), errors.New("EOF!"), errors.Join(errors.New("two"), io.EOF),
	os.ErrNotExist, os.ErrPermission, os.ErrClosed, os.ErrExist, os.ErrDeadlineExceeded,
	&fs.PathError{Op: "open", Path: "/d/f", Err: syscall.ENOENT}, &fs.PathError{Op: "open", Path: "/d/f", Err: syscall.EACCES},
	&fs.PathError{Op: "read", Path: "/d/f", Err: syscall.EISDIR}, &fs.PathError{Op: "open", Path: "/d/f", Err: syscall.ENOTDIR},
	&fs.PathError{Op: "open", Path: "/d/f", Err: syscall.EMFILE},
	fmt.Errorf("w: %w", fs.ErrNotExist),
	syscall.EINTR, syscall.EAGAIN, syscall.EISDIR, syscall.ENOENT,
	context.Canceled, context.DeadlineExceeded, filepath.ErrBadPattern, filepath.SkipDir, filepath.SkipAll, net.ErrClosed,
	bufio.ErrTooLong, bufio.ErrFinalToken, bufio.ErrNegativeCount,
	crossplane.ErrPrematureLexEnd, fmt.Errorf("w: %w", crossplane.ErrPrematureLexEnd),
	errors.New("two\nlines %s %d"),
	temporary{}, oddErr{"x"},
	errors.New("ends in a stop."), errors.New("ends in a line end\n"), errors.New(" in blanks\t"), errors.New("Capital"), errors.New("open /q: no such file or directory"),
	errors.New("has <tags> & \"quotes\" 'and' \\backslashes\\"), errors.New("colons: in: /d/f:1"), errors.New("unexpected \"}\" at last"), errors.New("ünïcödé \xff \x00 \u2028"),
	errors.New("long " + strings.Repeat("error ", 2000)), errors.New("%!v(PANIC)"), errors.New("in /d/main:1"),
}

// sameErr tells whether err is, or wraps, a particular error.
func sameErr(err, want error) bool {
	if o, ok := want.(oddErr); ok {
		var got oddErr
		return errors.As(err, &got) && &got[0] == &o[0]
	}
	return errors.Is(err, want)
}

func errTok(err error, line int) tok {
	return tok{E: err.Error(), EL: line, Prem: err == crossplane.ErrPrematureLexEnd}
}
