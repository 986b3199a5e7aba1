// Package os stands in for the standard library's in command-line tools run by
// a harness: leaving the process becomes a panic the harness recovers, and
// files are those the harness gives.
package os

import (
	"errors"
	"io"
	real "os"
)

// VerifExit is what Exit panics with.
type VerifExit struct{ Code int }

type (
	FileMode  = real.FileMode
	FileInfo  = real.FileInfo
	Signal    = real.Signal
	PathError = real.PathError
)

const (
	O_RDONLY = real.O_RDONLY
	O_WRONLY = real.O_WRONLY
	O_RDWR   = real.O_RDWR
	O_APPEND = real.O_APPEND
	O_CREATE = real.O_CREATE
	O_EXCL   = real.O_EXCL
	O_SYNC   = real.O_SYNC
	O_TRUNC  = real.O_TRUNC

	PathSeparator = '/'
	DevNull       = "/dev/null"
	ModePerm      = real.ModePerm
)

// File is an open file.
type File struct {
	name   string
	data   []byte
	pos    int
	closed bool
}

var (
	ErrNotExist   = real.ErrNotExist
	ErrInvalid    = errors.New("invalid argument")
	ErrExist      = real.ErrExist
	ErrPermission = real.ErrPermission
	ErrClosed     = real.ErrClosed

	Args      = []string{"tool"}
	Stdin     = &File{name: "/dev/stdin"}
	Stdout    = &File{name: "/dev/stdout"}
	Stderr    = &File{name: "/dev/stderr"}
	Interrupt = real.Interrupt
	Kill      = real.Kill

	VerifExited    bool
	VerifExitCodes []int
)

func Exit(code int) {
	VerifExited = true
	VerifExitCodes = append(VerifExitCodes, code)
	panic(VerifExit{code})
}

func Getenv(k string) string            { return "" }
func LookupEnv(k string) (string, bool) { return "", false }
func Setenv(k, v string) error          { return nil }
func Unsetenv(k string) error           { return nil }
func Environ() []string                 { return nil }
func Expand(s string, f func(string) string) string {
	return real.Expand(s, f)
}
func ExpandEnv(s string) string   { return real.Expand(s, Getenv) }
func Hostname() (string, error)   { return "host", nil }
func Getpid() int                 { return 1 }
func Executable() (string, error) { return "/tool", nil }
func Getwd() (string, error)      { return "/", nil }

// VerifFiles are the files there are.
var VerifFiles = map[string][]byte{}

func ReadFile(name string) ([]byte, error) {
	b, ok := VerifFiles[name]
	if !ok {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	return append([]byte{}, b...), nil
}

func Open(name string) (*File, error) {
	b, ok := VerifFiles[name]
	if !ok {
		return nil, &PathError{Op: "open", Path: name, Err: ErrNotExist}
	}
	return &File{name: name, data: append([]byte{}, b...)}, nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) { return Open(name) }

func IsNotExist(err error) bool { return real.IsNotExist(err) }
func IsExist(err error) bool    { return real.IsExist(err) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 0 }
func (f *File) Sync() error  { return nil }

func (f *File) Close() error {
	if f.closed {
		return ErrClosed
	}
	f.closed = true
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if f.closed {
		return 0, ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos == len(f.data) {
		return 0, io.EOF
	}
	n := copy(p, f.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Write(p []byte) (int, error)       { return len(p), nil }
func (f *File) WriteString(s string) (int, error) { return len(s), nil }
