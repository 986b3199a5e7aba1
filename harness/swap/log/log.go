// Package log stands in for the standard library's in command-line tools run
// by a harness.
package log

import (
	"fmt"
	"io"

	"github.com/kuznetsovin/egts-protocol/verifswap/os"
)

const (
	Ldate         = 1
	Ltime         = 2
	Lmicroseconds = 4
	Llongfile     = 8
	Lshortfile    = 16
	LUTC          = 32
	Lmsgprefix    = 64
	LstdFlags     = 3
)

type Logger struct{ prefix string }

var std = &Logger{}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{prefix} }
func Default() *Logger                                 { return std }

func (*Logger) Print(v ...interface{})            {}
func (*Logger) Printf(f string, v ...interface{}) {}
func (*Logger) Println(v ...interface{})          {}
func (*Logger) Fatal(v ...interface{})            { os.Exit(1) }
func (*Logger) Fatalf(f string, v ...interface{}) { os.Exit(1) }
func (*Logger) Fatalln(v ...interface{})          { os.Exit(1) }
func (*Logger) Panic(v ...interface{})            { panic("log.Panic") }
func (*Logger) Panicf(f string, v ...interface{}) { panic(fmt.Sprintf(f, v...)) }
func (*Logger) Panicln(v ...interface{})          { panic("log.Panic") }
func (*Logger) Output(d int, s string) error      { return nil }
func (*Logger) SetFlags(flag int)                 {}
func (*Logger) SetOutput(w io.Writer)             {}
func (l *Logger) SetPrefix(p string)              { l.prefix = p }
func (*Logger) Flags() int                        { return LstdFlags }
func (l *Logger) Prefix() string                  { return l.prefix }
func (*Logger) Writer() io.Writer                 { return os.Stderr }

func SetFlags(flag int)                 {}
func SetPrefix(p string)                {}
func SetOutput(w io.Writer)             {}
func Flags() int                        { return LstdFlags }
func Prefix() string                    { return "" }
func Writer() io.Writer                 { return os.Stderr }
func Output(d int, s string) error      { return nil }
func Print(v ...interface{})            {}
func Printf(f string, v ...interface{}) {}
func Println(v ...interface{})          {}
func Fatal(v ...interface{})            { os.Exit(1) }
func Fatalf(f string, v ...interface{}) { os.Exit(1) }
func Fatalln(v ...interface{})          { os.Exit(1) }
func Panic(v ...interface{})            { panic("log.Panic") }
func Panicf(f string, v ...interface{}) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...interface{})          { panic("log.Panic") }
