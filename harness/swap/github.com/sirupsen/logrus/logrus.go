// Package logrus stands in for the logging library: it keeps what is logged.
package logrus

import (
	"context"
	"errors"
	"io"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/verifswap/os"
)

// Level is a log level.
type Level uint32

const (
	PanicLevel Level = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
	TraceLevel
)

// Fields are the fields of an entry.
type Fields map[string]interface{}

// VerifLine is a logged line.
type VerifLine struct {
	Level Level
	Data  Fields
	Args  []interface{}
}

// What was logged, at whatever level, and the level asked for.
var (
	VerifLines  []VerifLine
	VerifLevel  = InfoLevel
	VerifLevels int
)

// AllLevels are the levels there are.
var AllLevels = []Level{PanicLevel, FatalLevel, ErrorLevel, WarnLevel, InfoLevel, DebugLevel, TraceLevel}

const (
	ErrorKey = "error"

	FieldKeyMsg   = "msg"
	FieldKeyLevel = "level"
	FieldKeyTime  = "time"
)

func (l Level) String() string {
	switch l {
	case TraceLevel:
		return "trace"
	case DebugLevel:
		return "debug"
	case InfoLevel:
		return "info"
	case WarnLevel:
		return "warning"
	case ErrorLevel:
		return "error"
	case FatalLevel:
		return "fatal"
	case PanicLevel:
		return "panic"
	}
	return "unknown"
}

// ParseLevel is the level of a name.
func ParseLevel(name string) (Level, error) {
	switch strings.ToLower(name) {
	case "panic":
		return PanicLevel, nil
	case "fatal":
		return FatalLevel, nil
	case "error":
		return ErrorLevel, nil
	case "warn", "warning":
		return WarnLevel, nil
	case "info":
		return InfoLevel, nil
	case "debug":
		return DebugLevel, nil
	case "trace":
		return TraceLevel, nil
	}
	var l Level
	return l, errors.New("not a valid logrus Level")
}

// UnmarshalText is ParseLevel.
func (l *Level) UnmarshalText(text []byte) error {
	v, err := ParseLevel(string(text))
	if err != nil {
		return err
	}
	*l = v
	return nil
}

// Entry is a line in the making.
type Entry struct {
	Data   Fields
	Logger *Logger
}

type (
	Formatter interface{}
	Hook      interface{}
	FieldMap  map[string]string

	TextFormatter struct {
		DisableColors, ForceColors, FullTimestamp      bool
		DisableTimestamp, DisableQuote, ForceQuote     bool
		DisableSorting, PadLevelText, QuoteEmptyFields bool
		DisableLevelTruncation                         bool
		TimestampFormat                                string
		FieldMap                                       FieldMap
	}
	JSONFormatter struct {
		TimestampFormat  string
		DisableTimestamp bool
		PrettyPrint      bool
		DataKey          string
		FieldMap         FieldMap
	}
	Logger struct {
		Entry
		Out          io.Writer
		Formatter    Formatter
		Level        Level
		ReportCaller bool
	}
	// FieldLogger and StdLogger are what loggers and entries provide.
	StdLogger interface {
		Print(...interface{})
		Printf(string, ...interface{})
		Println(...interface{})
		Fatal(...interface{})
		Fatalf(string, ...interface{})
		Fatalln(...interface{})
		Panic(...interface{})
		Panicf(string, ...interface{})
		Panicln(...interface{})
	}
	FieldLogger interface {
		WithField(key string, value interface{}) *Entry
		WithFields(fields Fields) *Entry
		WithError(err error) *Entry
		Debugf(format string, args ...interface{})
		Infof(format string, args ...interface{})
		Printf(format string, args ...interface{})
		Warnf(format string, args ...interface{})
		Warningf(format string, args ...interface{})
		Errorf(format string, args ...interface{})
		Fatalf(format string, args ...interface{})
		Panicf(format string, args ...interface{})
		Debug(args ...interface{})
		Info(args ...interface{})
		Print(args ...interface{})
		Warn(args ...interface{})
		Warning(args ...interface{})
		Error(args ...interface{})
		Fatal(args ...interface{})
		Panic(args ...interface{})
		Debugln(args ...interface{})
		Infoln(args ...interface{})
		Println(args ...interface{})
		Warnln(args ...interface{})
		Warningln(args ...interface{})
		Errorln(args ...interface{})
		Fatalln(args ...interface{})
		Panicln(args ...interface{})
	}
)

var theLogger = &Logger{Level: InfoLevel}

func New() *Logger              { return &Logger{Level: InfoLevel} }
func StandardLogger() *Logger   { return theLogger }
func NewEntry(l *Logger) *Entry { return &Entry{Logger: l} }
func (l *Logger) SetLevel(v Level) {
	l.Level = v
	if l == theLogger {
		SetLevel(v)
	}
}
func (l *Logger) GetLevel() Level {
	if l == theLogger {
		return VerifLevel
	}
	return l.Level
}
func (l *Logger) IsLevelEnabled(Level) bool { return true }
func (l *Logger) SetOutput(w io.Writer)     { l.Out = w }
func (l *Logger) SetFormatter(f Formatter)  { l.Formatter = f }
func (l *Logger) SetReportCaller(b bool)    { l.ReportCaller = b }
func (l *Logger) AddHook(Hook)              {}
func (l *Logger) Writer() io.Writer         { return os.Stderr }
func (l *Logger) Exit(code int)             { os.Exit(code) }
func AddHook(Hook)                          {}
func Exit(code int)                         { os.Exit(code) }
func RegisterExitHandler(func())            {}

func SetLevel(l Level)          { VerifLevel = l; VerifLevels++ }
func GetLevel() Level           { return VerifLevel }
func IsLevelEnabled(Level) bool { return true }
func SetOutput(io.Writer)       {}
func SetFormatter(Formatter)    {}
func SetReportCaller(bool)      {}

func (e *Entry) log(l Level, a []interface{}) {
	VerifLines = append(VerifLines, VerifLine{l, e.Data, a})
	if l == FatalLevel {
		os.Exit(1)
	}
	if l == PanicLevel {
		panic("logrus panic")
	}
}

func (e *Entry) with(more Fields) *Entry {
	d := Fields{}
	for k, v := range e.Data {
		d[k] = v
	}
	for k, v := range more {
		d[k] = v
	}
	return &Entry{Data: d}
}

func (e *Entry) WithField(k string, v interface{}) *Entry { return e.with(Fields{k: v}) }
func (e *Entry) WithFields(f Fields) *Entry               { return e.with(f) }
func (e *Entry) WithError(err error) *Entry               { return e.with(Fields{ErrorKey: err}) }
func (e *Entry) WithContext(ctx context.Context) *Entry   { return e }
func (e *Entry) WithTime(t time.Time) *Entry              { return e }
func (e *Entry) Dup() *Entry                              { return e.with(nil) }
func (e *Entry) Log(l Level, a ...interface{})            { e.log(l, a) }
func (e *Entry) Logf(l Level, f string, a ...interface{}) { e.log(l, a) }
func (e *Entry) Logln(l Level, a ...interface{})          { e.log(l, a) }

var std = &Entry{}

func WithField(k string, v interface{}) *Entry { return std.with(Fields{k: v}) }
func WithFields(f Fields) *Entry               { return std.with(f) }
func WithError(err error) *Entry               { return std.with(Fields{ErrorKey: err}) }
func WithContext(ctx context.Context) *Entry   { return std.with(nil) }
func WithTime(t time.Time) *Entry              { return std.with(nil) }

func (e *Entry) Trace(a ...interface{})              { e.log(TraceLevel, a) }
func (e *Entry) Traceln(a ...interface{})            { e.log(TraceLevel, a) }
func (e *Entry) Tracef(f string, a ...interface{})   { e.log(TraceLevel, a) }
func (e *Entry) Debug(a ...interface{})              { e.log(DebugLevel, a) }
func (e *Entry) Debugln(a ...interface{})            { e.log(DebugLevel, a) }
func (e *Entry) Debugf(f string, a ...interface{})   { e.log(DebugLevel, a) }
func (e *Entry) Print(a ...interface{})              { e.log(InfoLevel, a) }
func (e *Entry) Println(a ...interface{})            { e.log(InfoLevel, a) }
func (e *Entry) Printf(f string, a ...interface{})   { e.log(InfoLevel, a) }
func (e *Entry) Info(a ...interface{})               { e.log(InfoLevel, a) }
func (e *Entry) Infoln(a ...interface{})             { e.log(InfoLevel, a) }
func (e *Entry) Infof(f string, a ...interface{})    { e.log(InfoLevel, a) }
func (e *Entry) Warn(a ...interface{})               { e.log(WarnLevel, a) }
func (e *Entry) Warnln(a ...interface{})             { e.log(WarnLevel, a) }
func (e *Entry) Warnf(f string, a ...interface{})    { e.log(WarnLevel, a) }
func (e *Entry) Warning(a ...interface{})            { e.log(WarnLevel, a) }
func (e *Entry) Warningln(a ...interface{})          { e.log(WarnLevel, a) }
func (e *Entry) Warningf(f string, a ...interface{}) { e.log(WarnLevel, a) }
func (e *Entry) Error(a ...interface{})              { e.log(ErrorLevel, a) }
func (e *Entry) Errorln(a ...interface{})            { e.log(ErrorLevel, a) }
func (e *Entry) Errorf(f string, a ...interface{})   { e.log(ErrorLevel, a) }
func (e *Entry) Fatal(a ...interface{})              { e.log(FatalLevel, a) }
func (e *Entry) Fatalln(a ...interface{})            { e.log(FatalLevel, a) }
func (e *Entry) Fatalf(f string, a ...interface{})   { e.log(FatalLevel, a) }
func (e *Entry) Panic(a ...interface{})              { e.log(PanicLevel, a) }
func (e *Entry) Panicln(a ...interface{})            { e.log(PanicLevel, a) }
func (e *Entry) Panicf(f string, a ...interface{})   { e.log(PanicLevel, a) }

func Trace(a ...interface{})              { std.log(TraceLevel, a) }
func Traceln(a ...interface{})            { std.log(TraceLevel, a) }
func Tracef(f string, a ...interface{})   { std.log(TraceLevel, a) }
func Debug(a ...interface{})              { std.log(DebugLevel, a) }
func Debugln(a ...interface{})            { std.log(DebugLevel, a) }
func Debugf(f string, a ...interface{})   { std.log(DebugLevel, a) }
func Print(a ...interface{})              { std.log(InfoLevel, a) }
func Println(a ...interface{})            { std.log(InfoLevel, a) }
func Printf(f string, a ...interface{})   { std.log(InfoLevel, a) }
func Info(a ...interface{})               { std.log(InfoLevel, a) }
func Infoln(a ...interface{})             { std.log(InfoLevel, a) }
func Infof(f string, a ...interface{})    { std.log(InfoLevel, a) }
func Warn(a ...interface{})               { std.log(WarnLevel, a) }
func Warnln(a ...interface{})             { std.log(WarnLevel, a) }
func Warnf(f string, a ...interface{})    { std.log(WarnLevel, a) }
func Warning(a ...interface{})            { std.log(WarnLevel, a) }
func Warningln(a ...interface{})          { std.log(WarnLevel, a) }
func Warningf(f string, a ...interface{}) { std.log(WarnLevel, a) }
func Error(a ...interface{})              { std.log(ErrorLevel, a) }
func Errorln(a ...interface{})            { std.log(ErrorLevel, a) }
func Errorf(f string, a ...interface{})   { std.log(ErrorLevel, a) }
func Fatal(a ...interface{})              { std.log(FatalLevel, a) }
func Fatalln(a ...interface{})            { std.log(FatalLevel, a) }
func Fatalf(f string, a ...interface{})   { std.log(FatalLevel, a) }
func Panic(a ...interface{})              { std.log(PanicLevel, a) }
func Panicln(a ...interface{})            { std.log(PanicLevel, a) }
func Panicf(f string, a ...interface{})   { std.log(PanicLevel, a) }
