// Package flag stands in for the standard library's: the harness gives the
// options their values.
package flag

import "time"

// The command line, set by the harness.
var (
	VerifInts   = map[string]int{}
	VerifFloats = map[string]float64{}
	VerifStrs   = map[string]string{}
	VerifBools  = map[string]bool{}
)

type VerifFlag struct {
	name string
	set  func()
}

type ErrorHandling int

const (
	ContinueOnError ErrorHandling = iota
	ExitOnError
	PanicOnError
)

// FlagSet is a set of options.
type FlagSet struct {
	flags  []VerifFlag
	parsed bool
	Usage  func()
}

var CommandLine = &FlagSet{}

var Usage = func() {}

func NewFlagSet(name string, h ErrorHandling) *FlagSet { return &FlagSet{} }

func (f *FlagSet) add(name string, set func()) { f.flags = append(f.flags, VerifFlag{name, set}) }

func (f *FlagSet) IntVar(p *int, name string, v int, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifInts[name]; ok {
			*p = x
		}
	})
}

func (f *FlagSet) Int64Var(p *int64, name string, v int64, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifInts[name]; ok {
			*p = int64(x)
		}
	})
}

func (f *FlagSet) UintVar(p *uint, name string, v uint, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifInts[name]; ok {
			*p = uint(x)
		}
	})
}

func (f *FlagSet) Uint64Var(p *uint64, name string, v uint64, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifInts[name]; ok {
			*p = uint64(x)
		}
	})
}

func (f *FlagSet) Float64Var(p *float64, name string, v float64, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifFloats[name]; ok {
			*p = x
		}
	})
}

func (f *FlagSet) StringVar(p *string, name string, v string, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifStrs[name]; ok {
			*p = x
		}
	})
}

func (f *FlagSet) BoolVar(p *bool, name string, v bool, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifBools[name]; ok {
			*p = x
		}
	})
}

func (f *FlagSet) DurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	*p = v
	f.add(name, func() {
		if x, ok := VerifInts[name]; ok {
			*p = time.Duration(x)
		}
	})
}

func (f *FlagSet) Int(name string, v int, u string) *int {
	p := new(int)
	f.IntVar(p, name, v, u)
	return p
}

func (f *FlagSet) Uint(name string, v uint, u string) *uint {
	p := new(uint)
	f.UintVar(p, name, v, u)
	return p
}

func (f *FlagSet) Int64(name string, v int64, u string) *int64 {
	p := new(int64)
	f.Int64Var(p, name, v, u)
	return p
}

func (f *FlagSet) Uint64(name string, v uint64, u string) *uint64 {
	p := new(uint64)
	f.Uint64Var(p, name, v, u)
	return p
}

func (f *FlagSet) Float64(name string, v float64, u string) *float64 {
	p := new(float64)
	f.Float64Var(p, name, v, u)
	return p
}

func (f *FlagSet) String(name string, v string, u string) *string {
	p := new(string)
	f.StringVar(p, name, v, u)
	return p
}

func (f *FlagSet) Bool(name string, v bool, u string) *bool {
	p := new(bool)
	f.BoolVar(p, name, v, u)
	return p
}

func (f *FlagSet) Duration(name string, v time.Duration, u string) *time.Duration {
	p := new(time.Duration)
	f.DurationVar(p, name, v, u)
	return p
}

func (f *FlagSet) Parse(args []string) error {
	f.parsed = true
	for _, x := range f.flags {
		x.set()
	}
	return nil
}

func (f *FlagSet) Parsed() bool   { return f.parsed }
func (f *FlagSet) PrintDefaults() {}
func (f *FlagSet) NArg() int      { return 0 }
func (f *FlagSet) Args() []string { return nil }

func IntVar(p *int, n string, v int, u string)             { CommandLine.IntVar(p, n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { CommandLine.UintVar(p, n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)    { CommandLine.Uint64Var(p, n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func StringVar(p *string, n string, v string, u string)    { CommandLine.StringVar(p, n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)          { CommandLine.BoolVar(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Int(n string, v int, u string) *int             { return CommandLine.Int(n, v, u) }
func Int64(n string, v int64, u string) *int64       { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return CommandLine.Uint(n, v, u) }
func Uint64(n string, v uint64, u string) *uint64    { return CommandLine.Uint64(n, v, u) }
func Float64(n string, v float64, u string) *float64 { return CommandLine.Float64(n, v, u) }
func String(n string, v string, u string) *string    { return CommandLine.String(n, v, u) }
func Bool(n string, v bool, u string) *bool          { return CommandLine.Bool(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func Parse()         { CommandLine.Parse(nil) }
func Parsed() bool   { return CommandLine.parsed }
func PrintDefaults() {}
func NArg() int      { return 0 }
func Args() []string { return nil }
