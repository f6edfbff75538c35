// Package vflag is a stand-in for package flag which takes the arguments from the stand-in for package os.
package vflag

import (
	"errors"
	"io"
	"strconv"
	"time"

	"verif.test/v/sym"
	"verif.test/v/vos"
)

// ErrHelp is returned for -h if it is not defined.
var ErrHelp = errors.New("flag: help requested")

type flagDef struct {
	name  string
	b     *bool
	s     *string
	i     *int
	d     *time.Duration
	v     Value
	noArg bool // -name alone means -name=true
	given bool
	usage string
	deflt string
	reset func() // gives the variable its default value again
}

// FlagSet is a set of flags.
type FlagSet struct {
	defs  []*flagDef
	args  []string
	Usage func()
	done  bool

	handling ErrorHandling
}

// CommandLine is the default set.
var CommandLine = &FlagSet{}

// Usage prints the usage.
var Usage = func() {}

func init() {
	initial := -1 // the number of flags defined by the initialisation of packages
	sym.Reset = append(sym.Reset, func() {
		if initial < 0 {
			initial = len(CommandLine.defs)
		}
		*CommandLine = FlagSet{defs: CommandLine.defs[:initial:initial]}
		for _, d := range CommandLine.defs {
			d.given = false
			d.reset()
		}
	})
}

type null struct{}

func (null) Write(p []byte) (int, error) { return len(p), nil }

func (f *FlagSet) Output() io.Writer   { return null{} }
func (f *FlagSet) PrintDefaults()      {}
func (f *FlagSet) SetOutput(io.Writer) {}
func (f *FlagSet) Args() []string      { return f.args }
func (f *FlagSet) NArg() int           { return len(f.args) }
func (f *FlagSet) Parsed() bool        { return f.done }
func (f *FlagSet) Arg(i int) string {
	if i < 0 || i >= len(f.args) {
		return ""
	}
	return f.args[i]
}

func (f *FlagSet) BoolVar(p *bool, name string, v bool, usage string) {
	*p = v
	f.defs = append(f.defs, &flagDef{name: name, b: p, usage: usage, reset: func() { *p = v }})
}
func (f *FlagSet) StringVar(p *string, name string, v string, usage string) {
	*p = v
	f.defs = append(f.defs, &flagDef{name: name, s: p, usage: usage, reset: func() { *p = v }})
}
func (f *FlagSet) IntVar(p *int, name string, v int, usage string) {
	*p = v
	f.defs = append(f.defs, &flagDef{name: name, i: p, usage: usage, reset: func() { *p = v }})
}
func (f *FlagSet) DurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	*p = v
	f.defs = append(f.defs, &flagDef{name: name, d: p, usage: usage, reset: func() { *p = v }})
}
func (f *FlagSet) Bool(name string, v bool, usage string) *bool {
	p := new(bool)
	f.BoolVar(p, name, v, usage)
	return p
}
func (f *FlagSet) String(name string, v string, usage string) *string {
	p := new(string)
	f.StringVar(p, name, v, usage)
	return p
}
func (f *FlagSet) Int(name string, v int, usage string) *int {
	p := new(int)
	f.IntVar(p, name, v, usage)
	return p
}

// Parse parses the arguments; what happens on errors depends on the set.
func (f *FlagSet) Parse(args []string) error {
	err := f.parse(args)
	switch {
	case err == nil || f.handling == ContinueOnError:
		return err
	case f.handling == PanicOnError:
		panic(err)
	case err == ErrHelp:
		vos.Exit(0)
	}
	vos.Exit(2)
	return nil
}

func (f *FlagSet) parse(args []string) error {
	f.done = true
	f.args = args
	for len(f.args) > 0 {
		a := f.args[0]
		if len(a) < 2 || a[0] != '-' {
			return nil
		}
		f.args = f.args[1:]
		a = a[1:]
		if a[0] == '-' {
			a = a[1:]
			if a == "" {
				return nil
			}
		}
		name, val, has := a, "", false
		for i := 1; i < len(a); i++ {
			if a[i] == '=' {
				name, val, has = a[:i], a[i+1:], true
				break
			}
		}
		var d *flagDef
		for _, x := range f.defs {
			if x.name == name {
				d = x
			}
		}
		if d == nil {
			if name == "h" || name == "help" {
				return ErrHelp
			}
			return errors.New("flag provided but not defined: -" + name)
		}
		var err error
		d.given = true
		if d.noArg && !has {
			if err = d.v.Set("true"); err != nil {
				return err
			}
			continue
		}
		if d.b != nil {
			*d.b = true
			if has {
				*d.b, err = strconv.ParseBool(val)
			}
			if err != nil {
				return err
			}
			continue
		}
		if !has {
			if len(f.args) == 0 {
				return errors.New("flag needs an argument: -" + name)
			}
			val, f.args = f.args[0], f.args[1:]
		}
		switch {
		case d.s != nil:
			*d.s = val
		case d.i != nil:
			*d.i, err = strconv.Atoi(val)
		case d.v != nil:
			err = d.v.Set(val)
		case d.d != nil:
			*d.d, err = time.ParseDuration(val)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func Bool(name string, v bool, usage string) *bool       { return CommandLine.Bool(name, v, usage) }
func String(name string, v string, usage string) *string { return CommandLine.String(name, v, usage) }
func Int(name string, v int, usage string) *int          { return CommandLine.Int(name, v, usage) }
func IntVar(p *int, name string, v int, usage string)    { CommandLine.IntVar(p, name, v, usage) }
func Duration(name string, v time.Duration, usage string) *time.Duration {
	p := new(time.Duration)
	CommandLine.DurationVar(p, name, v, usage)
	return p
}
func BoolVar(p *bool, name string, v bool, usage string) { CommandLine.BoolVar(p, name, v, usage) }
func StringVar(p *string, name string, v string, usage string) {
	CommandLine.StringVar(p, name, v, usage)
}
func PrintDefaults()   {}
func Args() []string   { return CommandLine.Args() }
func NArg() int        { return CommandLine.NArg() }
func Arg(i int) string { return CommandLine.Arg(i) }
func Parsed() bool     { return CommandLine.done }

// ErrorHandling tells what Parse of a set does about errors.
type ErrorHandling int

const (
	ContinueOnError ErrorHandling = iota
	ExitOnError
	PanicOnError
)

// NewFlagSet makes a set of its own.
func NewFlagSet(name string, h ErrorHandling) *FlagSet { return &FlagSet{handling: h} }

// Parse parses the program arguments; errors end the program with code 2, a request for help with 0.
func Parse() {
	err := CommandLine.Parse(vos.Args[1:])
	if err == ErrHelp {
		vos.Exit(0)
	}
	if err != nil {
		vos.Exit(2)
	}
}

// Value is the value of a flag.
type Value interface {
	String() string
	Set(string) error
}

// Flag describes a flag.
type Flag struct {
	Name, Usage string
	Value       Value
	DefValue    string
}

func (d *flagDef) String() string {
	switch {
	case d.b != nil:
		return strconv.FormatBool(*d.b)
	case d.s != nil:
		return *d.s
	case d.i != nil:
		return strconv.Itoa(*d.i)
	case d.d != nil:
		return d.d.String()
	}
	return d.v.String()
}

func (d *flagDef) Set(val string) (err error) {
	d.given = true
	switch {
	case d.b != nil:
		*d.b, err = strconv.ParseBool(val)
	case d.s != nil:
		*d.s = val
	case d.i != nil:
		*d.i, err = strconv.Atoi(val)
	case d.d != nil:
		*d.d, err = time.ParseDuration(val)
	default:
		err = d.v.Set(val)
	}
	return err
}

func (d *flagDef) flag() *Flag {
	return &Flag{Name: d.name, Usage: d.usage, Value: d, DefValue: d.deflt}
}

func (f *FlagSet) Var(v Value, name string, usage string) {
	old := v.String()
	f.defs = append(f.defs, &flagDef{name: name, v: v, usage: usage, deflt: old, reset: func() { _ = v.Set(old) }})
}

type funcValue func(string) error

func (funcValue) String() string       { return "" }
func (f funcValue) Set(s string) error { return f(s) }

func (f *FlagSet) Func(name, usage string, fn func(string) error) {
	f.defs = append(f.defs, &flagDef{name: name, v: funcValue(fn), usage: usage, reset: func() {}})
}

func (f *FlagSet) BoolFunc(name, usage string, fn func(string) error) {
	f.defs = append(f.defs, &flagDef{name: name, v: funcValue(fn), noArg: true, usage: usage, reset: func() {}})
}

type int64Value int64

func (v *int64Value) String() string { return strconv.FormatInt(int64(*v), 10) }
func (v *int64Value) Set(s string) error {
	x, err := strconv.ParseInt(s, 0, 64)
	*v = int64Value(x)
	return err
}

type uint64Value uint64

func (v *uint64Value) String() string { return strconv.FormatUint(uint64(*v), 10) }
func (v *uint64Value) Set(s string) error {
	x, err := strconv.ParseUint(s, 0, 64)
	*v = uint64Value(x)
	return err
}

func (f *FlagSet) Int64(name string, v int64, usage string) *int64 {
	p := &v
	f.Var((*int64Value)(p), name, usage)
	return p
}

func (f *FlagSet) Uint64(name string, v uint64, usage string) *uint64 {
	p := &v
	f.Var((*uint64Value)(p), name, usage)
	return p
}

func (f *FlagSet) Duration(name string, v time.Duration, usage string) *time.Duration {
	p := new(time.Duration)
	f.DurationVar(p, name, v, usage)
	return p
}

func (f *FlagSet) Lookup(name string) *Flag {
	for _, d := range f.defs {
		if d.name == name {
			return d.flag()
		}
	}
	return nil
}

func (f *FlagSet) Set(name, value string) error {
	for _, d := range f.defs {
		if d.name == name {
			return d.Set(value)
		}
	}
	return errors.New("no such flag -" + name)
}

func (f *FlagSet) VisitAll(fn func(*Flag)) {
	for _, d := range f.defs {
		fn(d.flag())
	}
}

func (f *FlagSet) Visit(fn func(*Flag)) {
	for _, d := range f.defs {
		if d.given {
			fn(d.flag())
		}
	}
}

func (f *FlagSet) NFlag() (n int) {
	f.Visit(func(*Flag) { n++ })
	return n
}

func (f *FlagSet) Name() string                          { return "" }
func (f *FlagSet) ErrorHandling() ErrorHandling          { return f.handling }
func (f *FlagSet) Init(name string, h ErrorHandling)     { f.handling = h }
func Var(v Value, name string, usage string)             { CommandLine.Var(v, name, usage) }
func Func(name, usage string, fn func(string) error)     { CommandLine.Func(name, usage, fn) }
func BoolFunc(name, usage string, fn func(string) error) { CommandLine.BoolFunc(name, usage, fn) }
func Int64(name string, v int64, usage string) *int64    { return CommandLine.Int64(name, v, usage) }
func Uint64(name string, v uint64, usage string) *uint64 { return CommandLine.Uint64(name, v, usage) }
func Lookup(name string) *Flag                           { return CommandLine.Lookup(name) }
func Set(name, value string) error                       { return CommandLine.Set(name, value) }
func VisitAll(fn func(*Flag))                            { CommandLine.VisitAll(fn) }
func Visit(fn func(*Flag))                               { CommandLine.Visit(fn) }
func NFlag() int                                         { return CommandLine.NFlag() }
func DurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	CommandLine.DurationVar(p, name, v, usage)
}
