// Package simflag is package flag with one command line per simulated process.
package simflag

import (
	"flag"
	"time"

	"crunchsim/simos"
)

type (
	FlagSet       = flag.FlagSet
	Flag          = flag.Flag
	Value         = flag.Value
	Getter        = flag.Getter
	ErrorHandling = flag.ErrorHandling
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var ErrHelp = flag.ErrHelp

// Usage mirrors flag.Usage.
var Usage = func() { PrintDefaults() }

func cl() *flag.FlagSet {
	p := simos.Current()
	if p.FlagSet == nil {
		fs := flag.NewFlagSet(p.Args[0], flag.ContinueOnError)
		fs.SetOutput(simos.Stderr)
		p.FlagSet = fs
	}
	return p.FlagSet.(*flag.FlagSet)
}

func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	if h == flag.ExitOnError {
		h = flag.PanicOnError
	}
	f := flag.NewFlagSet(name, h)
	f.SetOutput(simos.Stderr)
	return f
}

func Parse() {
	if err := cl().Parse(simos.Current().Args[1:]); err != nil {
		if err == flag.ErrHelp {
			simos.Exit(0)
		}
		simos.Exit(2)
	}
}

func Parsed() bool                                                { return cl().Parsed() }
func Args() []string                                              { return cl().Args() }
func Arg(i int) string                                            { return cl().Arg(i) }
func NArg() int                                                   { return cl().NArg() }
func NFlag() int                                                  { return cl().NFlag() }
func PrintDefaults()                                              { cl().PrintDefaults() }
func Lookup(n string) *Flag                                       { return cl().Lookup(n) }
func Set(n, v string) error                                       { return cl().Set(n, v) }
func Visit(f func(*Flag))                                         { cl().Visit(f) }
func VisitAll(f func(*Flag))                                      { cl().VisitAll(f) }
func Var(v Value, n, u string)                                    { cl().Var(v, n, u) }
func String(n, v, u string) *string                               { return cl().String(n, v, u) }
func StringVar(p *string, n, v, u string)                         { cl().StringVar(p, n, v, u) }
func Bool(n string, v bool, u string) *bool                       { return cl().Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)                 { cl().BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int                          { return cl().Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)                    { cl().IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64                    { return cl().Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint                       { return cl().Uint(n, v, u) }
func Float64(n string, v float64, u string) *float64              { return cl().Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration { return cl().Duration(n, v, u) }
func Func(n, u string, f func(string) error)                      { cl().Func(n, u, f) }
