// Package simflag stands in for flag: one command line per simulated process.
package simflag

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"time"

	"dst/sim"
	"dst/simos"
)

type (
	FlagSet = flag.FlagSet
	Flag    = flag.Flag
	Value   = flag.Value
)

func cl() *FlagSet {
	return sim.Local("flag", func() *FlagSet {
		name := "sim"
		if len(simos.Args) > 0 {
			name = simos.Args[0]
		}
		f := flag.NewFlagSet(name, flag.ContinueOnError)
		f.SetOutput(simos.Stderr)
		return f
	})
}

var Usage = func() {
	fmt.Fprintf(simos.Stderr, "Usage of %s:\n", cl().Name())
	cl().PrintDefaults()
}

func Parse() {
	args := simos.Args
	if len(args) > 0 {
		args = args[1:]
	}
	cl().Usage = func() { Usage() }
	if err := cl().Parse(args); err != nil {
		if errors.Is(err, flag.ErrHelp) {
			simos.Exit(0)
		}
		simos.Exit(2)
	}
}

func String(n, v, u string) *string                               { return cl().String(n, v, u) }
func Bool(n string, v bool, u string) *bool                       { return cl().Bool(n, v, u) }
func Int(n string, v int, u string) *int                          { return cl().Int(n, v, u) }
func Int64(n string, v int64, u string) *int64                    { return cl().Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint                       { return cl().Uint(n, v, u) }
func Uint64(n string, v uint64, u string) *uint64                 { return cl().Uint64(n, v, u) }
func Float64(n string, v float64, u string) *float64              { return cl().Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration { return cl().Duration(n, v, u) }
func StringVar(p *string, n, v, u string)                         { cl().StringVar(p, n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)                 { cl().BoolVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)                    { cl().IntVar(p, n, v, u) }
func Var(v Value, n, u string)                                    { cl().Var(v, n, u) }
func Func(n, u string, f func(string) error)                      { cl().Func(n, u, f) }
func Args() []string                                              { return cl().Args() }
func Arg(i int) string                                            { return cl().Arg(i) }
func NArg() int                                                   { return cl().NArg() }
func NFlag() int                                                  { return cl().NFlag() }
func Parsed() bool                                                { return cl().Parsed() }
func PrintDefaults()                                              { cl().PrintDefaults() }
func Lookup(n string) *Flag                                       { return cl().Lookup(n) }
func Set(n, v string) error                                       { return cl().Set(n, v) }
func Visit(f func(*Flag))                                         { cl().Visit(f) }
func VisitAll(f func(*Flag))                                      { cl().VisitAll(f) }

var CommandLine = commandLine{}

type commandLine struct{}

func (commandLine) SetOutput(w io.Writer)  { cl().SetOutput(w) }
func (commandLine) Parse(a []string) error { return cl().Parse(a) }
func (commandLine) PrintDefaults()         { cl().PrintDefaults() }
func (commandLine) Args() []string         { return cl().Args() }
