// Code generated by tools/genalias. DO NOT EDIT.

package simflag

import real "flag"

const (
	ContinueOnError = real.ContinueOnError
	ExitOnError     = real.ExitOnError
	PanicOnError    = real.PanicOnError
)

type (
	ErrorHandling = real.ErrorHandling
	Getter        = real.Getter
)

var (
	BoolFunc     = real.BoolFunc
	DurationVar  = real.DurationVar
	ErrHelp      = real.ErrHelp
	Float64Var   = real.Float64Var
	Int64Var     = real.Int64Var
	NewFlagSet   = real.NewFlagSet
	TextVar      = real.TextVar
	Uint64Var    = real.Uint64Var
	UintVar      = real.UintVar
	UnquoteUsage = real.UnquoteUsage
)
