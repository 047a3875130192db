// Code generated by tools/genalias. DO NOT EDIT.

package simruntime

import real "runtime"

const (
	Compiler = real.Compiler
	GOARCH   = real.GOARCH
	GOOS     = real.GOOS
)

type (
	BlockProfileRecord = real.BlockProfileRecord
	Cleanup            = real.Cleanup
	Error              = real.Error
	Frame              = real.Frame
	Frames             = real.Frames
	Func               = real.Func
	MemProfileRecord   = real.MemProfileRecord
	MemStats           = real.MemStats
	PanicNilError      = real.PanicNilError
	Pinner             = real.Pinner
	StackRecord        = real.StackRecord
	TypeAssertionError = real.TypeAssertionError
)

var (
	BlockProfile            = real.BlockProfile
	Breakpoint              = real.Breakpoint
	CPUProfile              = real.CPUProfile
	Caller                  = real.Caller
	Callers                 = real.Callers
	CallersFrames           = real.CallersFrames
	FuncForPC               = real.FuncForPC
	GC                      = real.GC
	GOMAXPROCS              = real.GOMAXPROCS
	GOROOT                  = real.GOROOT
	Goexit                  = real.Goexit
	GoroutineProfile        = real.GoroutineProfile
	KeepAlive               = real.KeepAlive
	LockOSThread            = real.LockOSThread
	MemProfile              = real.MemProfile
	MemProfileRate          = real.MemProfileRate
	MutexProfile            = real.MutexProfile
	NumCPU                  = real.NumCPU
	NumCgoCall              = real.NumCgoCall
	NumGoroutine            = real.NumGoroutine
	ReadMemStats            = real.ReadMemStats
	ReadTrace               = real.ReadTrace
	SetBlockProfileRate     = real.SetBlockProfileRate
	SetCPUProfileRate       = real.SetCPUProfileRate
	SetCgoTraceback         = real.SetCgoTraceback
	SetDefaultGOMAXPROCS    = real.SetDefaultGOMAXPROCS
	SetFinalizer            = real.SetFinalizer
	SetMutexProfileFraction = real.SetMutexProfileFraction
	Stack                   = real.Stack
	StartTrace              = real.StartTrace
	StopTrace               = real.StopTrace
	ThreadCreateProfile     = real.ThreadCreateProfile
	UnlockOSThread          = real.UnlockOSThread
	Version                 = real.Version
)
