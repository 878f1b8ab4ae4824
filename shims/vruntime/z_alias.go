// Code generated by gosym alias; the parts of runtime the model leaves as they are.

package vruntime

import real_ "runtime"

type (
	BlockProfileRecord = real_.BlockProfileRecord
	Cleanup            = real_.Cleanup
	Error              = real_.Error
	Frame              = real_.Frame
	Frames             = real_.Frames
	Func               = real_.Func
	MemProfileRecord   = real_.MemProfileRecord
	MemStats           = real_.MemStats
	PanicNilError      = real_.PanicNilError
	Pinner             = real_.Pinner
	StackRecord        = real_.StackRecord
	TypeAssertionError = real_.TypeAssertionError
)

var (
	BlockProfile            = real_.BlockProfile
	Breakpoint              = real_.Breakpoint
	CPUProfile              = real_.CPUProfile
	Caller                  = real_.Caller
	Callers                 = real_.Callers
	CallersFrames           = real_.CallersFrames
	FuncForPC               = real_.FuncForPC
	GC                      = real_.GC
	GOROOT                  = real_.GOROOT
	Goexit                  = real_.Goexit
	GoroutineProfile        = real_.GoroutineProfile
	Gosched                 = real_.Gosched
	KeepAlive               = real_.KeepAlive
	LockOSThread            = real_.LockOSThread
	MemProfile              = real_.MemProfile
	MemProfileRate          = real_.MemProfileRate
	MutexProfile            = real_.MutexProfile
	NumCgoCall              = real_.NumCgoCall
	NumGoroutine            = real_.NumGoroutine
	ReadMemStats            = real_.ReadMemStats
	ReadTrace               = real_.ReadTrace
	SetBlockProfileRate     = real_.SetBlockProfileRate
	SetCPUProfileRate       = real_.SetCPUProfileRate
	SetCgoTraceback         = real_.SetCgoTraceback
	SetFinalizer            = real_.SetFinalizer
	SetMutexProfileFraction = real_.SetMutexProfileFraction
	Stack                   = real_.Stack
	StartTrace              = real_.StartTrace
	StopTrace               = real_.StopTrace
	ThreadCreateProfile     = real_.ThreadCreateProfile
	UnlockOSThread          = real_.UnlockOSThread
	Version                 = real_.Version
)
