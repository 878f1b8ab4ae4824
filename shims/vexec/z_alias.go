// Code generated by gosym alias; the parts of os/exec the model leaves as they are.

package vexec

import real_ "os/exec"

type (
	Error = real_.Error
)

var (
	ErrDot       = real_.ErrDot
	ErrNotFound  = real_.ErrNotFound
	ErrWaitDelay = real_.ErrWaitDelay
)
