package vos

import (
	"strconv"
	"syscall"
)

// Process stands for *os.Process.
type Process struct{ Pid int }

func (p *Process) Kill() error    { return nil }
func (p *Process) Release() error { return nil }

// ProcessState stands for *os.ProcessState.
type ProcessState struct{ code int }

func NewProcessState(code int) *ProcessState { return &ProcessState{code} }

func (p *ProcessState) ExitCode() int { return p.code }
func (p *ProcessState) Success() bool { return p.code == 0 }
func (p *ProcessState) Exited() bool  { return true }
func (p *ProcessState) Pid() int      { return 1000 }
func (p *ProcessState) Sys() any      { return syscall.WaitStatus(uint32(p.code) << 8) }
func (p *ProcessState) String() string {
	return "exit status " + strconv.Itoa(p.code)
}
