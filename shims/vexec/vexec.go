// Package vexec stands for os/exec: programs are run by the harness's Handler.
package vexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strconv"
	"syscall"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	os "github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// Result is what a program does.
type Result struct {
	Stdout, Stderr string
	Exit           int
	StartErr       error
	// Done is the effect of the program, which takes place when it ends.
	Done func()
}

var (
	// Handler runs a program; it may change the model's file system.
	Handler func(c *Cmd) Result
	// Calls lists the programs started.
	Calls []*Cmd
	// Running and MaxRunning count the programs alive at the same time.
	Running, MaxRunning int
	// Sched makes start and end scheduling points.
	Sched bool
)

// Reset forgets everything.
func Reset() {
	Handler = nil
	Calls = nil
	Running, MaxRunning = 0, 0
	Sched = false
}

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	started      bool
	res          Result
	outPipe      *bytes.Buffer
	errPipe      *bytes.Buffer
}

// ExitError reports an unsuccessful exit.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func LookPath(file string) (string, error) {
	if len(file) > 0 && file[0] == '/' {
		return file, nil
	}
	return "/usr/bin/" + file, nil
}

func (c *Cmd) String() string {
	s := ""
	for i, a := range c.Args {
		if i > 0 {
			s += " "
		}
		s += a
	}
	return s
}

func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return append([]string(nil), c.Env...)
	}
	return os.Environ()
}

func (c *Cmd) Start() error {
	sym.Gate()
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	if Sched {
		sym.Event("start " + c.label())
	}
	if c.Dir != "" {
		if fi, err := os.Stat(c.Dir); err != nil || !fi.IsDir() {
			if err == nil {
				err = syscall.ENOTDIR
			} else {
				err = syscall.ENOENT
			}
			return &os.PathError{Op: "chdir", Path: c.Dir, Err: err}
		}
	}
	sym.Lock()
	Calls = append(Calls, c)
	Running++
	if Running > MaxRunning {
		MaxRunning = Running
	}
	sym.Unlock()
	if Handler != nil {
		c.res = Handler(c)
	}
	if c.res.StartErr != nil {
		sym.Lock()
		Running--
		sym.Unlock()
		return c.res.StartErr
	}
	if c.outPipe != nil {
		c.outPipe.WriteString(c.res.Stdout)
	}
	if c.errPipe != nil {
		c.errPipe.WriteString(c.res.Stderr)
	}
	c.Process = &os.Process{Pid: 1000 + len(Calls)}
	return nil
}

// Label names a program in schedules.
var Label func(c *Cmd) string

func (c *Cmd) label() string {
	if Label != nil {
		return Label(c)
	}
	return c.Path
}

func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if Sched {
		sym.Event("end " + c.label())
	} else {
		sym.Yield()
	}
	sym.Gate()
	if c.res.Done != nil {
		c.res.Done()
	}
	sym.Lock()
	Running--
	sym.Unlock()
	if c.Stdout != nil && c.res.Stdout != "" {
		if _, err := c.Stdout.Write([]byte(c.res.Stdout)); err != nil {
			return err
		}
	}
	if c.Stderr != nil && c.res.Stderr != "" {
		if _, err := c.Stderr.Write([]byte(c.res.Stderr)); err != nil {
			return err
		}
	}
	c.ProcessState = os.NewProcessState(c.res.Exit)
	if c.res.Exit != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return &input{}, nil }

type input struct{ bytes.Buffer }

func (*input) Close() error { return nil }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	c.outPipe = &bytes.Buffer{}
	return io.NopCloser(c.outPipe), nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	c.errPipe = &bytes.Buffer{}
	return io.NopCloser(c.errPipe), nil
}

var _ = strconv.Itoa
