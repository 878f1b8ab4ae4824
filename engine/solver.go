package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type qres struct {
	sat  Sat
	vals []uint64
}

// SolverStats and cache are shared by all workers of a run.
type SolverShared struct {
	mu       sync.Mutex
	cache    map[string]qres
	Queries  atomic.Int64 // queries put to the solver
	Hits     atomic.Int64 // answered from the cache of earlier solver answers
	NSat     atomic.Int64
	NUnsat   atomic.Int64
	NUnknown atomic.Int64
	TimeNS   atomic.Int64
	keep     []string // sample of (query,answer) for cross checking
	keepRes  []Sat
}

func newSolverShared() *SolverShared { return &SolverShared{cache: map[string]qres{}} }

type Solver struct {
	sh   *SolverShared
	bin  []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	tmo  int
	dead bool
}

func newSolver(sh *SolverShared, bin ...string) *Solver {
	return &Solver{sh: sh, bin: bin, tmo: 10000}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReader(out)
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmo)
	}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// raw runs one self-contained query (declarations + assertions).
func (s *Solver) raw(text string, nvars int) qres {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return qres{sat: Unknown}
		}
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.stop()
		return qres{sat: Unknown}
	}
	l, err := s.line()
	if err != nil {
		s.stop()
		return qres{sat: Unknown}
	}
	r := qres{sat: Unknown}
	switch l {
	case "sat":
		r.sat = SatYes
		if nvars > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for i := 0; i < nvars; i++ {
				fmt.Fprintf(&sb, "v%d ", i)
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			// read balanced parens
			depth, started := 0, false
			var ans strings.Builder
			for !started || depth > 0 {
				l, err := s.out.ReadString('\n')
				if err != nil {
					s.stop()
					return qres{sat: Unknown}
				}
				for _, ch := range l {
					if ch == '(' {
						depth++
						started = true
					} else if ch == ')' {
						depth--
					}
				}
				ans.WriteString(l)
			}
			r.vals = parseValues(ans.String(), nvars)
			if r.vals == nil {
				r.sat = Unknown
			}
		}
	case "unsat":
		r.sat = Unsat
	default:
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(stderr, "solver error:", l, "\n", text)
			s.stop()
			return r
		}
	}
	if s.cmd != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return r
}

func parseValues(s string, n int) []uint64 {
	vals := make([]uint64, n)
	got := 0
	// tokens: ((v0 #x00) (v1 true) ...)
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	f := strings.Fields(s)
	for i := 0; i < len(f); i++ {
		if len(f[i]) > 1 && f[i][0] == 'v' {
			idx, err := strconv.Atoi(f[i][1:])
			if err != nil || idx >= n || i+1 >= len(f) {
				continue
			}
			v := f[i+1]
			var x uint64
			switch {
			case v == "true":
				x = 1
			case v == "false":
				x = 0
			case strings.HasPrefix(v, "#x"):
				x, err = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				x, err = strconv.ParseUint(v[2:], 2, 64)
			case v == "(" && i+3 < len(f) && f[i+2] == "_":
				x, err = strconv.ParseUint(strings.TrimPrefix(f[i+3], "bv"), 10, 64)
			default:
				return nil
			}
			if err != nil {
				return nil
			}
			vals[idx] = x
			got++
		}
	}
	if got < n {
		return nil
	}
	return vals
}

// check decides the conjunction of the given boolean terms.
func (s *Solver) check(cons []*Term) (Sat, map[int]uint64) {
	p := newPrinter()
	var as strings.Builder
	for _, c := range cons {
		r := p.ref(c)
		fmt.Fprintf(&as, "(assert %s)\n", r)
	}
	text := p.sb.String() + as.String()
	s.sh.mu.Lock()
	r, ok := s.sh.cache[text]
	s.sh.mu.Unlock()
	if ok {
		s.sh.Hits.Add(1)
	} else {
		t := time.Now()
		r = s.raw(text, len(p.decl))
		s.sh.TimeNS.Add(int64(time.Since(t)))
		n := s.sh.Queries.Add(1)
		switch r.sat {
		case SatYes:
			s.sh.NSat.Add(1)
		case Unsat:
			s.sh.NUnsat.Add(1)
		default:
			s.sh.NUnknown.Add(1)
		}
		s.sh.mu.Lock()
		if r.sat != Unknown {
			s.sh.cache[text] = r
		}
		if n%7 == 0 && len(s.sh.keep) < 300 {
			s.sh.keep = append(s.sh.keep, text)
			s.sh.keepRes = append(s.sh.keepRes, r.sat)
		}
		s.sh.mu.Unlock()
	}
	if r.sat != SatYes {
		return r.sat, nil
	}
	m := make(map[int]uint64, len(p.decl))
	for i, v := range p.decl {
		m[v.vidx] = r.vals[i]
	}
	return SatYes, m
}

// crossCheck re-decides a sample of the run's queries with another solver.
func (sh *SolverShared) crossCheck(bin []string, limit time.Duration) (checked, disagree int) {
	o := newSolver(sh, bin...)
	defer o.stop()
	end := time.Now().Add(limit)
	for i, q := range sh.keep {
		if time.Now().After(end) {
			break
		}
		r := o.raw(q, 0)
		if r.sat == Unknown || sh.keepRes[i] == Unknown {
			continue
		}
		checked++
		if r.sat != sh.keepRes[i] {
			disagree++
			fmt.Fprintf(stderr, "SOLVER DISAGREEMENT (%v vs %v):\n%s\n", r.sat, sh.keepRes[i], q)
		}
	}
	return
}
