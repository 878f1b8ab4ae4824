package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Replayer builds the harnesses natively against the real code (same overlay) and runs them on solver models.
type Replayer struct {
	bin string
	dir string
	n   int
	mu  sync.Mutex
}

func (p *Prep) buildReplay(hs []*Harness) (*Replayer, error) {
	pk := map[string]string{}
	var list []string
	for _, h := range hs {
		if h.skipped == "" && pk[h.Pkg] == "" {
			pk[h.Pkg] = fmt.Sprintf("p%d", len(pk))
			list = append(list, h.Pkg)
		}
	}
	sort.Strings(list)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"" + shimBase + "sym\"\n")
	for _, l := range list {
		fmt.Fprintf(&sb, "\t%s %q\n", pk[l], l)
	}
	sb.WriteString(")\n\nfunc main() {\n\tswitch os.Args[1] {\n")
	for _, h := range hs {
		if h.skipped == "" {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\tsym.Main(%s.%s)\n", h.Name, pk[h.Pkg], h.Name)
		}
	}
	sb.WriteString("\t}\n}\n")
	mf := filepath.Join(p.work, "replay_main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	ov, err := p.writeOverlayJSON(map[string]string{filepath.Join(p.repo, "verifsym", "replaymain", "main.go"): mf})
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(p.work, "replay.bin")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./verifsym/replaymain")
	cmd.Dir = p.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the native replay: %v\n%s", err, out)
	}
	dir := filepath.Join(p.work, "replay")
	os.MkdirAll(dir, 0o755)
	return &Replayer{bin: bin, dir: dir}, nil
}

type ReplayInput struct {
	Harness string            `json:"harness,omitempty"`
	Inputs  map[string]uint64 `json:"inputs"`
	Params  map[string]int    `json:"params"`
	Events  []string          `json:"events,omitempty"`
}

type ReplayResult struct {
	End string
	Obs []string
	Raw string
}

func (r *Replayer) run(h string, in ReplayInput, timeout time.Duration) ReplayResult {
	r.mu.Lock()
	r.n++
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.json", r.n))
	r.mu.Unlock()
	b, _ := json.Marshal(in)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, h)
	cmd.Dir = r.dir
	cmd.Env = []string{"VERIF_INPUT=" + f, "HOME=" + r.dir, "PATH=/nonexistent", "TMPDIR=" + r.dir, "GOTRACEBACK=all"}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	err := cmd.Run()
	res := ReplayResult{}
	for _, l := range strings.Split(out.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			res.Obs = append(res.Obs, l[4:])
		case l == "END", strings.HasPrefix(l, "ASSERT-FAIL"), strings.HasPrefix(l, "ASSUME-FAIL"), strings.HasPrefix(l, "PANIC"), strings.HasPrefix(l, "REPLAY-ERROR"), strings.HasPrefix(l, "EXIT-OUTSIDE"), strings.HasPrefix(l, "CRASH-OUTSIDE"):
			if res.End == "" {
				res.End = l
			}
		}
	}
	if ctx.Err() != nil {
		res.End = "TIMEOUT"
	} else if res.End == "" {
		es := er.String()
		if strings.Contains(es, "panic:") || strings.Contains(es, "fatal error:") {
			i := strings.Index(es, "panic:")
			if i < 0 {
				i = strings.Index(es, "fatal error:")
			}
			if strings.Contains(es, "all goroutines are asleep") {
				res.End = "DEADLOCK"
			} else {
				res.End = "PANIC " + strings.SplitN(es[i:], "\n", 2)[0]
			}
		} else {
			res.End = fmt.Sprintf("NO-END %v", err)
		}
	}
	res.Raw = out.String() + er.String()
	return res
}

// reproduces says whether a native run shows the violation.
func (v *Violation) reproducedBy(r ReplayResult) bool {
	switch v.Kind {
	case "assert":
		return r.End == "ASSERT-FAIL "+v.Label || v.Panicked && strings.HasPrefix(r.End, "PANIC")
	case "panic":
		return strings.HasPrefix(r.End, "PANIC") || strings.HasPrefix(r.End, "EXIT-OUTSIDE")
	case "deadlock":
		return r.End == "TIMEOUT" || r.End == "DEADLOCK"
	}
	return false
}
