package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

var verbose = os.Getenv("VERIF_VERBOSE") != ""

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(24 << 30)
	args := os.Args[1:]
	repo, verif := env("VERIF_REPO", "/repo"), env("VERIF_DIR", "/verif")
	if len(args) >= 2 && args[0] == "replay" {
		os.Exit(replayMain(repo, verif, args[1:]))
	}
	if len(args) >= 2 && args[0] == "alias" {
		os.Exit(aliasMain(verif, args[1:]))
	}
	if len(args) >= 1 && args[0] == "list" {
		work, _ := os.MkdirTemp("", "gosym")
		defer os.RemoveAll(work)
		p, err := newPrep(repo, verif, work)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		for _, h := range p.harness {
			fmt.Println(strings.Join(h.Props, ","), h.Name, h.Pkg, h.Quick, h.Thor)
		}
		return
	}
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym PROPERTY quick|thorough [harness regexp]")
		os.Exit(3)
	}
	only := ""
	if len(args) > 2 {
		only = args[2]
	}
	os.Exit(checkMain(repo, verif, args[0], args[1], only))
}

type harnessReport struct {
	Harness    string           `json:"harness"`
	Package    string           `json:"package"`
	About      string           `json:"about,omitempty"`
	Bounds     map[string]int   `json:"bounds"`
	Paths      int64            `json:"paths"`
	Ends       map[string]int64 `json:"path_ends"`
	Instrs     int64            `json:"ssa_instructions"`
	Decisions  int64            `json:"decisions"`
	Assertions map[string]int64 `json:"assertions_checked"`
	Reached    map[string]int64 `json:"reached,omitempty"`
	Queries    int64            `json:"solver_queries"`
	Cached     int64            `json:"answered_from_cache"`
	Unsat      int64            `json:"unsat"`
	Sat        int64            `json:"sat"`
	SolverS    float64          `json:"solver_s"`
	WallS      float64          `json:"wall_s"`
	Goroutines int              `json:"max_goroutines"`
	Reduced    map[string]int64 `json:"reduced_bound,omitempty"`
	Validated  int              `json:"native_runs_agreeing"`
	Exhaustive bool             `json:"all_paths_within_bounds_explored"`
}

type knownFinding struct {
	prop, re string
	text     string
}

// known findings: lines "known: property=ID match=REGEXP text"
func loadKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) match=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

func checkMain(repo, verif, prop, tier, only string) int {
	t0 := time.Now()
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	defer os.RemoveAll(work)
	p, err := newPrep(repo, verif, work)
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	var hs []*Harness
	for _, h := range p.harness {
		for _, q := range h.Props {
			if q == prop {
				if only == "" || regexp.MustCompile(only).MatchString(h.Name) {
					hs = append(hs, h)
				}
				break
			}
		}
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", prop)
		return 3
	}
	var rp *Replayer
	var rpErr error
	if err := p.load(hs); err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	var rwg sync.WaitGroup
	rwg.Add(1)
	go func() {
		defer rwg.Done()
		rp, rpErr = p.buildReplay(hs)
	}()
	tLoad := time.Since(t0)
	if p.prog == nil {
		// nothing compiles against this tree any more
		writeEvidence(verif, prop, tier, nil, nil, p, map[string]any{"note": "no harness compiles against this tree"}, time.Since(t0), 0)
		fmt.Printf("CHECK property=%s REDUCED BOUND: %s\n", prop, strings.Join(p.dropped, "; "))
		return 0
	}
	e := newEngine(p.prog)
	e.modPath = modPath
	std := map[string]bool{}
	e.perPath = func(path string) bool {
		// standard library packages (no dot in the first element) are initialised once per worker
		i := strings.IndexByte(path, '/')
		first := path
		if i > 0 {
			first = path[:i]
		}
		_ = std
		return strings.Contains(first, ".")
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var reports []*harnessReport
	var runs []*Run
	budget := 0
	for _, h := range hs {
		if h.skipped != "" {
			continue
		}
		params := h.Quick
		if tier == "thorough" {
			params = map[string]int{}
			for k, v := range h.Quick {
				params[k] = v
			}
			for k, v := range h.Thor {
				params[k] = v
			}
		}
		secs := 60
		if tier == "thorough" {
			secs = 400
		}
		if v, ok := params["_time"]; ok {
			secs = v
		}
		budget += secs
		if left := exploreLimit - time.Since(t0); time.Duration(secs)*time.Second > left {
			secs = int(left / time.Second)
		}
		steps := 30_000_000
		if v, ok := params["_steps"]; ok {
			steps = v
		}
		pkg := e.pkgs[h.Pkg]
		if pkg == nil || pkg.Func(h.Name) == nil {
			p.dropped = append(p.dropped, h.Name+" not found")
			continue
		}
		r := &Run{e: e, harness: e.fn(pkg.Func(h.Name)), params: params, shared: newSolverShared(), deadline: time.Now().Add(time.Duration(secs) * time.Second),
			maxSteps: steps, maxPaths: params["_paths"], cmdInit: params["_init"] == 1, maxViol: 3, asserts: map[string]int64{}, covers: map[string]int64{}, ends: map[string]int64{}, reduced: map[string]int64{}, violKeys: map[string]int{}}
		if verbose {
			r.forkSites = map[string]int64{}
		}
		ht := time.Now()
		r.explore(nw)
		rep := &harnessReport{Harness: h.Name, Package: h.Pkg, About: h.Doc, Bounds: params, Paths: r.paths, Ends: r.ends, Instrs: r.steps, Decisions: r.decisions,
			Assertions: r.asserts, Reached: r.covers, Queries: r.shared.Queries.Load(), Cached: r.shared.Hits.Load(), Unsat: r.shared.NUnsat.Load(), Sat: r.shared.NSat.Load(),
			SolverS: float64(r.shared.TimeNS.Load()) / 1e9, WallS: time.Since(ht).Seconds(), Goroutines: r.nGoroutines, Reduced: r.reduced}
		for _, l := range h.Reach {
			if r.covers[l] == 0 {
				r.reduced["expected place never reached: "+l]++
			}
		}
		rep.Exhaustive = len(r.reduced) == 0
		reports = append(reports, rep)
		runs = append(runs, r)
		if verbose {
			printRun(h, r, rep)
		}
	}
	rwg.Wait()
	if rpErr != nil {
		fmt.Println("ERROR", rpErr)
		return 3
	}
	tExplore := time.Since(t0)
	known := loadKnown(verif)
	confirmed, status := 0, 0
	validated := 0
	printed := map[string]bool{}
	for i, r := range runs {
		h := hByName(hs, reports[i].Harness)
		// violations: replay on the real code
		for _, v := range r.viols {
			in := ReplayInput{Harness: h.Name, Inputs: v.Inputs, Params: r.params, Events: v.Obs}
			n := 30
			ok := false
			var last ReplayResult
			for k := 0; k < n && !ok; k++ {
				last = rp.run(h.Name, in, 20*time.Second)
				ok = v.reproducedBy(last)
				if !ok && r.nGoroutines <= 1 && k >= 12 {
					break
				}
				if last.End == "TIMEOUT" && k >= 2 || time.Since(t0) > replayLimit {
					break
				}
			}
			if !ok {
				r.reduced[fmt.Sprintf("counterexample to %s did not reproduce natively (%s)", v.Label, trunc(last.End, 120))]++
				reports[i].Exhaustive = false
				if verbose {
					fmt.Printf("NOT REPRODUCED %s %s: %s\n inputs %v\n events %v\n native: %s\n", v.Harness, v.Label, v.Msg, describe(v), v.Obs, trunc(last.Raw, 3000))
				}
				continue
			}
			id := v.Harness + "|" + v.Label + "|" + v.Msg
			kf := ""
			for _, k := range known {
				if k.prop == prop {
					if m, err := regexp.MatchString(k.re, id); err == nil && m {
						kf = k.text
					}
				}
			}
			if kf != "" {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, kf)
				if !printed[line] {
					printed[line] = true
					fmt.Println(line)
				}
				continue
			}
			confirmed++
			status = 1
			path := saveReplay(verif, prop, h, v, in)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s: %s %s: %s\n  inputs: %s\n  native: %s\n", v.Harness, v.Kind, v.Label, trunc(v.Msg, 400), trunc(describe(v), 1500), trunc(last.End, 300))
		}
		// translation validation: passing samples must behave the same natively
		sm := r.samples
		limit := 24
		if tier == "thorough" {
			limit = 100
		}
		if len(sm) > limit {
			step := len(sm) / limit
			var t []*Sample
			for k := 0; k < len(sm) && len(t) < limit; k += step {
				t = append(t, sm[k])
			}
			sm = t
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		mism := 0
		for _, s := range sm {
			s := s
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				res := rp.run(h.Name, ReplayInput{Inputs: s.Inputs, Params: r.params}, 20*time.Second)
				good := res.End == "END" && (strings.Join(res.Obs, "\n") == strings.Join(s.Obs, "\n") || r.nGoroutines > 1)
				mu.Lock()
				defer mu.Unlock()
				if good {
					validated++
					reports[i].Validated++
				} else {
					mism++
					if verbose {
						fmt.Printf("SAMPLE MISMATCH %s: inputs %v\n native end %s obs %v\n sym obs %v\n", h.Name, s.Inputs, trunc(res.End, 300), res.Obs, s.Obs)
						fmt.Println(trunc(res.Raw, 1500))
					}
				}
			}()
		}
		wg.Wait()
		if mism > 0 {
			r.reduced[fmt.Sprintf("%d of %d sampled paths behaved differently natively", mism, len(sm))]++
			reports[i].Exhaustive = false
		}
	}
	// second solver on a sample of the queries
	cross := map[string]any{}
	chk, dis := 0, 0
	for _, r := range runs {
		c, d := r.shared.crossCheck([]string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=5000"}, 8*time.Second)
		chk += c
		dis += d
	}
	cross["solver"] = "cvc5"
	cross["queries_rechecked"] = chk
	cross["disagreements"] = dis
	extra := map[string]any{"cross_check": cross, "load_s": tLoad.Seconds(), "explore_s": tExplore.Seconds()}
	writeEvidence(verif, prop, tier, reports, e, p, extra, time.Since(t0), confirmed)
	var red []string
	for i, r := range runs {
		for k := range r.reduced {
			red = append(red, reports[i].Harness+": "+firstLine(k))
		}
	}
	red = append(red, p.dropped...)
	sort.Strings(red)
	var paths, q int64
	for _, r := range reports {
		paths += r.Paths
		q += r.Queries
	}
	res := "PASS"
	if status != 0 {
		res = "FAIL"
	}
	fmt.Printf("CHECK property=%s tier=%s %s: %d harnesses, %d paths, %d solver queries, %d native runs agreeing, %.1fs\n", prop, tier, res, len(reports), paths, q, validated, time.Since(t0).Seconds())
	for _, s := range red {
		fmt.Println("REDUCED-BOUND", trunc(s, 600))
	}
	return status
}

func hByName(hs []*Harness, n string) *Harness {
	for _, h := range hs {
		if h.Name == n {
			return h
		}
	}
	return nil
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

// a check has 900 seconds
const (
	exploreLimit = 720 * time.Second
	replayLimit  = 840 * time.Second
)

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func printRun(h *Harness, r *Run, rep *harnessReport) {
	fmt.Printf("--- %s: paths %d ends %v instrs %d queries %d (cache %d) solver %.1fs wall %.1fs\n", h.Name, r.paths, r.ends, r.steps, rep.Queries, rep.Cached, rep.SolverS, rep.WallS)
	fmt.Printf("    asserts %v\n    reached %v\n", r.asserts, r.covers)
	for k, v := range r.reduced {
		fmt.Printf("    REDUCED x%d %s\n", v, trunc(k, 2500))
	}
	type fs struct {
		n string
		c int64
	}
	var l []fs
	for k, v := range r.forkSites {
		l = append(l, fs{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].c > l[j].c })
	for i, x := range l {
		if i >= 12 {
			break
		}
		fmt.Printf("    forks %6d %s\n", x.c, x.n)
	}
	for _, v := range r.viols {
		fmt.Printf("    VIOL %s %s: %s\n      %s\n      events %v\n", v.Kind, v.Label, v.Msg, describe(v), v.Obs)
	}
}

// describe renders the inputs of a counterexample, strings put together.
func describe(v *Violation) string {
	type si struct {
		idx int
		b   byte
	}
	strsM := map[string][]si{}
	var parts []string
	re := regexp.MustCompile(`^(.*)\.(\d+)(#\d+)?$`)
	for _, n := range v.Order {
		x := v.Inputs[n]
		if m := re.FindStringSubmatch(n); m != nil {
			i, _ := strconv.Atoi(m[2])
			k := m[1] + m[3]
			strsM[k] = append(strsM[k], si{i, byte(x)})
			continue
		}
		parts = append(parts, fmt.Sprintf("%s=%d", n, int64(x)))
	}
	var ks []string
	for k := range strsM {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := strsM[k]
		sort.Slice(s, func(i, j int) bool { return s[i].idx < s[j].idx })
		var b []byte
		for _, x := range s {
			b = append(b, x.b)
		}
		parts = append(parts, fmt.Sprintf("%s=%q", k, b))
	}
	return strings.Join(parts, " ")
}

func saveReplay(verif, prop string, h *Harness, v *Violation, in ReplayInput) string {
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "violation": v, "input": in, "readable": describe(v)}, "", " ")
	sum := sha1.Sum(b)
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", prop, h.Name, hex.EncodeToString(sum[:4])))
	os.WriteFile(f, b, 0o644)
	return f
}

func replayMain(repo, verif string, args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var x struct {
		Violation Violation
		Input     ReplayInput
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Println(err)
		return 3
	}
	work, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(work)
	p, err := newPrep(repo, verif, work)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	h := hByName(p.harness, x.Input.Harness)
	if h == nil {
		fmt.Println("no such harness", x.Input.Harness)
		return 3
	}
	rp, err := p.buildReplay([]*Harness{h})
	if err != nil {
		fmt.Println(err)
		return 3
	}
	for k := 0; k < 30; k++ {
		r := rp.run(h.Name, x.Input, 20*time.Second)
		if x.Violation.reproducedBy(r) {
			fmt.Println(r.Raw)
			fmt.Println("reproduced:", r.End)
			return 1
		}
		if k == 0 {
			fmt.Println(r.Raw)
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func writeEvidence(verif, prop, tier string, reps []*harnessReport, e *Engine, p *Prep, extra map[string]any, wall time.Duration, viol int) {
	var states, trans, valid int64
	var samples []any
	exhaustive := len(reps) > 0
	for _, r := range reps {
		states += r.Paths
		trans += r.Decisions
		valid += int64(r.Validated)
		if !r.Exhaustive {
			exhaustive = false
		}
		samples = append(samples, map[string]any{"harness": r.Harness, "paths": r.Paths, "assertions": r.Assertions, "bounds": r.Bounds})
	}
	if len(p.dropped) > 0 {
		exhaustive = false
	}
	var fns []string
	if e != nil {
		e.covered.Range(func(k, v any) bool {
			fns = append(fns, strings.ReplaceAll(k.(string), modPath+"/", ""))
			return true
		})
	}
	sort.Strings(fns)
	if samples == nil {
		samples = []any{"none"}
	}
	cov := map[string]any{
		"states":                           states,
		"transitions":                      trans,
		"traces_validated_against_impl":    valid,
		"samples":                          samples,
		"harnesses":                        reps,
		"functions_encoded":                fns,
		"functions_encoded_count":          len(fns),
		"dropped_harnesses":                p.dropped,
		"source_files_read":                p.srcFiles,
		"all_paths_within_bounds_explored": exhaustive,
		"what_the_counts_mean":             "states: symbolic paths, each standing for every input that follows it; transitions: symbolic decisions taken along them; traces_validated_against_impl: paths whose solver model was executed natively with the same outcome",
	}
	for k, v := range extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"bounds of each harness as listed; nothing is claimed outside them",
			"the operating system, processes, HTTP, clock, logging and gob are replaced by the models in /verif/shims (same models in the native replay)",
			"the Go to SMT encoding of /verif/engine, checked per run against native executions of sampled paths",
			"z3 4.8.12 decides the queries; a sample is re-decided by cvc5"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}
