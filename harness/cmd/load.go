package cmd

import (
	"sort"
	"strconv"
	"strings"

	"github.com/metrumresearchgroup/pkgr/rcmd"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vruntime"
)

// verifLoads answers R expressions: outcome of each package's load, 0 loads, 1 fails, 2 is killed.
type verifLoads struct {
	outcome   map[string]int
	where     map[string]int // 0 found, 1 no output, 2 fails
	attempted []string
	dirs      map[string]bool
}

func (l *verifLoads) expr(c *vexec.Cmd) string {
	for i, a := range c.Args {
		if a == "-e" && i+1 < len(c.Args) {
			return c.Args[i+1]
		}
	}
	return ""
}

func (l *verifLoads) use() {
	l.dirs = map[string]bool{}
	vexec.Handler = func(c *vexec.Cmd) vexec.Result {
		e := l.expr(c)
		if e == "" {
			return vr.Handle(c)
		}
		l.dirs[c.Dir] = true
		if e == ".libPaths()" {
			return vexec.Result{Stdout: "[1] \"/lib\"\n"}
		}
		q := strings.Split(e, "'")
		if len(q) < 2 {
			return vexec.Result{Exit: 1, Stderr: "syntax"}
		}
		p := q[1]
		if strings.HasPrefix(e, "library(") {
			l.attempted = append(l.attempted, p)
			switch l.outcome[p] {
			case 0:
				return vexec.Result{Stdout: "hello from " + p + "\n"}
			case 1:
				return vexec.Result{Exit: 1, Stderr: "Error in library(" + p + ")\n"}
			case 2:
				return vexec.Result{Exit: 139, Stderr: "", Stdout: "crash " + p}
			}
		}
		switch l.where[p] {
		case 1:
			return vexec.Result{}
		case 2:
			return vexec.Result{Exit: 1, Stderr: "none"}
		}
		return vexec.Result{Stdout: "[1] \"/lib/" + p + "\"\n[1] \"2.0\"\n"}
	}
}

// verifReport is the JSON report expected for the loads of some packages.
func (l *verifLoads) report(pkgs []string) string {
	sort.Strings(pkgs)
	s := "{\n    \"RMetadata\": {\n        \"LibPaths\": [\n            \"/lib\"\n        ],\n        \"RPath\": \"R\",\n        \"RVersion\": \"" +
		vr.Version + "\"\n    },\n    \"LoadResults\": {"
	failures := 0
	for i, p := range pkgs {
		if i > 0 {
			s += ","
		}
		exit, out, err, ok := "", "hello from "+p, "", "true"
		switch l.outcome[p] {
		case 1:
			exit, out, err, ok = "exit status 1", "", "Error in library("+p+")", "false"
			failures++
		case 2:
			exit, out, err, ok = "exit status 139", "crash "+p, "", "false"
			failures++
		}
		ver, path := "2.0", "/lib/"+p
		if l.where[p] != 0 {
			ver, path = "could not retrieve", "could not retrieve"
		}
		s += "\n        \"" + p + "\": {"
		for k, f := range []string{"Package", p, "Version", ver, "Path", path, "Exiterr", exit, "Stdout", out, "Stderr", err} {
			if k%2 == 0 {
				s += "\n            \"" + f + "\": "
			} else {
				s += "\"" + f + "\","
			}
		}
		s += "\n            \"Success\": " + ok + "\n        }"
	}
	if len(pkgs) > 0 {
		s += "\n    "
	}
	return s + "},\n    \"Failures\": " + strconv.Itoa(failures) + "\n}\n"
}

// Verif_Load: every outcome of every package, every thread count and completion order.
//
//verif:id C28
//verif:q _time=200 pre=1
//verif:t _time=700 pre=2
//verif:reach all some zero
func Verif_Load() {
	verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", ""},
		verifPkg{"c", "2.0", ""})
	l := &verifLoads{outcome: map[string]int{}, where: map[string]int{}}
	l.use()
	vruntime.Cores = 1 + sym.Choice("cores", 2)
	cfg.Threads = sym.Choice("threads", 3)
	if cfg.Threads == 0 {
		sym.Reach("zero")
	}
	cfg.Packages = []string{"a", "c"}
	want := []string{"a", "c"}
	all := sym.Choice("all", 2) == 1
	if all {
		sym.Reach("all")
		want = []string{"a", "b", "c"}
	} else {
		sym.Reach("some")
	}
	for _, p := range want {
		l.outcome[p] = sym.Choice("load "+p, 3)
	}
	rs := rcmd.NewRSettings("R")
	sym.Capture()
	vexec.Sched = true
	sym.Delays(sym.Param("pre", 1))
	out := sym.Run(func() { load(cfg.Packages, rs, "/work", cfg.Threads, all, true) })
	sym.Resume()
	vexec.Sched = false
	sym.Assert(out.Kind == "done", "the command ends")
	sort.Strings(l.attempted)
	sym.Assert(strings.Join(l.attempted, ",") == strings.Join(want, ","), "every selected package is loaded exactly once")
	sym.Assert(len(l.dirs) == 1 && l.dirs["/work"], "R runs in the configuration's directory")
	sym.Assert(strings.TrimSpace(sym.Output()) == strings.TrimSpace(l.report(want)), "the report holds the result of every package")
}

// Verif_LoadSelection: which packages are loaded, for every kind of configuration.
//
//verif:id C28
//verif:q _time=200
//verif:reach twice missing tarball
func Verif_LoadSelection() {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", ""},
		verifPkg{"c", "2.0", "Suggests: d\n"},
		verifPkg{"d", "2.0", ""})
	l := &verifLoads{outcome: map[string]int{}, where: map[string]int{}}
	l.use()
	sel := map[string]bool{}
	user := map[string]bool{}
	add := func(p string) {
		cfg.Packages = append(cfg.Packages, p)
		sel[p], user[p] = true, true
	}
	add("a")
	sel["b"] = true
	switch sym.Choice("second", 4) {
	case 1:
		sym.Reach("twice")
		add("a")
	case 2:
		add("b")
	case 3:
		sym.Reach("missing")
		add("x")
	}
	if sym.Choice("third", 2) == 1 {
		add("c")
		if cfg.Suggests = sym.Choice("suggests", 2) == 1; cfg.Suggests {
			sel["d"] = true
		}
	}
	switch sym.Choice("tarball", 3) {
	case 1:
		sym.Reach("tarball")
		w.addTarball("t", "1.0", "Imports: d\n")
		sel["t"], sel["d"] = true, true
	case 2:
		w.addTarball("b", "1.0", "")
	}
	all := sym.Choice("all", 2) == 1
	if sym.Choice("installed", 2) == 1 {
		vr.Installed(verifLib, "a", "2.0", "a")
	}
	if !all {
		sel = user
	}
	if user["x"] && all {
		// without a plan only the listed packages are known
		sel = user
	}
	var want []string
	for _, p := range []string{"a", "b", "c", "d", "t", "x"} {
		if sel[p] {
			want = append(want, p)
		}
	}
	failing := sym.Choice("failing", 2)
	for _, p := range want {
		l.outcome[p] = failing
		l.where[p] = sym.Choice("where", 3)
		if p != "a" {
			l.where[p] = 0
		}
	}
	vos.PutDir(verifLib)
	rs := rcmd.NewRSettings("R")
	sym.Capture()
	out := sym.Run(func() { load(cfg.Packages, rs, "/work", cfg.Threads, all, true) })
	sym.Resume()
	sym.Assert(out.Kind == "done", "the command ends")
	sort.Strings(l.attempted)
	sym.Assert(strings.Join(l.attempted, ",") == strings.Join(want, ","), "every selected package is loaded exactly once")
	sym.Assert(strings.TrimSpace(sym.Output()) == strings.TrimSpace(l.report(want)), "the report holds the result of every package")
}
