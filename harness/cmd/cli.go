package cmd

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	log "github.com/metrumresearchgroup/pkgr/verifsym/vlog"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// verifCli is a machine on which command lines are run.
type verifCli struct {
	*verifWorld
	text string
	out  bytes.Buffer // what cobra writes
}

func verifCommandLine() *verifCli {
	c := &verifCli{}
	c.verifWorld = verifMachine(
		verifPkg{"aa", "2.0", ""},
		verifPkg{"bb", "2.0", "Imports: aa\n"},
		verifPkg{"cc", "2.0", ""},
		verifPkg{"dd", "2.0", "Imports: aa\n"})
	full.Use()
	cfg = configlib.PkgrConfig{}
	vr.Installed(verifLib, "aa", "1.0", "old")
	c.text = "Version: 1\nRepos:\n  - R: " + verifURL + "\nLibrary: /lib\nCache: /cache\nRPath: R\nThreads: 1\nPackages:\n  - aa\n  - bb\n"
	return c
}

// run executes a command line.
func (c *verifCli) run(args ...string) sym.Outcome {
	if !vos.Has("/work/pkgr.yml") || vos.Cat("/work/pkgr.yml") == "Version: 1\n" {
		vos.Put("/work/pkgr.yml", c.text)
	}
	RootCmd.SetOut(&c.out)
	RootCmd.SetErr(&c.out)
	RootCmd.SetArgs(args)
	out := sym.Run(Execute)
	sym.Resume()
	return out
}

func verifVersion(lib, pkg string) string {
	t := vos.Cat(lib + "/" + pkg + "/DESCRIPTION")
	i := strings.Index(t, "Version: ")
	if i < 0 {
		return ""
	}
	t = t[i+9:]
	if i := strings.Index(t, "\n"); i >= 0 {
		t = t[:i]
	}
	return t
}

// Verif_CommandLineOptions: every option of every installing command, in every form and position.
//
//verif:id C45
//verif:q _time=200 _init=1
//verif:t _time=500 _init=1
//verif:reach before after off library noupdate update norollback nosecure strict threads level json config debug none
func Verif_CommandLineOptions() {
	c := verifCommandLine()
	opt := sym.Choice("option", 12)
	name, value := "", ""
	boolean := false
	n := sym.Str("name", 1, 2, "ab-=.")
	switch opt {
	case 0:
		name, value = "library", "/other"+n
	case 1:
		name, boolean = "no-update", true
	case 2:
		name, boolean = "update", true
		c.text += "NoUpdate: true\n"
	case 3:
		name, boolean = "no-rollback", true
		vr.Fault["bb"] = vr.NoStart
	case 4:
		name, boolean = "no-secure", true
	case 5:
		name, boolean = "strict", true
		c.text = strings.Replace(c.text, "/lib\n", "/new\n", 1)
	case 6:
		name, value = "threads", []string{"1", "2", "7", "16"}[sym.Choice("count", 4)]
	case 7:
		name = "loglevel"
		value = sym.Pick("level", "trace", "debug", "info", "warn", "error", "fatal", "panic")
	case 8:
		name, boolean = "logjson", true
	case 9:
		name, value = "config", "/place/c"+n+".yml"
		vos.Put(value, strings.Replace(c.text, "/lib\n", "/placed\n", 1))
	case 10:
		name, boolean = "debug", true
	case 11:
		sym.Reach("none")
	}
	var option []string
	on := true
	if name != "" {
		switch form := sym.Choice("form", 3); {
		case boolean && form == 0:
			option = []string{"--" + name}
		case boolean && form == 1:
			option = []string{"--" + name + "=true"}
		case boolean:
			option = []string{"--" + name + "=false"}
			on = false
			sym.Reach("off")
		case form == 0:
			option = []string{"--" + name + "=" + value}
		case form == 1:
			option = []string{"--" + name, value}
		default:
			sym.Assume(false)
		}
	}
	var args []string
	add := sym.Choice("add", 2) == 1
	if add {
		c.text = strings.Replace(c.text, "  - bb\n", "", 1)
		if opt == 9 {
			vos.Put(value, strings.Replace(vos.Cat(value), "  - bb\n", "", 1))
		}
		args = []string{"add", "bb", "--install"}
	} else {
		args = []string{"install"}
	}
	if sym.Choice("position", 2) == 0 {
		args = append(option, args...)
		sym.Reach("before")
	} else {
		args = append(args, option...)
		sym.Reach("after")
	}
	vexec.Sched = opt == 6
	out := c.run(args...)
	vexec.Sched = false
	lib, aa, bb := "/lib", "2.0", "2.0"
	switch opt {
	case 0:
		lib = value
		sym.Assert(verifVersion("/lib", "aa") == "1.0" && verifVersion("/lib", "bb") == "", "the library of the configuration is left alone")
		sym.Reach("library")
	case 1:
		if on {
			aa = "1.0"
		}
		sym.Reach("noupdate")
	case 2:
		if !on {
			aa = "1.0"
		}
		sym.Reach("update")
	case 3:
		bb = ""
		if !on {
			aa = "1.0"
		}
		sym.Reach("norollback")
	case 4:
		sym.Assert((len(vhttp.Insecure) > 0) == on, "--no-secure decides whether servers are authenticated")
		sym.Reach("nosecure")
	case 5:
		lib = "/new"
		if on {
			sym.Assert(out.Kind == "exited" && out.Code != 0 || out.Kind == "panicked", "a missing library is refused with --strict")
			aa, bb = "", ""
		}
		sym.Reach("strict")
	case 6:
		sym.Assert(strconv.Itoa(cfg.Threads) == value, "--threads is the number of workers")
		sym.Reach("threads")
	case 7:
		for _, r := range log.Entries {
			sym.Assert(r.On == (r.Level.String() == value || verifSeverer(r.Level.String(), value)), "records of the chosen level and above are written")
		}
		sym.Reach("level")
	case 8:
		_, json := log.StandardLogger().Formatter.(*log.JSONFormatter)
		sym.Assert(json == on, "--logjson decides about the format of the records")
		sym.Reach("json")
	case 9:
		lib = "/placed"
		sym.Assert(verifVersion("/lib", "aa") == "1.0", "the library of the other configuration is left alone")
		sym.Reach("config")
	case 10:
		sym.Reach("debug")
	}
	sym.Assert(opt == 5 || out.Kind == "done", "the command ends")
	sym.Assert(verifVersion(lib, "aa") == aa, "the installed version follows from the command line")
	sym.Assert(verifVersion(lib, "bb") == bb, "the missing package is installed as the command line says")
	file := "/work/pkgr.yml"
	if opt == 9 {
		file = value
	}
	sym.Assert(strings.Contains(vos.Cat(file), "- bb\n"), "the package is in the configuration file")
	sym.Assert(!strings.Contains(vos.Cat("/work/pkgr.yml"), "- bb\n") == (add && opt == 9), "other files are left alone")
}

var verifLevels = []string{"panic", "fatal", "error", "warn", "info", "debug", "trace"}

func verifSeverer(a, b string) bool {
	if a == "warning" {
		a = "warn"
	}
	if b == "" {
		b = "info"
	}
	i, j := 0, 0
	for k, l := range verifLevels {
		if l == a {
			i = k
		}
		if l == b {
			j = k
		}
	}
	return i <= j
}

// verifShuffled is a command line with an option in front of the command, after it or at the end.
func verifShuffled(command, options, args []string) []string {
	var l []string
	switch sym.Choice("order", 3) {
	case 0:
		l = append(append(append(l, command...), options...), args...)
	case 1:
		l = append(append(append(l, command...), args...), options...)
	case 2:
		// options between the arguments
		l = append(l, command...)
		for len(options) > 0 || len(args) > 0 {
			if len(args) > 0 {
				l = append(l, args[0])
				args = args[1:]
			}
			if len(options) > 0 {
				l = append(l, options[0])
				options = options[1:]
			}
		}
	}
	return l
}

// Verif_CommandLineConfig: plan, install, add and remove with any options and arguments.
//
//verif:id C45
//verif:q _time=200 _init=1
//verif:t _time=500 _init=1
//verif:reach plan show add addinstall remove run help version
func Verif_CommandLineConfig() {
	c := verifCommandLine()
	c.text += "Customizations:\n  Packages:\n    - aa:\n        Env:\n          ONLY_AA: yes-aa\n"
	file := "/work/pkgr.yml"
	vos.Put(file, c.text)
	before := verifSnapshot(verifLib)
	var env []string
	vexec.Handler = func(x *vexec.Cmd) vexec.Result {
		if len(x.Args) > 0 && x.Args[len(x.Args)-1] == "--vanilla" {
			env = append(x.Env, "session="+x.Path)
			return vexec.Result{}
		}
		return vr.Handle(x)
	}
	sym.Capture()
	n := sym.Str("name", 1, 2, "xy.2")
	sym.Assume(n[0] != '.' && n[0] != '2')
	switch sym.Choice("command", 6) {
	case 0:
		var options []string
		show := sym.Choice("show", 2) == 1
		if show {
			options = []string{"--show-deps"}
			sym.Reach("show")
		}
		out := c.run(verifShuffled([]string{"plan"}, options, nil)...)
		sym.Assert(out.Kind == "done", "the plan is made")
		sym.Assert(verifSnapshot(verifLib) == before && vos.Cat(file) == c.text, "a plan changes nothing")
		text := sym.Output()
		sym.Assert(strings.Contains(text, "bb") == show && strings.Contains(text, "[aa]") == show, "--show-deps shows the dependencies")
		sym.Reach("plan")
	case 1:
		install := sym.Choice("install", 2) == 1
		var options []string
		if install {
			options = []string{"--install"}
			sym.Reach("addinstall")
		}
		args := []string{"cc"}
		more := sym.Choice("more", 2) == 1
		if more && install {
			args = append(args, "dd")
		} else if more {
			args = append(args, "p"+n)
		}
		out := c.run(verifShuffled([]string{"add"}, options, args)...)
		sym.Assert(out.Kind == "done", "the packages are added")
		for _, a := range args {
			sym.Assert(strings.Contains(vos.Cat(file), "- "+a+"\n"), "every named package is added")
		}
		sym.Assert(!strings.Contains(vos.Cat(file), "--"), "an option is no package")
		if install {
			sym.Assert(verifVersion(verifLib, "cc") == "2.0", "--install installs the added package")
			sym.Assert((verifVersion(verifLib, "dd") == "2.0") == more, "--install installs every added package")
		} else {
			sym.Assert(verifSnapshot(verifLib) == before, "adding alone leaves the library alone")
		}
		sym.Reach("add")
	case 2:
		c.text = strings.Replace(c.text, "  - bb\n", "  - bb\n  - p"+n+"\n", 1)
		vos.Put(file, c.text)
		out := c.run("remove", "p"+n, "aa")
		sym.Assert(out.Kind == "done", "the packages are removed")
		t := vos.Cat(file)
		sym.Assert(!strings.Contains(t, "- p"+n+"\n") && !strings.Contains(t, "- aa\n") && strings.Contains(t, "- bb\n"), "the named packages are removed, others stay")
		sym.Assert(verifSnapshot(verifLib) == before, "removing leaves the library alone")
		sym.Reach("remove")
	case 3:
		which := sym.Choice("pkg", 4)
		args := []string{"run"}
		switch which {
		case 1:
			args = append(args, "--pkg=aa")
		case 2:
			args = append(args, "--pkg", "aa")
		case 3:
			args = append(args, "--pkg=p"+n)
		}
		out := c.run(args...)
		sym.Assert(out.Kind == "done" && len(env) > 0, "an R session is started")
		custom, lib := false, false
		for _, e := range env {
			custom = custom || e == "ONLY_AA=yes-aa"
			lib = lib || e == "R_LIBS_SITE="+verifLib
		}
		sym.Assert(custom == (which == 1 || which == 2), "--pkg sets the environment of that package")
		sym.Assert(lib, "the session uses the configured library")
		sym.Reach("run")
	case 4:
		args := [][]string{{}, {"--help"}, {"-h"}, {"help"}, {"install", "--help"}, {"help", "install"}, {"add"}, {"remove"}, {"add", "-h"}}[sym.Choice("help", 9)]
		out := c.run(args...)
		sym.Assert(out.Kind == "done" || out.Kind == "exited" && out.Code == 0, "help is no failure")
		text := c.out.String()
		sym.Assert(strings.Contains(text, "Usage:"), "help is printed")
		sym.Assert(len(vexec.Calls) == 0 && verifSnapshot(verifLib) == before && vos.Cat(file) == c.text, "help changes nothing")
		sym.Reach("help")
	case 5:
		VERSION = "1." + n
		out := c.run(sym.Pick("version", "--version", "-v"))
		sym.Assert(out.Kind == "done", "the version is no failure")
		sym.Assert(strings.Contains(c.out.String(), VERSION), "the version of the program is printed")
		sym.Assert(len(vexec.Calls) == 0 && verifSnapshot(verifLib) == before, "the version changes nothing")
		sym.Reach("version")
	}
}

// Verif_CommandLineQueries: load and inspect with every combination of their options.
//
//verif:id C45
//verif:q _time=200 _init=1
//verif:t _time=500 _init=1
//verif:reach load inspect
func Verif_CommandLineQueries() {
	c := verifCommandLine()
	c.text = strings.Replace(c.text, "  - aa\n", "  - dd\n", 1) // bb and dd need aa
	vos.Put("/work/pkgr.yml", c.text)
	sym.Capture()
	var options []string
	has := func(o string) bool {
		if sym.Choice(o, 2) == 1 {
			options = append(options, "--"+o)
			return true
		}
		return false
	}
	if sym.Choice("load", 2) == 1 {
		all, json := has("all"), has("json")
		l := &verifLoads{outcome: map[string]int{"aa": sym.Choice("fails", 2)}, where: map[string]int{}}
		l.use()
		out := c.run(verifShuffled([]string{"load"}, options, nil)...)
		sym.Assert(out.Kind == "done", "the packages are loaded")
		want := []string{"bb", "dd"}
		if all {
			want = []string{"aa", "bb", "dd"}
		}
		got := map[string]int{}
		for _, p := range l.attempted {
			got[p]++
		}
		sym.Assert(len(got) == len(want) && len(l.attempted) == len(want) && got["bb"] == 1 && got["dd"] == 1, "--all loads the dependencies too")
		text := strings.TrimSpace(sym.Output())
		if json {
			sym.Assert(text == strings.TrimSpace(l.report(want)), "--json prints the report")
		} else {
			sym.Assert(!strings.Contains(text, "LoadResults"), "without --json there is no JSON report")
		}
		quiet := true
		for _, r := range log.Entries {
			if r.On && r.Level > log.FatalLevel && r.Message() == "attempting to load packages" {
				quiet = false
			}
		}
		sym.Assert(quiet == json, "--json alone silences the log")
		sym.Reach("load")
		return
	}
	deps, reverse, tree := has("deps"), has("reverse"), has("tree")
	var args []string
	named := sym.Choice("named", 3)
	switch named {
	case 1:
		args = []string{"bb"}
	case 2:
		args = []string{"bb", "aa"}
	}
	out := c.run(verifShuffled([]string{"inspect"}, options, args)...)
	sym.Assert(out.Kind == "done", "the dependencies are inspected")
	text := sym.Output()
	if !deps {
		sym.Assert(!strings.Contains(text, "bb"), "no dependencies are shown without --deps")
		return
	}
	sym.Reach("inspect")
	if tree {
		if !reverse {
			b := verifBranches(text)
			sym.Assert(b["bb"] == "aa" && strings.Contains(b[""], "bb"), "--tree shows the tree")
			sym.Assert((b["dd"] == "aa") == (named == 0), "the tree has only the named packages")
		}
		sym.Assert(!strings.Contains(text, "["), "a tree is no list")
		return
	}
	r := verifRecord(text)
	if reverse {
		sym.Assert(r["bb"] == "" && (named == 1 || r["aa"] == "bb dd"), "--reverse shows the packages that need a package")
	} else {
		sym.Assert(r["bb"] == "aa" && r["aa"] == "", "--deps shows the packages a package needs")
	}
	_, dd := r["dd"]
	sym.Assert(reverse || dd == (named == 0), "the others are shown if none is named")
	_, aa := r["aa"]
	sym.Assert(named != 1 || !aa, "only the named packages are shown")
}

// Verif_CommandLineClean: clean and its subcommands with every combination of their options.
//
//verif:id C45
//verif:q _time=200 _init=1
//verif:t _time=500 _init=1
//verif:reach none all cache pkgdbs
func Verif_CommandLineClean() {
	c := verifCommandLine()
	const dbs = "/home/u/.cache/pkgr/r_packagedb_caches"
	c.text = strings.Replace(c.text, "Repos:\n", "Repos:\n  - S: "+verifURL+"/s\n", 1)
	vos.Put("/work/pkgr.yml", c.text)
	out := c.run("plan")
	sym.Assert(out.Kind == "done" && len(vos.Names(dbs)) == 2, "both indexes are kept")
	for _, d := range []string{"R-1", "S-2"} {
		vos.Put("/cache/"+d+"/src/a.tar.gz", "a")
		vos.Put("/cache/"+d+"/binary/4.1/a.tgz", "a")
	}
	lib := verifSnapshot(verifLib)
	src, bin := map[string]bool{"R-1": true, "S-2": true}, map[string]bool{"R-1": true, "S-2": true}
	kept := 2
	switch sym.Choice("what", 4) {
	case 0:
		out = c.run("clean")
		sym.Reach("none")
	case 1:
		out = c.run("clean", "--all")
		kept, src, bin = 0, nil, nil
		sym.Reach("all")
	case 2:
		var options []string
		s, b := sym.Choice("src", 2) == 1, sym.Choice("binary", 2) == 1
		if s {
			options = append(options, "--src-only")
		}
		if b {
			options = append(options, "--binaries-only")
		}
		only := sym.Choice("repos", 4)
		switch only {
		case 1:
			options = append(options, "--repos=R-1")
		case 2:
			options = append(options, "--repos", "S-2")
		case 3:
			options = append(options, "--repos=S-2,R-1")
		}
		for i, d := range []string{"R-1", "S-2"} {
			if only == 0 || only == 3 || only == i+1 {
				if s || !b {
					delete(src, d)
				}
				if b || !s {
					delete(bin, d)
				}
			}
		}
		sym.Assume(!(s && b)) // not documented
		out = c.run(verifShuffled([]string{"clean", "cache"}, options, nil)...)
		sym.Reach("cache")
	case 3:
		only := sym.Choice("repos", 4)
		args := [][]string{{"clean", "pkgdbs"}, {"clean", "pkgdbs", "--repos=R"}, {"clean", "pkgdbs", "--repos", "S"}, {"clean", "pkgdbs", "--repos=R,S"}}[only]
		out = c.run(args...)
		kept = []int{0, 1, 1, 0}[only]
		sym.Reach("pkgdbs")
	}
	sym.Assert(out.Kind == "done", "the command ends")
	sym.Assert(len(vos.Names(dbs)) == kept, "the selected indexes are removed")
	for _, d := range []string{"R-1", "S-2"} {
		sym.Assert(vos.Has("/cache/"+d+"/src/a.tar.gz") == src[d], "the selected sources are removed")
		sym.Assert(vos.Has("/cache/"+d+"/binary/4.1/a.tgz") == bin[d], "the selected binaries are removed")
	}
	sym.Assert(verifSnapshot(verifLib) == lib && vos.Cat("/work/pkgr.yml") == c.text, "the library and the configuration are left alone")
}

// Verif_CommandLineRefused: a command line that means nothing is refused before anything is read or changed.
//
//verif:id C45
//verif:q _time=200 _init=1 n=3
//verif:t _time=500 _init=1 n=4
//verif:reach option command value missing threads
func Verif_CommandLineRefused() {
	c := verifCommandLine()
	vos.Put("/work/pkgr.yml", c.text)
	before := verifSnapshot("/")
	command := sym.Pick("command", "install", "plan", "add", "remove", "load", "inspect", "run", "clean", "clean cache", "clean pkgdbs")
	args := strings.Split(command, " ")
	switch sym.Choice("what", 5) {
	case 0:
		o := sym.Str("option", 2, sym.Param("n", 3), "adelnoprstg-")
		for _, known := range []string{"all", "deps", "pkg", "tree", "json", "", "-"} {
			sym.Assume(o != known)
		}
		sym.Assume(o[0] != '-')
		args = append(args, "--"+o)
		sym.Reach("option")
	case 1:
		w := sym.Str("word", 1, sym.Param("n", 3), "adlnrus")
		for _, known := range []string{"add", "run"} {
			sym.Assume(w != known)
		}
		if strings.HasPrefix(command, "clean") {
			return
		}
		args = []string{w}
		sym.Reach("command")
	case 2:
		o := sym.Pick("switch", "strict", "no-update", "no-rollback", "no-secure", "logjson", "debug", "update")
		v := sym.Str("value", 1, 2, "2xyno")
		args = append(args, "--"+o+"="+v)
		sym.Reach("value")
	case 3:
		args = append(args, "--"+sym.Pick("needs", "config", "library", "loglevel", "threads"))
		sym.Reach("missing")
	case 4:
		v := sym.Str("value", 1, 2, "1a. ")
		sym.Assume(v != "1" && v != "11")
		args = append(args, "--threads="+v)
		sym.Reach("threads")
	}
	out := c.run(args...)
	sym.Assert(out.Kind == "exited" && out.Code != 0, "the command line is refused with a status")
	sym.Assert(len(vexec.Calls) == 0 && len(vhttp.Requests) == 0 && verifSnapshot("/") == before, "nothing is started, fetched or changed")
}
