package cmd

import (
	"path"
	"strconv"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/rcmd"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// verifPlace is where a configuration file can be, as seen from /work.
type verifPlace struct{ arg, dir, file string }

var verifPlaces = []verifPlace{
	{"", "/work", "pkgr.yml"},
	{"sub/conf.yml", "/work/sub", "conf.yml"},
	{"./conf.yml", "/work", "conf.yml"},
	{"../other/pkgr.yml", "/other", "pkgr.yml"},
	{"/work/sub/pkgr.yml", "/work/sub", "pkgr.yml"},
	{"~/p/pkgr.yml", "/home/u/p", "pkgr.yml"},
}

// verifConfigured is a machine with a configuration file given on the command line.
func verifConfigured(text string) verifPlace {
	verifMachine()
	full.Use()
	vos.Delete("/work/pkgr.yml")
	cfg = configlib.PkgrConfig{}
	vos.Setenv("D", "/dd")
	vos.PutDir("/work/sub/sub")
	vos.PutDir("/elsewhere")
	p := verifPlaces[sym.Choice("place", len(verifPlaces))]
	vos.Put(p.dir+"/"+p.file, text)
	if p.arg != "" {
		verifFlag("config", p.arg)
	}
	return p
}

func verifFlag(name, value string) {
	sym.Assert(RootCmd.PersistentFlags().Set(name, value) == nil, "the option --"+name+" exists and takes "+value)
}

func verifWd() string { d, _ := vos.Getwd(); return d }

// verifAt is the place a path means in a directory.
func verifAt(dir, p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Join(dir, p)
}

// verifPath is a path in one of the forms of a configuration file: its text and what it means.
func verifPath(style int, dir, name string) (text, means string) {
	switch style {
	case 0:
		return "x/" + name, dir + "/x/" + name
	case 1:
		return "~/" + name, "/home/u/" + name
	case 2:
		return "/abs/" + name, "/abs/" + name
	case 3:
		return "$D/" + name, "/dd/" + name
	case 4:
		return "\"${D}/" + name + "\"", "/dd/" + name
	}
	return "./" + name, dir + "/" + name
}

// Verif_Settings: every setting of a configuration file, its paths in every form, wherever the file is.
//
//verif:id C34
//verif:q _time=120 _init=1
//verif:t _time=400 _init=1
//verif:reach on off
func Verif_Settings() {
	name := sym.Str("name", 1, sym.Param("w", 2), "abR-")
	sym.Assume(name[0] != '-')
	style := sym.Choice("style", 6)
	p := verifConfigured("")
	t := func(s string) string { x, _ := verifPath(style, p.dir, s+name); return x }
	m := func(s string) string { _, x := verifPath(style, p.dir, s+name); return x }
	on := sym.Choice("on", 2) == 1
	b := strconv.FormatBool(on)
	if on {
		sym.Reach("on")
	} else {
		sym.Reach("off")
	}
	threads := sym.Int("threads", 0, 99)
	upper := sym.Choice("case", 2) == 1
	text := "Version: 1\n" +
		"Packages:\n  - p" + name + "\n  - second\n" +
		"IgnorePackages:\n  - i" + name + "\n" +
		"Tarballs:\n  - " + t("t") + "\n  - plain.tar.gz\n" +
		"Descriptions:\n  - " + t("d") + "\n" +
		"Suggests: " + b + "\nNoRecommended: " + b + "\nNoRollback: " + b + "\nNoUpdate: " + b + "\nStrict: " + b + "\nNoSecure: " + b + "\n" +
		"Repos:\n  - Rep: https://r.example/x\n  - Loc: " + t("r") + "\n" +
		"Library: " + t("l") + "\n" +
		"Threads: " + strconv.Itoa(threads) + "\n" +
		"RPath: " + t("R") + "\n" +
		"Cache: " + t("c") + "\n" +
		"Logging:\n  all: " + t("la") + "\n  install: " + t("li") + "\n  overwrite: " + b + "\n" +
		"Customizations:\n  Packages:\n    - p" + name + ":\n        Env:\n          R_Makevars: ~/mk\n        Repo: Loc\n        Suggests: " + b + "\n        Type: binary\n    - Q:\n        Type: source\n" +
		"  Repos:\n    - Rep:\n        Type: source\n"
	if upper {
		text = strings.Replace(text, "RPath:", "Rpath:", 1)
		text = strings.Replace(text, "Library:", "library:", 1)
		text = strings.Replace(text, "  all:", "  All:", 1)
	}
	vos.Put(p.dir+"/"+p.file, text)
	out := sym.Run(initConfig)
	sym.Resume()
	sym.Assert(out.Kind == "done", "the configuration is read")
	wd := verifWd()
	is := func(what, got, want string) {
		sym.Assert(verifAt(wd, got) == want, what+" is the configured path")
	}
	sym.Assert(len(cfg.Packages) == 2 && cfg.Packages[0] == "p"+name && cfg.Packages[1] == "second", "Packages are the listed ones")
	sym.Assert(len(cfg.IgnorePackages) == 1 && cfg.IgnorePackages[0] == "i"+name, "IgnorePackages are the listed ones")
	sym.Assert(len(cfg.Tarballs) == 2 && len(cfg.Descriptions) == 1, "Tarballs and Descriptions are the listed ones")
	is("Tarballs", cfg.Tarballs[0], m("t"))
	is("Tarballs", cfg.Tarballs[1], p.dir+"/plain.tar.gz")
	is("Descriptions", cfg.Descriptions[0], m("d"))
	sym.Assert(cfg.Suggests == on, "Suggests is as configured")
	sym.Assert(cfg.NoRecommended == on, "NoRecommended is as configured")
	sym.Assert(cfg.NoRollback == on, "NoRollback is as configured")
	sym.Assert(cfg.NoUpdate == on, "NoUpdate is as configured")
	sym.Assert(cfg.Strict == on, "Strict is as configured")
	sym.Assert(cfg.NoSecure == on, "NoSecure is as configured")
	sym.Assert(len(cfg.Repos) == 2 && cfg.Repos[0]["Rep"] == "https://r.example/x" && len(cfg.Repos[1]) == 1, "Repos are the listed ones, in order")
	is("Repos", cfg.Repos[1]["Loc"], m("r"))
	is("Library", cfg.Library, m("l"))
	is("RPath", cfg.RPath, m("R"))
	is("Cache", userCache(cfg.Cache), m("c"))
	is("Logging", cfg.Logging.All, m("la"))
	is("Logging", cfg.Logging.Install, m("li"))
	sym.Assert(cfg.Logging.Overwrite == on, "Logging is as configured")
	sym.Assert(cfg.Threads == threads, "Threads is as configured")
	pc, ok := configlib.GetPackageCustomizationByName("p"+name, cfg.Customizations)
	sym.Assert(ok && pc.Repo == "Loc" && pc.Suggests == on && pc.Type == "binary" && len(pc.Env) == 1 && pc.Env["R_Makevars"] == "~/mk",
		"package customizations are the configured ones")
	pc, ok = configlib.GetPackageCustomizationByName("Q", cfg.Customizations)
	sym.Assert(ok && pc.Type == "source" && pc.Repo == "" && !pc.Suggests, "customizations of other packages are kept apart")
	_, ok = configlib.GetPackageCustomizationByName("second", cfg.Customizations)
	sym.Assert(!ok, "other packages have no customization")
	sym.Assert(len(cfg.Customizations.Repos) == 1 && cfg.Customizations.Repos[0]["Rep"].Type == "source", "repository customizations are the configured ones")
	// R is the configured one wherever it is run
	vexec.Calls = nil
	_, _ = rcmd.RunRscriptWithArgs(fs, "", rcmd.RSettings{Rpath: cfg.RPath}, []string{"-e", "1"}, "/elsewhere")
	sym.Assert(len(vexec.Calls) == 1, "R is run")
	sym.Assert(path.Dir(verifAt("/elsewhere", vexec.Calls[0].Path)) == path.Dir(m("R")), "R is the configured one wherever it is run")
}

// verifFrom is where a setting can come from.
func verifFrom(name string, n int) int { return sym.Choice(name, n) }

// Verif_Precedence: the command line wins over the environment, that over the file, and that over the defaults.
//
//verif:id C34
//verif:q _time=120 _init=1
//verif:t _time=400 _init=1
//verif:reach flag env file default
func Verif_Precedence() {
	n := sym.Str("name", 1, 2, "ab")
	text := "Version: 1\n"
	p := verifConfigured("")
	switch sym.Choice("what", 4) {
	case 0: // library
		flag, env, file := sym.Choice("flag", 2) == 1, sym.Choice("env", 2) == 1, sym.Choice("file", 2) == 1
		want := "/work/packrat"
		if file {
			text += "Library: f" + n + "\n"
			want = p.dir + "/f" + n
			sym.Reach("file")
		}
		if sym.Choice("lockfile", 2) == 1 {
			text += "Lockfile:\n  Type: packrat\n"
			if !file {
				want = p.dir + "/packrat/lib/" + vr.Platform + "/" + vr.Version
			}
		} else if !file {
			want = ""
		}
		if env {
			vos.Setenv("PKGR_LIBRARY", "/env/"+n)
			want = "/env/" + n
			sym.Reach("env")
		}
		if flag {
			verifFlag("library", "/flag/"+n)
			want = "/flag/" + n
			sym.Reach("flag")
		}
		vos.Put(p.dir+"/"+p.file, text)
		out := sym.Run(initConfig)
		sym.Resume()
		if want == "" {
			sym.Assert(out.Kind != "done", "a configuration without library is refused")
			return
		}
		sym.Assert(out.Kind == "done", "the configuration is read")
		sym.Assert(verifAt(verifWd(), cfg.Library) == want, "the library is the one with precedence")
	case 1: // number of workers
		want := 0
		if sym.Choice("file", 2) == 1 {
			want = sym.Int("threads", 1, 99)
			text += "Threads: " + strconv.Itoa(want) + "\n"
			sym.Reach("file")
		} else {
			sym.Reach("default")
		}
		if sym.Choice("flag", 2) == 1 {
			want = sym.Int("fthreads", 1, 99)
			verifFlag("threads", strconv.Itoa(want))
			sym.Reach("flag")
		}
		vos.Put(p.dir+"/"+p.file, text+"Library: lib\n")
		out := sym.Run(initConfig)
		sym.Resume()
		sym.Assert(out.Kind == "done", "the configuration is read")
		sym.Assert(cfg.Threads == want, "the number of workers is the one with precedence")
	case 2: // R
		want := "R"
		file := sym.Choice("file", 3)
		switch file {
		case 1:
			text += "RPath: /file/" + n + "\n"
			want = "/file/" + n
		case 2:
			text += "RPath: ${UNSET}\n"
		}
		if sym.Choice("env", 2) == 1 {
			vos.Setenv("PKGR_RPATH", "/env/"+n)
			want = "/env/" + n
		}
		vos.Put(p.dir+"/"+p.file, text+"Library: lib\n")
		out := sym.Run(initConfig)
		sym.Resume()
		sym.Assert(out.Kind == "done", "the configuration is read")
		sym.Assert(rcmd.RSettings{Rpath: cfg.RPath}.R("linux") == want, "R is the one with precedence")
	case 3: // switches
		k := sym.Choice("switch", 4)
		key := []string{"NoUpdate", "NoRollback", "NoSecure", "Strict"}[k]
		opt := []string{"no-update", "no-rollback", "no-secure", "strict"}[k]
		want := false
		switch sym.Choice("file", 3) {
		case 1:
			text += key + ": true\n"
			want = true
		case 2:
			text += key + ": false\n"
		}
		switch sym.Choice("flag", 3) {
		case 1:
			verifFlag(opt, "true")
			want = true
		case 2:
			verifFlag(opt, "false")
			want = false
		}
		if sym.Choice("update", 2) == 1 {
			verifFlag("update", "true")
			if k == 0 {
				want = false
			}
		}
		vos.Put(p.dir+"/"+p.file, text+"Library: lib\n")
		out := sym.Run(initConfig)
		sym.Resume()
		sym.Assert(out.Kind == "done", "the configuration is read")
		got := []bool{cfg.NoUpdate, cfg.NoRollback, cfg.NoSecure, cfg.Strict}
		for i := range got {
			if i == k {
				sym.Assert(got[i] == want, "the switch has the value with precedence")
			} else {
				sym.Assert(!got[i], "other switches are off")
			}
		}
	}
}

// Verif_Elsewhere: a configuration file in any place is the one that is edited, and R is run in its directory.
//
//verif:id C34
//verif:q _time=120 _init=1
//verif:t _time=400 _init=1
//verif:reach add install remove load renv
func Verif_Elsewhere() {
	n := sym.Str("name", 1, 2, "ab")
	text := "Version: 1\nPackages:\n  - a\nRepos:\n  - R: " + verifURL + "\nLibrary: lib\n"
	p := verifConfigured(text)
	file := p.dir + "/" + p.file
	vos.PutDir(p.dir + "/lib")
	switch sym.Choice("what", 4) {
	case 0:
		out := sym.Run(func() { initConfig(); rAdd(addCmd, []string{"x" + n}) })
		sym.Resume()
		sym.Assert(out.Kind == "done", "the package is added")
		sym.Assert(strings.Contains(vos.Cat(file), "- x"+n+"\n"), "the package is added to the configuration file")
		sym.Reach("add")
		// and the changed file can be read again
		out = sym.Run(initConfig)
		sym.Resume()
		sym.Assert(out.Kind == "done", "the configuration is read again")
		sym.Assert(len(cfg.Packages) == 2, "the added package is configured")
		sym.Reach("install")
	case 1:
		out := sym.Run(func() { initConfig(); rRemove(removeCmd, []string{"a"}) })
		sym.Resume()
		sym.Assert(out.Kind == "done", "the package is removed")
		sym.Assert(!strings.Contains(vos.Cat(file), "- a\n"), "the package is removed from the configuration file")
		sym.Reach("remove")
	case 2:
		l := &verifLoads{outcome: map[string]int{}, where: map[string]int{}}
		l.use()
		sym.Capture()
		out := sym.Run(func() { initConfig(); loadCmd.Run(loadCmd, nil) })
		sym.Resume()
		sym.Assert(out.Kind == "done", "the packages are loaded")
		sym.Assert(len(l.dirs) == 1 && l.dirs[p.dir], "R runs in the directory of the configuration file")
		sym.Assert(len(l.attempted) == 1 && l.attempted[0] == "a", "the configured packages are loaded")
		sym.Reach("load")
	case 3:
		vos.Put(file, "Version: 1\nRPath: ~/R\nLockfile:\n  Type: renv\n")
		dir, prog := "", ""
		vexec.Handler = func(c *vexec.Cmd) vexec.Result {
			for _, a := range c.Args {
				if strings.Contains(a, "renv::") {
					prog = c.Path
					dir = verifAt("/work", c.Dir)
					return vexec.Result{Stdout: "# note\n_pkgr_/renv/" + n + "_pkgr_\n"}
				}
			}
			if !strings.HasPrefix(c.Path, "/home/u/R") {
				return vexec.Result{Exit: 127}
			}
			return vr.Handle(c)
		}
		out := sym.Run(initConfig)
		sym.Resume()
		sym.Assert(out.Kind == "done", "the configuration is read")
		sym.Assert(cfg.Library == "/renv/"+n, "the library is the one renv uses")
		sym.Assert(dir == p.dir, "renv is asked for the library of the configuration file's directory")
		sym.Assert(strings.HasPrefix(prog, "/home/u/"), "the configured R is asked")
		sym.Reach("renv")
	}
}
