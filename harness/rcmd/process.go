package rcmd

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifLaunch starts R in one of the ways pkgr does and returns the program started.
func verifLaunch(how int, rs RSettings, pkg string) *vexec.Cmd {
	vexec.Calls = nil
	fs := afero.NewOsFs()
	switch how {
	case 0:
		Install(fs, pkg, "/work/p.tar.gz", InstallArgs{Library: "/lib"}, rs, ExecSettings{WorkDir: "/work"}, InstallRequest{Package: pkg})
	case 1:
		RunRscriptWithArgs(fs, pkg, rs, []string{"-e", "1"}, "/work")
	case 2:
		RunR(fs, pkg, rs, "1", "/work")
	case 3:
		StartR(fs, pkg, rs, "/work")
	}
	sym.Assert(len(vexec.Calls) == 1, "R is started once")
	if len(vexec.Calls) != 1 {
		return nil
	}
	return vexec.Calls[0]
}

// verifEnv is what a process started with the environment sees: the last of equal names counts.
func verifEnv(env []string) ([]string, map[string]string) {
	m := map[string]string{}
	var names []string
	for _, e := range env {
		i := strings.Index(e, "=")
		if i <= 0 {
			continue
		}
		if _, ok := m[e[:i]]; !ok {
			names = append(names, e[:i])
		}
		m[e[:i]] = e[i+1:]
	}
	return names, m
}

func verifPlainMachine() {
	vos.Reset()
	vexec.Reset()
	vos.PutDir("/tmp")
	vos.PutDir("/work")
	vos.PutDir("/lib")
	vos.Chdir("/work")
	vos.Put("/work/p.tar.gz", "x")
	vexec.Handler = func(c *vexec.Cmd) vexec.Result { return vexec.Result{Stdout: "ok"} }
}

// Any variables of the caller and of the package, any library paths, any way to start R.
//
//verif:id C19
//verif:q w=2 _time=200
//verif:t w=3 extra=1 _time=800
//verif:reach own caller site
func Verif_Environment() {
	verifPlainMachine()
	w := sym.Param("w", 2)
	const al = "a=: "
	type kv struct{ k, v string }
	var caller []kv
	put := func(k, v string) {
		for _, c := range caller {
			sym.Assume(c.k != k)
		}
		caller = append(caller, kv{k, v})
		vos.Setenv(k, v)
	}
	k1 := sym.Str("k1", 1, 2, "AB")
	put(k1, sym.Str("v1", 0, w, al))
	if sym.Param("extra", 0) == 1 {
		put(sym.Str("k2", 1, 2, "AB"), sym.Str("v2", 0, 1, al))
	}
	special := sym.Choice("special", 5)
	switch special {
	case 1:
		put("R_LIBS_USER", sym.Str("user", 1, w, al))
		put("R_LIBS_SITE", sym.Str("site", 1, w, al))
	case 2:
		put("R_LIBS_USER", "/home/u/R")
	case 3:
		put("R_LIBS_SITE", "/usr/lib/R/site")
	}
	rs := RSettings{Rpath: "R", Version: cran.RVersion{Major: 4}, PkgEnvVars: map[string]map[string]string{}}
	nlib := sym.Choice("libs", 4)
	for i := 0; i < nlib && i < 2; i++ {
		d := "/l" + string(rune('0'+i)) + "/"
		if nlib == 3 {
			// side by side
			d = "/l/"
		}
		rs.LibPaths = append(rs.LibPaths, d+sym.Str("lib", 0, w-1, "a=")+"x")
	}
	pk, pv := "", ""
	if sym.Choice("own", 2) == 1 {
		pk, pv = sym.Str("pk", 1, 2, "AB"), sym.Str("pv", 0, w-1, al)
		rs.PkgEnvVars["p"] = map[string]string{pk: pv}
	}
	rs.PkgEnvVars["q"] = map[string]string{"A": "wrong", "AB": "wrong", "C": "wrong"}
	c := verifLaunch(sym.Choice("how", 4), rs, "p")
	if c == nil {
		return
	}
	names, env := verifEnv(c.Env)
	for _, k := range names {
		known := k == pk || k == "R_LIBS_USER" || k == "R_LIBS_SITE"
		for _, c := range caller {
			known = known || c.k == k
		}
		sym.Assert(known, "no other variable appears")
	}
	user, ok := env["R_LIBS_USER"]
	sym.Assert(ok && vos.IsDirectory(user), "the user library is an existing directory")
	sym.Assert(len(vos.Names(user)) == 0 && user != "/tmp" && user != "/work", "the user library is an empty directory of its own")
	site, ok := env["R_LIBS_SITE"]
	if nlib > 0 {
		sym.Reach("site")
		sym.Assert(ok && sym.Eq(site, strings.Join(rs.LibPaths, ":")), "the site library is the configured library paths")
	} else {
		sym.Assert(!ok, "without library paths there is no site library")
	}
	for _, c := range caller {
		if c.k == "R_LIBS_USER" || c.k == "R_LIBS_SITE" {
			continue
		}
		got, ok := env[c.k]
		if c.k == pk {
			sym.Reach("own")
			sym.Assert(ok && sym.Eq(strings.Trim(got, " "), strings.Trim(pv, " ")), "the package's own variable counts")
			continue
		}
		sym.Reach("caller")
		if c.v == "" {
			sym.Assert(!ok || got == "", "an empty variable stays empty")
			continue
		}
		sym.Assert(ok && sym.Eq(strings.Trim(got, " "), strings.Trim(c.v, " ")), "other variables of the caller are unchanged")
	}
	if pk != "" {
		sym.Assert(sym.Eq(strings.Trim(env[pk], " "), strings.Trim(pv, " ")), "the package's own variables are set")
	}
}

// The directory of R comes first on PATH, for any PATH and any place of R.
//
//verif:id C19
//verif:q w=4 _time=100
//verif:t w=6 _time=400
//verif:reach first added same
func Verif_Path() {
	verifPlainMachine()
	p := sym.Str("path", 1, sym.Param("w", 4), "/ab:")
	sym.Assume(!strings.Contains(p, "//"))
	vos.Setenv("PATH", p)
	dir := sym.Str("dir", 0, 2, "/ab")
	if dir != "" {
		sym.Assume(dir[0] == '/' && dir[len(dir)-1] != '/')
	}
	rpath := "R"
	if dir != "" {
		rpath = dir + "/R"
	}
	rs := RSettings{Rpath: rpath, Version: cran.RVersion{Major: 4}}
	c := verifLaunch(sym.Choice("how", 4), rs, "p")
	if c == nil {
		return
	}
	_, env := verifEnv(c.Env)
	got := env["PATH"]
	if dir == "" {
		sym.Reach("same")
		sym.Assert(got == p, "PATH is unchanged when R is found through it")
		return
	}
	first, rest := got, ""
	if i := strings.Index(got, ":"); i >= 0 {
		first, rest = got[:i], got[i+1:]
	}
	sym.Assert(strings.TrimSuffix(first, "/") == dir, "the directory of R is first on PATH")
	if got == p {
		sym.Reach("first")
		return
	}
	sym.Reach("added")
	sym.Assert(rest == p, "the rest of PATH is the caller's")
}

// Secrets never reach R, however their names are written.
//
//verif:id C19
//verif:q _time=100
//verif:t all=1 _time=300
//verif:reach hidden
func Verif_Secrets() {
	verifPlainMachine()
	name := sym.Pick("name", "GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY")
	b := []byte(name)
	for i := range b {
		if sym.Param("all", 0) == 0 && i > 4 {
			break
		}
		if b[i] != '_' && sym.Bool("low") {
			b[i] += 'a' - 'A'
		}
	}
	secret := "s3cret" + sym.Str("rest", 0, 2, "a= ")
	vos.Setenv(string(b), secret)
	vos.Setenv("B", "2")
	how := sym.Choice("how", 4)
	c := verifLaunch(how, RSettings{Rpath: "/opt/R", Version: cran.RVersion{Major: 4}, LibPaths: []string{"/l"}}, "p")
	if c == nil {
		return
	}
	for _, e := range c.Env {
		sym.Assert(!strings.Contains(e, "s3cret"), "a secret is not passed on")
	}
	for _, e := range c.Args {
		sym.Assert(!strings.Contains(e, "s3cret"), "a secret is not passed as an argument")
	}
	_, env := verifEnv(c.Env)
	sym.Assert(env["B"] == "2", "other variables stay")
	sym.Reach("hidden")
}

// Any install settings, any place of R and of the package.
//
//verif:id C27
//verif:q _time=200
//verif:t all=1 _time=600
//verif:reach some none
func Verif_Arguments() {
	verifPlainMachine()
	sw := func(name string) bool {
		if sym.Param("all", 0) == 0 {
			return sym.Choice(name, 2) == 1
		}
		return sym.Bool(name)
	}
	a := InstallArgs{Clean: sw("clean"), Preclean: sw("preclean"), Debug: sw("debug"), NoConfigure: sw("no-configure"),
		Example: sw("example"), Fake: sw("fake"), Build: sw("build"), InstallTests: sw("install-tests"), NoMultiarch: sw("no-multiarch"),
		WithKeepSource: sw("keep"), ByteCompile: sw("byte-compile"), NoTestLoad: sw("no-test-load"), NoCleanOnError: sw("no-clean")}
	lib := sym.Pick("lib", "", "/lib", "/lib=a b")
	a.Library = lib
	want := map[string]bool{}
	opt := func(on bool, name string) {
		if on {
			want["--"+name] = true
		}
	}
	opt(a.Clean, "clean")
	opt(a.Preclean, "preclean")
	opt(a.Debug, "debug")
	opt(a.NoConfigure, "no-configure")
	opt(a.Example, "example")
	opt(a.Fake, "fake")
	opt(a.Build, "build")
	opt(a.InstallTests, "install-tests")
	opt(a.NoMultiarch, "no-multiarch")
	opt(a.WithKeepSource, "with-keep.source")
	opt(a.ByteCompile, "byte-compile")
	opt(a.NoTestLoad, "no-test-load")
	opt(a.NoCleanOnError, "no-clean-on-error")
	opt(lib != "", "library="+lib)
	if len(want) == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("some")
	}
	vexec.Handler = func(c *vexec.Cmd) vexec.Result { return vexec.Result{} }
	_, err := Install(afero.NewOsFs(), "p", "/work/p.tar.gz", a, RSettings{Rpath: "/opt/R/bin/R", Version: cran.RVersion{Major: 4}}, ExecSettings{WorkDir: "/work"}, InstallRequest{Package: "p"})
	sym.Assert(err == nil, "the install succeeds")
	sym.Assert(len(vexec.Calls) == 1, "R is run once")
	args := vexec.Calls[0].Args
	sym.Assert(vexec.Calls[0].Path == "/opt/R/bin/R" && args[0] == "/opt/R/bin/R", "the configured R is run")
	sym.Assert(len(args) >= 5 && strings.Join(args[1:4], " ") == "--vanilla CMD INSTALL", "R CMD INSTALL is run without profiles")
	sym.Assert(args[len(args)-1] == "/work/p.tar.gz", "the package file is the last argument")
	got := args[4 : len(args)-1]
	for _, o := range got {
		sym.Assert(want[o], "only enabled settings are passed, once")
		delete(want, o)
	}
	sym.Assert(len(want) == 0, "every enabled setting is passed")
}

// Any way to write the place of R, the working directory and the package file.
//
//verif:id C27
//verif:q w=3 _time=100
//verif:t w=5 _time=300
//verif:reach relative absolute exe
func Verif_Program() {
	verifPlainMachine()
	r := sym.Str("r", 0, sym.Param("w", 3), "R/a.")
	sym.Assume(r == "" || sym.And(r != "/", r != "//", r != "///", r != "////", r != "/////"))
	base := strings.TrimSuffix(r, "/")
	sym.Assume(base == "" && r == "" || base != "" && base[len(base)-1] == 'R')
	if r != "" {
		switch sym.Choice("exe", 4) {
		case 1:
			// a name that ends like a program of Windows
			r = base + ".exe" + r[len(base):]
		case 2:
			r = "/x.exe/" + strings.TrimLeft(r, "/")
		case 3:
			r = "x.exe.d/" + strings.TrimLeft(r, "/")
		}
	}
	rs := RSettings{Rpath: r, Version: cran.RVersion{Major: 4}}
	// the configured path, only cleaned up
	want := []string{}
	abs := strings.HasPrefix(r, "/")
	for _, e := range strings.Split(r, "/") {
		switch {
		case e == "" || e == ".":
		case e == ".." && len(want) > 0 && want[len(want)-1] != "..":
			want = want[:len(want)-1]
		case e == ".." && abs:
		default:
			want = append(want, e)
		}
	}
	prog := strings.Join(want, "/")
	if abs {
		prog = "/" + prog
	}
	if r == "" {
		prog = "R"
	}
	script := prog + "script"
	if strings.HasSuffix(prog, ".exe") {
		sym.Reach("exe")
		script = prog[:len(prog)-4] + "script.exe"
	}
	rel := sym.Choice("rel", 2) == 1
	file := "/work/p.tar.gz"
	if rel {
		sym.Reach("relative")
		file = sym.Pick("file", "p.tar.gz", "./p.tar.gz", "../work/p.tar.gz")
	} else {
		sym.Reach("absolute")
	}
	dir := sym.Pick("dir", "/work", "")
	Install(afero.NewOsFs(), "p", file, InstallArgs{Library: "/lib"}, rs, ExecSettings{WorkDir: dir}, InstallRequest{Package: "p"})
	sym.Assert(len(vexec.Calls) == 1, "R is run once")
	c := vexec.Calls[0]
	sym.Assert(sym.Eq(c.Path, prog), "the configured R is run")
	sym.Assert(c.Args[len(c.Args)-1] == "/work/p.tar.gz", "the package file is named by its absolute path")
	sym.Assert(c.Dir == "/work", "R runs in the working directory")
	vexec.Calls = nil
	RunR(afero.NewOsFs(), "p", rs, "1+1", dir)
	sym.Assert(len(vexec.Calls) == 1 && sym.Eq(vexec.Calls[0].Path, script), "scripts run with the Rscript beside the configured R")
	sym.Assert(strings.Join(vexec.Calls[0].Args[1:], "|") == "--vanilla|-e|1+1", "the script is passed as it is")
}

// The result of an install says how R ended.
//
//verif:id C32
//verif:q _time=60
//verif:t _time=200
//verif:reach ok failed
func Verif_Result() {
	verifPlainMachine()
	exit := sym.Choice("exit", 256)
	start := sym.Choice("start", 2) == 1
	vos.Put("/lib/p/DESCRIPTION", "Package: p\n")
	vexec.Handler = func(c *vexec.Cmd) vexec.Result {
		if start {
			return vexec.Result{StartErr: errors.New("exec: no R")}
		}
		return vexec.Result{Stdout: "o", Stderr: "e", Exit: exit}
	}
	res, err := Install(afero.NewOsFs(), "p", "/work/p.tar.gz", InstallArgs{Library: "/lib"}, RSettings{Rpath: "R", Version: cran.RVersion{Major: 4}}, ExecSettings{WorkDir: "/work"}, InstallRequest{Package: "p"})
	if !start && exit == 0 {
		sym.Reach("ok")
		sym.Assert(err == nil && res.ExitCode == 0, "an install that R finished is a success")
	} else {
		sym.Reach("failed")
		sym.Assert(err != nil && res.ExitCode != 0, "an install that R did not finish is a failure")
		sym.Assert(vos.Cat("/lib/p/DESCRIPTION") == "Package: p\n", "a failed install leaves the package's record alone")
	}
	if !start {
		sym.Assert(res.ExitCode == exit && res.Stdout == "o" && res.Stderr == "e", "exit code and output are R's")
	}
}
