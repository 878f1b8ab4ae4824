package cmd

import (
	"fmt"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vlog"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// Verif_Secrets: the credentials in the environment are not written anywhere.
//
//verif:id C41
//verif:q len=2 _time=120 _init=1
//verif:t len=4 _time=400 _init=1
//verif:reach installed loaded ran inspected replaced
func Verif_Secrets() {
	w := verifMachine(verifPkg{"aa", "1.0", "Imports: bb\n"}, verifPkg{"bb", "1.0", ""})
	name := sym.Pick("variable", "GITHUB_TOKEN", "GITHUB_PAT", "GHE_TOKEN", "GHE_PAT", "AWS_ACCESS_KEY_ID", "AWS_SECRET_KEY")
	switch sym.Choice("case", 3) {
	case 1:
		name = strings.ToLower(name)
	case 2:
		name = name[:1] + strings.ToLower(name[1:])
	}
	secret := "ghp" + sym.Str("secret", 1, sym.Param("len", 2), "AZ09_=:") + "Q"
	vos.Setenv(name, secret)
	full.Use()
	cfg = configlib.PkgrConfig{}
	text := "Version: 1\nPackages:\n  - aa\nRepos:\n  - R: " + verifURL + "\nLibrary: /lib\nCache: /cache\nThreads: 1\n"
	switch sym.Choice("env", 3) { // the settings of the package also concern the environment
	case 1:
		text += "Customizations:\n  Packages:\n    - aa:\n        Env:\n          OTHER: x\n"
	case 2:
		text += "Customizations:\n  Packages:\n    - aa:\n        Env:\n          " + name + ": none\n"
		sym.Reach("replaced")
	}
	vos.Put("/work/pkgr.yml", text)
	before := sym.Run(initConfig)
	sym.Resume()
	sym.Assert(before.Kind == "done", "the configuration is read")
	switch sym.Choice("level", 3) {
	case 1:
		vlog.SetLevel(vlog.DebugLevel)
	case 2:
		vlog.SetLevel(vlog.TraceLevel)
	}
	failing := false
	sym.Capture()
	command := sym.Choice("command", 4)
	if command == 0 {
		failing = sym.Choice("failing", 2) == 1
		if failing {
			vr.Fault["aa"] = vr.BuildFail
		}
		cfg.Tarballs = nil
		if sym.Choice("tarball", 2) == 1 {
			w.addTarball("tt", "1.0", "Imports: bb\n")
		}
	}
	out := sym.Run(func() {
		switch command {
		case 0:
			rInstall(nil, nil)
			sym.Reach("installed")
		case 1:
			loadCmd.Run(nil, nil)
			sym.Reach("loaded")
		case 2:
			rRun(nil, nil)
			sym.Reach("ran")
		case 3:
			showDeps = true
			inspect(nil, nil)
			sym.Reach("inspected")
		}
	})
	sym.Resume()
	sym.Assert(failing || out.Kind == "done", "the command completes")
	for _, r := range vlog.Entries {
		sym.Assert(!strings.Contains(r.Format, secret), "no credentials in a log message")
		for _, a := range r.Args {
			sym.Assert(!strings.Contains(fmt.Sprintf("%+v", a), secret), "no credentials in a log message")
		}
		for _, d := range r.Data {
			sym.Assert(!strings.Contains(fmt.Sprintf("%+v", d), secret), "no credentials in the fields of a log record")
		}
	}
	sym.Assert(!strings.Contains(sym.Output(), secret), "no credentials in the output")
	for _, p := range []string{"/lib", "/cache", "/work", "/tmp", "/home/u"} {
		sym.Assert(!strings.Contains(verifSnapshot(p), secret), "no credentials in a file")
	}
}
