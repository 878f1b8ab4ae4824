package cmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/rcmd"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vlog"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
)

// verifInstallCase is an arbitrary library and configuration with packages a (requested, imports b) and b.
// d and x are installed but not part of the plan; d is outdated.
func verifInstallCase(faults []int) *verifWorld {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", "Depends: R (>= 3.1)\n"},
		verifPkg{"d", "2.0", ""})
	cfg.Packages = append(cfg.Packages, "a")
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	for _, p := range []string{"a", "b"} {
		if v := verifStates[sym.Choice("state"+p, len(verifStates))]; v != "" {
			vr.Installed(verifLib, p, v, "old "+p)
		}
		vr.Fault[p] = faults[sym.Choice("fault"+p, len(faults))]
	}
	vr.Installed(verifLib, "d", "1.0", "old d")
	vr.Installed(verifLib, "x", "1.0", "old x")
	return w
}

// verifOldVersion is the version of an installed package.
func verifInstalledVersion(pkg string) string {
	for _, l := range strings.Split(vos.Cat(verifLib+"/"+pkg+"/DESCRIPTION"), "\n") {
		if strings.HasPrefix(l, "Version: ") {
			return l[9:]
		}
	}
	return ""
}

// Verif_InstallOutcome: what an install run leaves in the library.
//
//verif:id C11 C12 C13 C29
//verif:q _time=400
//verif:t _time=800
//verif:reach success failure rolledback norollback nothing
func Verif_InstallOutcome() {
	w := verifInstallCase([]int{vr.OK, vr.BuildFail, vr.PutPart, vr.NoStart})
	cfg.NoRollback = sym.Choice("norollback", 2) == 1
	before := verifSnapshot(verifLib)
	was := map[string]string{}
	due := map[string]bool{}
	ndue := 0
	for _, p := range []string{"a", "b"} {
		was[p] = verifInstalledVersion(p)
		due[p] = was[p] == "" || was[p] == "1.0" && !cfg.NoUpdate
		if due[p] {
			ndue++
		}
	}
	keep := map[string]string{}
	protected := []string{"d", "x"}
	for _, p := range []string{"a", "b"} {
		if !due[p] {
			protected = append(protected, p)
		}
	}
	for _, p := range protected {
		keep[p] = verifSnapshot(verifLib + "/" + p)
	}
	vos.OnOp = func(op, path string, n int) error {
		for _, p := range protected {
			sym.Assert(!verifTouches(op+" "+path, verifLib+"/"+p), "packages outside the plan and current ones are not touched")
		}
		return nil
	}
	w.install()
	vos.OnOp = nil
	sym.Assert(w.run.Kind != "panicked" && w.run.Kind != "hung", "an install run ends")
	failed := false
	for _, p := range []string{"a", "b"} {
		failed = failed || due[p] && vr.Fault[p] != vr.OK
	}
	for _, p := range protected {
		sym.Assert(verifSnapshot(verifLib+"/"+p) == keep[p], "packages outside the plan and current ones keep their contents")
	}
	sym.Assert(!verifBackups(), "no backup folders remain")
	if failed {
		sym.Reach("failure")
		if !cfg.NoRollback {
			sym.Reach("rolledback")
			sym.Assert(verifSnapshot(verifLib) == before, "a failed installation leaves the library as it was")
		} else {
			sym.Reach("norollback")
		}
		return
	}
	sym.Assert(w.run.Kind == "done", "a run without failures ends well")
	if ndue == 0 {
		sym.Reach("nothing")
		sym.Assert(verifSnapshot(verifLib) == before, "nothing to do changes nothing")
	} else {
		sym.Reach("success")
	}
	for _, p := range []string{"a", "b"} {
		if due[p] {
			sym.Assert(verifInstalledVersion(p) == "2.0" && vr.Code(verifLib, p) == "bin 2.0", "the planned version is installed")
			sym.Assert(vr.Started[p] == 1, "each package is installed once")
		} else {
			sym.Assert(vr.Started[p] == 0, "current packages are not installed again")
		}
	}
	sym.Assert(len(vos.Names(verifLib)) == 4, "nothing else is in the library")
}

// verifAnnounced is the number of packages the plan says will be installed.
func verifAnnounced() (int, sym.Outcome) {
	n := -1
	vlog.Reset()
	out := sym.Run(func() {
		rs := rcmd.NewRSettings(cfg.RPath)
		_, ip, _ := planInstall(rcmd.GetRVersion(&rs), true)
		n = ip.GetNumPackagesToInstall()
	})
	sym.Resume()
	for _, e := range vlog.Entries {
		if v, ok := e.Data["to_install"]; ok {
			if i, ok := v.(int); ok {
				up, _ := e.Data["to_update"].(int)
				sym.Assert(up >= 0 && up <= i, "packages to update are among those to install")
				sym.Assert(i == n, "the logged number is the planned number")
			}
		}
	}
	return n, out
}

// Verif_Announced: the announced number of installs, in libraries of every state.
//
//verif:id C29
//verif:q _time=300
//verif:reach none some
func Verif_Announced() {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", ""},
		verifPkg{"d", "2.0", ""})
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	if sym.Choice("requested", 2) == 1 {
		cfg.Packages = append(cfg.Packages, "a")
	}
	for _, p := range []string{"a", "b", "d", "t"} {
		if v := verifStates[sym.Choice("state"+p, len(verifStates))]; v != "" {
			vr.Installed(verifLib, p, v, "old "+p)
		}
	}
	switch sym.Choice("tarball", 3) {
	case 1:
		w.addTarball("t", "5.0", "Imports: b\n")
	case 2:
		w.addTarball("a", "5.0", "Imports: b\n")
	}
	if len(cfg.Packages)+len(cfg.Tarballs) == 0 {
		return
	}
	save := append([]string(nil), cfg.Packages...)
	n, out := verifAnnounced()
	sym.Assert(out.Kind == "done", "the plan is made")
	cfg.Packages = save
	w.install()
	sym.Assert(w.run.Kind == "done", "the installation ends")
	done := 0
	for _, k := range []string{"a", "b", "d", "t"} {
		done += vr.Started[k]
	}
	if done == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("some")
	}
	sym.Assert(n >= 0, "the announced number is not negative")
	sym.Assert(n == done, "the announced number of packages is installed")
}
