package cmd

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
)

// Verif_Tarballs: packages from tarballs, alone or in place of one of the repository.
//
//verif:id C11 C12 C13 C31
//verif:q _time=400
//verif:reach success failure rolledback
func Verif_Tarballs() {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", ""},
		verifPkg{"t", "2.0", ""})
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	cfg.NoRollback = sym.Choice("norollback", 2) == 1
	if sym.Choice("requested", 2) == 1 {
		cfg.Packages = append(cfg.Packages, "a")
	}
	tar := sym.Pick("tarball", "t", "a")
	for _, p := range []string{"a", "b", "t"} {
		if v := verifStates[sym.Choice("state"+p, 3)]; v != "" {
			vr.Installed(verifLib, p, v, "old "+p)
		}
		vr.Fault[p] = []int{vr.OK, vr.BuildFail}[sym.Choice("fault"+p, 2)]
	}
	vr.Installed(verifLib, "x", "1.0", "old x")
	needs := sym.Pick("needs", "b", "")
	if needs != "" {
		w.addTarball(tar, "5.0", "Imports: "+needs+"\n")
	} else {
		w.addTarball(tar, "5.0", "")
	}
	before := verifSnapshot(verifLib)
	requested := len(cfg.Packages) > 0
	planned := map[string]bool{"b": requested || needs == "b"}
	if requested {
		planned["a"] = true
	}
	was := map[string]string{}
	for _, p := range []string{"a", "b", "t"} {
		was[p] = verifSnapshot(verifLib + "/" + p)
	}
	state := map[string]string{}
	due := map[string]bool{}
	failed := vr.Fault[tar] != vr.OK
	for _, p := range []string{"a", "b", "t"} {
		state[p] = verifInstalledVersion(p)
		due[p] = planned[p] && (state[p] == "" || state[p] == "1.0" && !cfg.NoUpdate)
		failed = failed || due[p] && vr.Fault[p] != vr.OK
	}
	order := []string{}
	vr.OnDone = func(pkg, version string, build bool, lib string) {
		if lib == verifLib {
			order = append(order, pkg+version)
		}
	}
	w.install()
	sym.Assert(w.run.Kind != "panicked" && w.run.Kind != "hung", "an install run ends")
	sym.Assert(!verifBackups(), "no backup folders remain")
	sym.Assert(vr.Code(verifLib, "x") == "old x", "packages outside the plan stay")
	for _, p := range []string{"a", "b", "t"} {
		if !due[p] && p != tar {
			sym.Assert(verifSnapshot(verifLib+"/"+p) == was[p], "packages that are not due stay")
		}
	}
	if failed {
		sym.Reach("failure")
		if !cfg.NoRollback {
			sym.Reach("rolledback")
			sym.Assert(verifSnapshot(verifLib) == before, "a failed installation leaves the library as it was")
		}
		return
	}
	sym.Reach("success")
	sym.Assert(w.run.Kind == "done", "a run without failures ends well")
	for _, p := range []string{"a", "b", "t"} {
		if p != tar && due[p] {
			sym.Assert(vr.Code(verifLib, p) == "bin 2.0", "the planned version is installed")
		}
	}
	sym.Assert(strings.HasPrefix(vr.Code(verifLib, tar), "dir /cache/") && strings.HasSuffix(vr.Code(verifLib, tar), "/"+tar+" 5.0"), "the package of the tarball is installed from its unpacked contents")
	n := 0
	for i, p := range order {
		if p == tar+"5.0" {
			n++
			sym.Assert(i == len(order)-1, "tarballs are installed after the repository packages")
		}
	}
	sym.Assert(n == 1, "the tarball is installed exactly once")
}

// Verif_NewLibrary: runs that create the library.
//
//verif:id C11 C12 C25
//verif:q _time=200
//verif:reach success failure rolledback strict
func Verif_NewLibrary() {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", ""})
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	cfg.NoRollback = sym.Choice("norollback", 2) == 1
	cfg.Strict = sym.Choice("strict", 2) == 1
	listed := sym.Choice("listed", 2) == 1
	if listed {
		cfg.Packages = append(cfg.Packages, "a")
	}
	failed := false
	for _, p := range []string{"a", "b", "t"} {
		if !listed && p != "t" {
			continue
		}
		vr.Fault[p] = []int{vr.OK, vr.BuildFail}[sym.Choice("fault"+p, 2)]
		w.noFile[p] = p != "t" && sym.Choice("nofile"+p, 2) == 1
		failed = failed || (vr.Fault[p] != vr.OK || w.noFile[p]) && p != "t"
	}
	if sym.Choice("tarball", 2) == 1 {
		w.addTarball("t", "5.0", "")
		failed = failed || vr.Fault["t"] != vr.OK
	}
	exists := sym.Choice("exists", 2) == 1
	if exists {
		vos.PutDir(verifLib)
	}
	w.install()
	sym.Assert(w.run.Kind != "panicked" && w.run.Kind != "hung", "an install run ends")
	if cfg.Strict && !exists {
		sym.Reach("strict")
		sym.Assert(w.run.Kind == "exited" && w.run.Code != 0, "strict mode refuses a missing library")
		sym.Assert(!vos.Has(verifLib), "strict mode does not create the library")
		sym.Assert(len(vr.Started)+len(vr.Built) == 0, "strict mode installs nothing")
		return
	}
	if failed {
		sym.Reach("failure")
		if !cfg.NoRollback {
			sym.Reach("rolledback")
			sym.Assert(vos.Has(verifLib) == exists, "a library the run created is removed")
			sym.Assert(len(vos.Names(verifLib)) == 0, "a failed installation leaves no packages")
		}
		return
	}
	sym.Reach("success")
	sym.Assert(w.run.Kind == "done", "a run without failures ends well")
	n := len(cfg.Tarballs)
	if listed {
		n += 2
		for _, p := range []string{"a", "b"} {
			sym.Assert(vr.Code(verifLib, p) == "bin 2.0", "the planned version is installed")
		}
	}
	sym.Assert(len(vos.Names(verifLib)) == n, "nothing else is in the library")
}

// Verif_DownloadFails: a package file is missing on the server, or the cache cannot be used.
//
//verif:id C11 C12 C13
//verif:q _time=200
//verif:reach failure success nocache project
func Verif_DownloadFails() {
	w := verifInstallCase([]int{vr.OK})
	if sym.Choice("tarball", 2) == 1 {
		w.addTarball("x", "5.0", "")
	}
	nocache := sym.Choice("nocache", 2) == 1
	// pkgr is often run in the directory of a package under development, mostly named like it
	switch sym.Choice("project", 3) {
	case 1:
		vos.Put("/work/DESCRIPTION", "Package: work\nVersion: 0.1\n")
		sym.Reach("project")
	case 2:
		vos.Put("/work/DESCRIPTION", "Package: x\nVersion: 0.1\n")
	}
	missing := false
	for _, p := range []string{"a", "b"} {
		w.noFile[p] = sym.Choice("nofile"+p, 2) == 1
		v := verifInstalledVersion(p)
		missing = missing || w.noFile[p] && (v == "" || v == "1.0" && !cfg.NoUpdate)
	}
	before := verifSnapshot(verifLib)
	if nocache {
		vos.OnOp = func(op, path string, n int) error {
			if op == "mkdir" && strings.HasPrefix(path, "/cache") && strings.Contains(path, "src") {
				return errors.New("permission denied")
			}
			return nil
		}
	}
	w.install()
	vos.OnOp = nil
	sym.Assert(w.run.Kind != "panicked" && w.run.Kind != "hung", "an install run ends")
	if nocache {
		sym.Reach("nocache")
		sym.Assert(w.run.Kind == "exited" && w.run.Code != 0, "a cache that cannot be used is a failure")
	}
	if missing || nocache {
		sym.Reach("failure")
		sym.Assert(vr.Started["work"]+vr.Built["work"]+vr.Built["x"] == 0, "nothing else is installed instead")
		sym.Assert(verifSnapshot(verifLib) == before, "a failed download leaves the library as it was")
		return
	}
	sym.Reach("success")
	sym.Assert(w.run.Kind == "done" && !verifBackups(), "a run without failures ends well")
}

// Verif_OperationFails: one operation on the library fails at some point of a run, be it while packages are moved out
// of the way, rolled back or cleaned up.
//
//verif:id C11
//verif:q _time=300
//verif:reach failed
func Verif_OperationFails() {
	w := verifInstallCase([]int{vr.OK, vr.BuildFail, vr.PutPart})
	if sym.Choice("tarball", 2) == 1 {
		w.addTarball("b", "5.0", "")
	}
	installed := map[string]bool{}
	for _, p := range []string{"a", "b", "d", "x"} {
		installed[p] = vos.Has(verifLib + "/" + p)
	}
	bad := sym.Choice("bad", sym.Param("ops", 12))
	seen := 0
	vos.OnOp = func(op, path string, n int) error {
		if (op == "rename" || op == "remove") && strings.HasPrefix(path, verifLib+"/") {
			seen++
			if seen-1 == bad {
				return errors.New("permission denied")
			}
		}
		return nil
	}
	w.install()
	vos.OnOp = nil
	if seen > bad {
		sym.Reach("failed")
	}
	for _, p := range []string{"a", "b", "d", "x"} {
		if installed[p] {
			whole := func(d string) bool { return vos.Has(d+"/DESCRIPTION") && vos.Has(d+"/code") }
			sym.Assert(whole(verifLib+"/"+p) || whole(verifLib+"/__OLD__"+p), "an installed package is not lost")
		}
	}
}
