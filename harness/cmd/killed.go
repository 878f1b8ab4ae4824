package cmd

import (
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
)

// verifWhole tells whether a directory is a whole package.
func verifWhole(dir string) bool { return vos.Has(dir+"/DESCRIPTION") && vos.Has(dir+"/code") }

// Verif_Killed: an installation that is killed before any operation on the file system, and the next one.
//
//verif:id C37
//verif:q _time=400 ops=60
//verif:t _time=800 ops=90 faults=1
//verif:reach killed completed backup failed
func Verif_Killed() {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", ""},
		verifPkg{"d", "2.0", ""})
	cfg.Packages = append(cfg.Packages, "a")
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	state := map[string]string{}
	for _, p := range []string{"a", "b"} {
		if v := verifStates[sym.Choice("state"+p, 2)]; v != "" {
			vr.Installed(verifLib, p, v, "old "+p)
			state[p] = v
		}
	}
	vr.Installed(verifLib, "d", "1.0", "old d")
	keep := verifSnapshot(verifLib + "/d")
	tar := sym.Pick("tarball", "", "b", "t")
	if tar != "" {
		w.addTarball(tar, "5.0", "")
	}
	fail := sym.Pick("fault", "", "a", "b")
	if fail != "" {
		vr.Fault[fail] = vr.BuildFail
	}
	kill := sym.Choice("kill", sym.Param("ops", 60))
	hit := false
	n := 0
	vos.OnOp = func(op, path string, _ int) error {
		if op == "rename" || op == "remove" || op == "mkdir" || op == "write" {
			if verifTouches(op+" "+path, verifLib) {
				if n == kill {
					hit = true
					sym.Crash()
				}
				n++
			}
		}
		return nil
	}
	w.install()
	vos.OnOp = nil
	if !hit {
		return
	}
	sym.Reach("killed")
	sym.Assert(w.run.Kind == "crashed", "killed")
	for p := range state {
		whole := verifWhole(verifLib+"/"+p) || verifWhole(verifLib+"/__OLD__"+p)
		sym.Assert(whole, "a killed run loses no installed package")
		if !verifWhole(verifLib + "/" + p) {
			sym.Reach("backup")
		}
	}
	sym.Assert(verifSnapshot(verifLib+"/d") == keep, "packages outside the plan stay")
	// the next run
	if sym.Choice("noupdate2", 2) == 1 {
		cfg.NoUpdate = !cfg.NoUpdate
	}
	cfg.Packages = []string{"a"}
	fail = sym.Pick("fault2", "", "a", "b")
	vr.Fault = map[string]int{}
	if fail != "" {
		vr.Fault[fail] = vr.PutPart
	}
	due := map[string]bool{}
	there := map[string]string{}
	for _, p := range []string{"a", "b", "t"} {
		v := verifInstalledVersion(p)
		due[p] = p != "t" && (v == "" || v == "1.0" && !cfg.NoUpdate)
		if p == tar {
			due[p] = true
		}
		there[p] = verifSnapshot(verifLib + "/" + p)
	}
	vr.Started = map[string]int{}
	w.install()
	sym.Assert(w.run.Kind == "done", "the next run ends")
	for p := range state {
		sym.Assert(verifWhole(verifLib+"/"+p) || verifWhole(verifLib+"/__OLD__"+p), "the next run loses no package either")
	}
	sym.Assert(verifSnapshot(verifLib+"/d") == keep, "packages outside the plan stay")
	if fail != "" && due[fail] {
		sym.Reach("failed")
		for _, p := range []string{"a", "b", "t"} {
			sym.Assert(verifSnapshot(verifLib+"/"+p) == there[p], "a failed next run leaves the packages as they were")
		}
		return
	}
	sym.Reach("completed")
	for _, p := range []string{"a", "b", "t"} {
		switch {
		case p == tar:
			sym.Assert(verifInstalledVersion(p) == "5.0" && verifWhole(verifLib+"/"+p), "the next run installs the tarball")
		case due[p]:
			sym.Assert(verifInstalledVersion(p) == "2.0" && verifWhole(verifLib+"/"+p), "the next run installs what is missing or outdated")
		default:
			sym.Assert(verifSnapshot(verifLib+"/"+p) == there[p], "the next run leaves current packages")
		}
	}
}
