package cmd

import (
	"sort"
	"strings"

	"github.com/metrumresearchgroup/pkgr/gpsr"
	"github.com/metrumresearchgroup/pkgr/rcmd"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
)

// verifPlan makes the plan once.
func verifPlan() (gpsr.InstallPlan, sym.Outcome) {
	var ip gpsr.InstallPlan
	out := sym.Run(func() {
		rs := rcmd.NewRSettings(cfg.RPath)
		_, ip, _ = planInstall(rcmd.GetRVersion(&rs), true)
	})
	sym.Resume()
	return ip, out
}

// verifPlanned is the sorted list of the packages to fetch, with version and repository.
func verifPlanned(ip gpsr.InstallPlan) []string {
	var r []string
	for _, d := range ip.PackageDownloads {
		r = append(r, d.Package.Package+" "+d.Package.Version+" "+d.Config.Repo.Name)
	}
	sort.Strings(r)
	return r
}

// Verif_DependencyFiles: every kind of dependency of a tarball and of a DESCRIPTION file.
//
//verif:id C31
//verif:q _time=300
//verif:reach tarball description
func Verif_DependencyFiles() {
	kinds := []string{"Depends", "Imports", "LinkingTo", "Suggests", "Enhances"}
	w := verifMachine(
		verifPkg{"a", "2.0", ""},
		verifPkg{"b", "2.0", "Imports: c\n"},
		verifPkg{"c", "2.0", ""},
		verifPkg{"ab.e", "2.0", ""})
	ka := sym.Choice("kinda", len(kinds))
	kb := sym.Choice("kindb", len(kinds))
	ver := sym.Pick("constraint", "", " (>= 1.0)")
	f := map[string][]string{}
	base := sym.Pick("base", "", "methods", "R", "R (>= 3.5)")
	if base != "" {
		f["Depends"] = append(f["Depends"], base)
	}
	f[kinds[ka]] = append(f[kinds[ka]], "a"+ver)
	f[kinds[kb]] = append(f[kinds[kb]], "b")
	if sym.Choice("stats", 2) == 1 {
		f["Imports"] = append(f["Imports"], "stats")
	}
	fields := ""
	for _, k := range kinds {
		if len(f[k]) > 0 {
			fields += k + ": " + strings.Join(f[k], ",\n    ") + "\n"
		}
	}
	listed := sym.Choice("listed", 2) == 1
	if listed {
		cfg.Packages = append(cfg.Packages, "ab.e")
	}
	file := sym.Choice("file", 2) == 1
	if file {
		sym.Reach("description")
		vos.Put("/work/DESCRIPTION", "Package: proj\nVersion: 0.1\n"+fields)
		cfg.Descriptions = []string{"/work/DESCRIPTION"}
	} else {
		sym.Reach("tarball")
		w.addTarball("t", "5.0", fields)
	}
	used := func(k int) bool { return k <= 2 || k == 3 && file }
	want := []string{}
	if used(ka) {
		want = append(want, "a 2.0 R")
	}
	if used(kb) {
		want = append(want, "b 2.0 R", "c 2.0 R")
	}
	if listed {
		want = append(want, "ab.e 2.0 R")
	}
	sort.Strings(want)
	ip, out := verifPlan()
	sym.Assert(out.Kind == "done", "the plan is made")
	sym.Assert(strings.Join(verifPlanned(ip), "|") == strings.Join(want, "|"), "exactly the dependencies of the file are planned")
	_, t := ip.AdditionalPackageSources["t"]
	sym.Assert(t == !file && len(ip.AdditionalPackageSources) == len(cfg.Tarballs), "exactly the tarballs are installed in addition")
}

// Verif_ReadOnly: plan and inspect, on every state of the library.
//
//verif:id C30
//verif:q _time=300
//verif:reach plan inspect missing
func Verif_ReadOnly() {
	w := verifMachine(
		verifPkg{"a", "2.0", "Imports: b\n"},
		verifPkg{"b", "2.0", "Imports: c\nSuggests: d\n"},
		verifPkg{"c", "2.0", ""},
		verifPkg{"d", "2.0", ""})
	cfg.Packages = append(cfg.Packages, "a")
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	cfg.Suggests = sym.Choice("suggests", 2) == 1
	exists := sym.Choice("exists", 2) == 1
	if exists {
		vos.PutDir(verifLib)
		if v := verifStates[sym.Choice("statea", len(verifStates))]; v != "" {
			vr.Installed(verifLib, "a", v, "old a")
		}
		switch sym.Choice("other", 5) {
		case 1:
			vr.Installed(verifLib, "b", "1.0", "old b")
		case 2:
			vos.PutDir(verifLib + "/broken")
		case 3:
			vos.Put(verifLib+"/b/DESCRIPTION", "Nothing: here\n")
		case 4:
			// what an installation that was killed leaves
			vr.Installed(verifLib, "__OLD__b", "1.0", "old b")
		}
	} else {
		sym.Reach("missing")
		cfg.Strict = sym.Choice("strict", 2) == 1
	}
	switch sym.Choice("tarball", 3) {
	case 1:
		w.addTarball("t", "5.0", "Imports: b\n")
	case 2:
		w.addTarball("a", "5.0", "Imports: b\n")
	}
	before := verifSnapshot(verifLib)
	vos.OnOp = func(op, path string, n int) error {
		sym.Assert(!verifTouches(op+" "+path, verifLib), "the library is not touched")
		return nil
	}
	save := append([]string(nil), cfg.Packages...)
	var out sym.Outcome
	what := sym.Choice("command", 5)
	reverse, showDeps, toJson, tree, installedFrom = false, false, false, false, false
	switch what {
	case 0:
		sym.Reach("plan")
		out = sym.Run(func() { plan(nil, nil) })
	case 1, 2, 3:
		sym.Reach("inspect")
		showDeps, reverse, tree = true, what == 2, what == 3
		out = sym.Run(func() { inspect(nil, nil) })
	case 4:
		installedFrom = true
		out = sym.Run(func() { inspect(nil, nil) })
	}
	sym.Resume()
	sym.Assert(out.Kind == "done", "the command ends")
	sym.Assert(verifSnapshot(verifLib) == before && vos.Has(verifLib) == exists, "the library is as before")
	// twice the same plan, whatever the order of maps
	vos.OnOp = nil
	cfg.Packages = append([]string(nil), save...)
	ip, _ := verifPlan()
	sym.MapOrders(4)
	cfg.Packages = append([]string(nil), save...)
	ip2, _ := verifPlan()
	sym.MapOrders(0)
	sym.Assert(verifCanon(ip) == verifCanon(ip2), "planning again gives the same plan")
}

// verifCanon writes a plan without regard to order.
func verifCanon(ip gpsr.InstallPlan) string {
	start := append([]string(nil), ip.StartingPackages...)
	sort.Strings(start)
	s := "start " + strings.Join(start, ",") + "\n"
	var deps []string
	for p, ds := range ip.DepDb {
		d := append([]string(nil), ds...)
		sort.Strings(d)
		deps = append(deps, p+": "+strings.Join(d, ","))
	}
	sort.Strings(deps)
	s += strings.Join(deps, "\n") + "\n" + strings.Join(verifPlanned(ip), "\n") + "\n"
	var more []string
	for p, a := range ip.AdditionalPackageSources {
		more = append(more, "additional "+p+" "+a.InstallPath)
	}
	for _, o := range ip.OutdatedPackages {
		more = append(more, "outdated "+o.Package+" "+o.OldVersion+" "+o.NewVersion)
	}
	sort.Strings(more)
	return s + strings.Join(more, "\n")
}
