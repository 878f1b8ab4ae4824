package rcmd

import (
	"errors"
	"strconv"
	"strings"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/gpsr"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vrand"
)

const verifLib = "/lib"

// verifRun is one installation of a plan.
type verifRun struct {
	names   []string
	needs   [][]bool // transitive
	plan    gpsr.InstallPlan
	dl      *cran.PkgMap
	started []int // position in the history, 0: never
	ended   []int
	clock   int
	err     error
	out     sym.Outcome
}

func (w *verifRun) index(p string) int {
	for i, n := range w.names {
		if n == p {
			return i
		}
	}
	return -1
}

func verifRepo() cran.RepoURL { return cran.RepoURL{Name: "R", URL: "https://r.example"} }

func verifVersion(i int) string { return "1." + strconv.Itoa(i) }

// verifDag is an arbitrary acyclic plan over n packages; package i may need packages before it.
func verifDag(n int) *verifRun {
	w := &verifRun{}
	direct := make([][]bool, n)
	for i := 0; i < n; i++ {
		w.names = append(w.names, "p"+string(rune('a'+i)))
		direct[i] = make([]bool, n)
		for j := 0; j < i; j++ {
			direct[i][j] = sym.Choice("dep"+w.names[i]+w.names[j], 2) == 1
		}
	}
	w.setNeeds(direct)
	return w
}

func (w *verifRun) setNeeds(direct [][]bool) {
	n := len(w.names)
	w.needs = direct
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if direct[i][k] && direct[k][j] {
					direct[i][j] = true
				}
			}
		}
	}
	w.started, w.ended = make([]int, n), make([]int, n)
	w.plan = gpsr.InstallPlan{DepDb: map[string][]string{}, InstalledPackages: map[string]desc.Desc{}}
	for i, p := range w.names {
		var deps []string
		for j := range w.names {
			if direct[i][j] {
				deps = append(deps, w.names[j])
			}
		}
		if len(deps) == 0 {
			w.plan.StartingPackages = append(w.plan.StartingPackages, p)
		} else {
			w.plan.DepDb[p] = deps
		}
		w.plan.PackageDownloads = append(w.plan.PackageDownloads, cran.PkgDl{
			Package: desc.Desc{Package: p, Version: verifVersion(i)},
			Config:  cran.PkgConfig{Repo: verifRepo(), Type: cran.Source}})
	}
}

// verifMachine prepares the machine: R, a library, a cache and the repository.
func verifMachine() {
	vos.Setenv("HOME", "/home/u")
	vos.Setenv("PATH", "/usr/bin")
	vos.PutDir("/home/u")
	vos.PutDir("/tmp")
	vos.PutDir("/work")
	vos.Chdir("/work")
	vos.PutDir(verifLib)
	vr.Library = verifLib
	vr.Use()
	vhttp.Handler = func(url string) vhttp.Reply {
		f := url[strings.LastIndex(url, "/")+1:]
		f = strings.TrimSuffix(f, ".tar.gz")
		i := strings.Index(f, "_")
		return vhttp.Reply{Status: 200, Body: vr.Source(f[:i], f[i+1:]), Cut: -1}
	}
}

func verifRVersion() cran.RVersion { return cran.RVersion{Major: 4, Minor: 1, Patch: 2} }

// download fills the package cache.
func (w *verifRun) download() {
	dl, err := cran.DownloadPackages(afero.NewOsFs(), w.plan.PackageDownloads, "/cache", verifRVersion(), false)
	sym.Assert(err == nil, "the packages can be downloaded")
	w.dl = dl
}

// install runs the installation step.
func (w *verifRun) install(workers int) {
	vr.OnInstall = func(pkg, version string, build bool, lib string) {
		sym.Lock()
		defer sym.Unlock()
		i := w.index(pkg)
		if i < 0 {
			sym.Assert(false, "only planned packages are installed")
			return
		}
		w.clock++
		if w.started[i] == 0 {
			w.started[i] = w.clock
		}
		sym.Assert(version == verifVersion(i), "the planned version is installed")
		for j := range w.names {
			sym.Assert(!w.needs[i][j] || w.ended[j] != 0, "a package starts only after its dependencies are installed")
		}
		sym.Assert(vr.Started[pkg] <= 1 && vr.Built[pkg] <= 1, "a package is installed once")
	}
	vr.OnDone = func(pkg, version string, build bool, lib string) {
		sym.Lock()
		defer sym.Unlock()
		if i := w.index(pkg); i >= 0 && lib == verifLib {
			w.clock++
			w.ended[i] = w.clock
		}
	}
	args := NewDefaultInstallArgs()
	args.Library = verifLib
	rs := RSettings{PkgEnvVars: map[string]map[string]string{}, Rpath: "R", Version: verifRVersion(), Platform: vr.Platform}
	w.out = sym.Run(func() {
		w.err = InstallPackagePlan(afero.NewOsFs(), w.plan, w.dl, PackageCache{BaseDir: "/cache"}, args, rs, ExecSettings{PkgrVersion: "v1"}, workers)
	})
	sym.Resume()
}

// check judges the result.
func (w *verifRun) check() {
	sym.Assert(w.out.Kind == "done", "the installation step returns")
	if w.out.Kind != "done" {
		return
	}
	failed := false
	for i, p := range w.names {
		f := vr.Fault[p]
		tried := w.started[i] != 0
		if f == vr.NoStart {
			// R could not be started: the package was due when all its needs were there
			tried = true
			for j := range w.names {
				tried = tried && (!w.needs[i][j] || w.ended[j] != 0)
			}
			if tried && !failed && w.err == nil {
				tried = false
			}
		}
		if tried && f != vr.OK {
			failed = true
		}
		inLib := vr.Code(verifLib, p)
		if f == vr.OK {
			sym.Assert(inLib == "" || inLib == "bin "+verifVersion(i), "what is installed was built from the planned package")
		} else {
			sym.Assert(inLib == "", "a failed package is not in the library")
		}
	}
	anyFault := false
	for _, p := range w.names {
		anyFault = anyFault || vr.Fault[p] != vr.OK
	}
	if !anyFault {
		sym.Reach("all")
		sym.Assert(w.err == nil, "without failures no error is reported")
		for i, p := range w.names {
			sym.Assert(vr.Code(verifLib, p) == "bin "+verifVersion(i), "without failures every planned package is installed")
		}
		return
	}
	sym.Reach("failure")
	sym.Assert((w.err != nil) == failed, "an error is reported exactly when a package failed")
	sym.Assert(w.err != nil, "a run in which a package cannot be installed is an error")
}

var verifFaults = []int{vr.OK, vr.BuildFail, vr.NoBinary, vr.NoStart, vr.PutFail}

// Every small plan, any one kind of failure per package, every schedule within the bound.
//
//verif:id C09 C10
//verif:q n=3 workers=2 delays=1 _time=300
//verif:t n=3 workers=2 delays=2 _time=850
//verif:reach all failure
func Verif_Schedule() {
	verifMachine()
	w := verifDag(sym.Param("n", 3))
	for _, p := range w.names {
		vr.Fault[p] = []int{vr.OK, vr.BuildFail}[sym.Choice("fault", 2)]
	}
	w.download()
	sym.Delays(sym.Param("delays", 1))
	vexec.Sched = true
	w.install(1 + sym.Choice("workers", sym.Param("workers", 2)))
	w.check()
}

// Larger plans in every order of completion without preemption.
//
//verif:id C09 C10
//verif:q n=4 workers=1 _time=200
//verif:t n=5 workers=3 _time=850
//verif:reach all failure
func Verif_LargerPlans() {
	verifMachine()
	w := verifDag(sym.Param("n", 4))
	bad := sym.Choice("bad", len(w.names)+1)
	if bad < len(w.names) {
		vr.Fault[w.names[bad]] = vr.PutFail
	}
	w.download()
	sym.Delays(0)
	vexec.Sched = true
	workers := 1 + sym.Choice("workers", sym.Param("workers", 1))
	w.install(workers)
	w.check()
	if workers == 1 && bad < len(w.names) && w.started[bad] != 0 {
		// one worker: nothing that became ready only after the failure is started
		for i := range w.names {
			late := w.started[i] > w.started[bad]
			for j := range w.names {
				if w.needs[i][j] && w.ended[j] > w.started[bad] && late {
					sym.Assert(false, "nothing is queued after a failure")
				}
			}
		}
	}
}

// Every kind of failure of one package, with its effect on the library and the report.
//
//verif:id C32 C09 C10
//verif:q _time=200
//verif:t delays=1 _time=600
//verif:reach all failure
func Verif_Failures() {
	verifMachine()
	w := &verifRun{names: []string{"pa", "pb", "pc"}}
	w.setNeeds([][]bool{{false, false, false}, {true, false, false}, {false, false, false}})
	for _, p := range w.names {
		vr.Fault[p] = verifFaults[sym.Choice("fault"+p, len(verifFaults))]
	}
	vr.Installed(verifLib, "other", "3.0", "kept")
	before := vos.Tree(verifLib + "/other")
	w.download()
	lost := ""
	if sym.Choice("lost", 2) == 1 {
		// a package file disappears after the download
		lost = "pc"
		d, _ := w.dl.Get(lost)
		vos.Delete(d.Path)
	}
	sym.Delays(sym.Param("delays", 0))
	w.install(1)
	for i, p := range w.names {
		if w.started[i] != 0 {
			sym.Assert(vr.Started[p] == 0 || vr.Built[p] == 1 && (vr.Fault[p] == vr.OK || vr.Fault[p] == vr.PutFail), "only a successfully built binary is installed into the library")
		}
		if vr.Fault[p] != vr.OK || p == lost {
			sym.Assert(!vos.Has(verifLib+"/"+p), "a package that failed is not in the library")
		}
	}
	after := vos.Tree(verifLib + "/other")
	sym.Assert(strings.Join(before, "|") == strings.Join(after, "|"), "other packages stay as they are")
	if lost != "" {
		sym.Assert(w.out.Kind == "done" && w.err != nil, "a package that could not be installed is an error")
		return
	}
	w.check()
}

// Plans in which many packages wait for one, or one waits for many: every number of packages up to a bound.
//
//verif:id C10
//verif:q n=12 _time=100
//verif:t n=40 workers=3 delays=1 _time=400
//verif:reach all failure wide deep
func Verif_WidePlans() {
	verifMachine()
	n := 2 + sym.Choice("n", sym.Param("n", 12)-1)
	w := &verifRun{}
	direct := make([][]bool, n)
	shape := sym.Choice("shape", 4)
	for i := 0; i < n; i++ {
		w.names = append(w.names, "p"+string(rune('a'+i)))
		direct[i] = make([]bool, n)
		for j := 0; j < i; j++ {
			switch shape {
			case 0: // all need the first
				direct[i][j] = j == 0
			case 1: // the last needs all
				direct[i][j] = i == n-1
			case 2: // a chain
				direct[i][j] = j == i-1
			}
		}
	}
	if shape == 0 {
		sym.Reach("wide")
	} else if shape == 2 {
		sym.Reach("deep")
	}
	w.setNeeds(direct)
	switch sym.Choice("fault", 3) {
	case 1:
		vr.Fault["pa"] = vr.BuildFail
	case 2:
		vr.Fault[w.names[n-1]] = vr.PutFail
	}
	w.download()
	sym.Delays(sym.Param("delays", 0))
	w.install(1 + sym.Choice("workers", sym.Param("workers", 2)))
	w.check()
}

// Storing a built binary in the cache fails.
//
//verif:id C10 C17
//verif:q _time=120
//verif:t delays=1 _time=600
//verif:reach all stored
func Verif_StoreFails() {
	verifMachine()
	w := &verifRun{names: []string{"pa", "pb"}}
	w.setNeeds([][]bool{{false, false}, {sym.Choice("dep", 2) == 1, false}})
	w.download()
	bad := sym.Choice("bad", 8)
	seen := 0
	vos.OnOp = func(op, path string, n int) error {
		if strings.HasPrefix(path, "/cache/") && op != "open" {
			seen++
			if seen-1 == bad {
				return errors.New("no space left on device")
			}
		}
		return nil
	}
	sym.Delays(sym.Param("delays", 0))
	w.install(2)
	vos.OnOp = nil
	w.check()
	// whatever was stored is complete: install once more into an empty library
	for _, p := range w.names {
		vos.Delete(verifLib + "/" + p)
	}
	vr.Started, vr.Built = map[string]int{}, map[string]int{}
	w.started, w.ended = make([]int, 2), make([]int, 2)
	w.install(1)
	w.check()
	for _, p := range w.names {
		if vr.Built[p] == 0 {
			sym.Reach("stored")
		}
	}
}

// Two runs share the directory for temporary files; the first fails in some way, the second in another.
//
//verif:id C32
//verif:q _time=120
//verif:t _time=300
//verif:reach failed rebuilt
func Verif_SecondRun() {
	verifMachine()
	w := &verifRun{names: []string{"pa", "pb"}}
	w.setNeeds([][]bool{{false, false}, {sym.Choice("dep", 2) == 1, false}})
	w.download()
	runs := 0
	vrand.Next = func(n int) int { return runs % n }
	run := func(label string) {
		runs++
		for _, p := range w.names {
			vr.Fault[p] = verifFaults[sym.Choice(label+p, len(verifFaults))]
		}
		vr.Started, vr.Built = map[string]int{}, map[string]int{}
		w.started, w.ended = make([]int, 2), make([]int, 2)
		w.install(1)
	}
	run("first")
	sym.Assume(w.err != nil)
	sym.Reach("failed")
	// what was installed or stored is removed again
	vos.Delete(verifLib)
	vos.PutDir(verifLib)
	keep := sym.Choice("keep", 2) == 1
	if !keep {
		for _, n := range vos.Names("/cache") {
			vos.Delete("/cache/" + n + "/binary")
		}
	}
	run("second")
	for i, p := range w.names {
		in := vos.Has(verifLib + "/" + p)
		if vr.Fault[p] == vr.PutFail || vr.Fault[p] == vr.NoStart {
			sym.Assert(!in, "a package that failed is not in the library")
		}
		if !keep && (vr.Fault[p] == vr.BuildFail || vr.Fault[p] == vr.NoBinary) {
			sym.Assert(!in && vr.Started[p] == 0, "only a successfully built binary is installed into the library")
		}
		if in {
			sym.Reach("rebuilt")
			sym.Assert(vr.Code(verifLib, p) == "bin "+verifVersion(i), "the package is installed from its binary")
			sym.Assert(keep || vr.Built[p] == 1, "the binary was built by this run")
		}
	}
}

// A run is killed at any moment; the next one installs everything.
//
//verif:id C17
//verif:q _time=120
//verif:t _time=600
//verif:reach killed all stored
func Verif_StoreCrash() {
	verifMachine()
	w := &verifRun{names: []string{"pa"}}
	w.setNeeds([][]bool{{false}})
	w.download()
	kill := sym.Choice("kill", 40)
	base := vos.Ops
	vos.OnOp = func(op, path string, n int) error {
		if op != "open" && n-base == kill {
			sym.Crash()
		}
		return nil
	}
	sym.Delays(0)
	w.install(1)
	vos.OnOp = nil
	if w.out.Kind == "crashed" {
		sym.Reach("killed")
	}
	vos.Delete(verifLib + "/pa")
	vr.Started, vr.Built = map[string]int{}, map[string]int{}
	w.started, w.ended = make([]int, 1), make([]int, 1)
	w.install(1)
	w.check()
	if vr.Built["pa"] == 0 {
		sym.Reach("stored")
	}
}
