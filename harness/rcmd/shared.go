package rcmd

import (
	"sync"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vrand"
)

// Verif_SharedBinaries: two processes install the same package into libraries of their own with one package cache;
// the file operations of both interleave.
//
//verif:id C35
//verif:q _time=200 pre=1
//verif:t _time=270 pre=2
//verif:reach empty stored
func Verif_SharedBinaries() {
	verifMachine()
	libs := []string{"/libx", "/liby"}
	for _, l := range libs {
		vos.PutDir(l)
	}
	vrand.Next = func(n int) int { return sym.Tag() }
	w := &verifRun{names: []string{"pa"}}
	w.setNeeds([][]bool{{false}})
	w.download()
	rs := RSettings{PkgEnvVars: map[string]map[string]string{}, Rpath: "R", Version: verifRVersion(), Platform: vr.Platform}
	one := func(lib string, dl *cran.PkgMap) error {
		args := NewDefaultInstallArgs()
		args.Library = lib
		return InstallPackagePlan(afero.NewOsFs(), w.plan, dl, PackageCache{BaseDir: "/cache"}, args, rs, ExecSettings{PkgrVersion: "v1"}, 1)
	}
	if sym.Choice("stored", 2) == 1 {
		sym.Reach("stored")
		vos.PutDir("/libz")
		sym.Assert(one("/libz", w.dl) == nil, "one process alone succeeds")
	} else {
		sym.Reach("empty")
	}
	sym.Delays(sym.Param("pre", 2))
	errs := make([]error, len(libs))
	vos.Sched = true
	out := sym.Run(func() {
		var wg sync.WaitGroup
		for i := range libs {
			d, _ := w.dl.Get("pa")
			dl := cran.NewPkgMap()
			dl.Put("pa", d)
			wg.Add(1)
			go func() {
				defer wg.Done()
				sym.SetTag(i)
				errs[i] = one(libs[i], dl)
			}()
		}
		wg.Wait()
	})
	sym.Resume()
	vos.Sched = false
	sym.Assert(out.Kind == "done", "every process ends")
	for i, l := range libs {
		sym.Assert(errs[i] == nil, "every process succeeds")
		sym.Assert(vr.Code(l, "pa") == "bin "+verifVersion(0), "every process installs the package")
	}
	// what was stored is whole
	vos.PutDir("/libw")
	sym.Assert(one("/libw", w.dl) == nil && vr.Code("/libw", "pa") == "bin "+verifVersion(0), "the cache is usable afterwards")
}
