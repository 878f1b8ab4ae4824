package cran

import (
	"sync"

	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vtime"
)

// verifProcesses runs n processes at the same time; every file operation and request is a switching point.
func verifProcesses(n int, f func(i int)) sym.Outcome {
	vos.Sched, vhttp.Sched = true, true
	out := sym.Run(func() {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sym.SetTag(i)
				f(i)
			}()
		}
		wg.Wait()
	})
	sym.Resume()
	vos.Sched, vhttp.Sched = false, false
	return out
}

// Verif_SharedDownloads: processes that fetch the same package into the same cache.
//
//verif:id C35
//verif:q _time=200 pre=2
//verif:t _time=230 pre=3 procs=3
//verif:reach local remote
func Verif_SharedDownloads() {
	verifUbuntu()
	ReadOsRelease()
	d := PkgDl{Package: desc.Desc{Package: "aa", Version: "1.0"}, Config: PkgConfig{Repo: RepoURL{Name: "R", URL: "https://r.example"}, Type: Source}}
	body := verifBody("x")
	if sym.Choice("local", 2) == 1 {
		sym.Reach("local")
		d.Config.Repo.URL = "/data/r"
		vos.Put("/data/r/src/contrib/aa_1.0.tar.gz", body)
	} else {
		sym.Reach("remote")
	}
	vhttp.Handler = func(url string) vhttp.Reply { return vhttp.Reply{Status: 200, Body: body, Cut: -1} }
	sym.Delays(sym.Param("pre", 2))
	n := sym.Param("procs", 2)
	ok := make([]bool, n)
	whole := make([]bool, n)
	out := verifProcesses(n, func(i int) {
		pm, err := DownloadPackages(afero.NewOsFs(), []PkgDl{d}, "/cache", RVersion{4, 1, 2}, false)
		if err == nil {
			var dl Download
			dl, ok[i] = pm.Get("aa")
			// what R would find now
			whole[i] = vos.Cat(dl.Path) == body
		}
	})
	sym.Assert(out.Kind == "done", "every process ends")
	for i := 0; i < n; i++ {
		sym.Assert(ok[i], "every process gets the package")
		sym.Assert(whole[i], "no process uses a file another one is writing")
	}
}

// Verif_SharedDatabases: processes that read the same repository.
//
//verif:id C35
//verif:q _time=200 pre=2
//verif:t _time=150 pre=4
//verif:reach none old fresh
func Verif_SharedDatabases() {
	verifUbuntu()
	vos.Clock = func() int64 { return vtime.Clock }
	gen := 0
	vhttp.Handler = func(url string) vhttp.Reply {
		return vhttp.Reply{Status: 200, Body: verifIndex(0, verifTypeOf(url), gen), Cut: -1}
	}
	read := func() (*RepoDb, error) {
		return NewRepoDb(RepoURL{Name: "A", URL: "https://a.example"}, Source, RepoConfig{}, RVersion{4, 1, 2}, false)
	}
	state := sym.Choice("state", 3)
	want := 1
	switch state {
	case 0:
		sym.Reach("none")
	case 1:
		sym.Reach("old")
		vtime.Clock -= 4000
		read()
		vtime.Clock += 4000
	case 2:
		sym.Reach("fresh")
		vtime.Clock -= 100
		read()
		vtime.Clock += 100
		want = 0
	}
	gen = 1
	sym.Delays(sym.Param("pre", 2))
	n := 2
	good := make([]bool, n)
	out := verifProcesses(n, func(i int) {
		db, err := read()
		good[i] = err == nil && verifIsIndex(db.DescriptionsBySourceType[Source], 0, 0, want)
	})
	sym.Assert(out.Kind == "done", "every process ends")
	for i := 0; i < n; i++ {
		sym.Assert(good[i], "every process gets the whole database")
	}
	db, err := read()
	sym.Assert(err == nil && verifIsIndex(db.DescriptionsBySourceType[Source], 0, 0, want), "the cache is usable afterwards")
}
