package cran

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifAddress is where the package must be fetched from.
func verifAddress(d PkgDl, rv RVersion, file string) string {
	base := strings.TrimSuffix(d.Config.Repo.URL, "/")
	if d.Config.Type != Binary {
		return base + "/src/contrib/" + d.Package.Package + "_" + d.Package.Version + ".tar.gz"
	}
	mm := string(rune('0'+rv.Major)) + "." + string(rune('0'+rv.Minor))
	if d.Config.Repo.Suffix != "" {
		return base + "/bin/linux/ubuntu/focal/" + d.Config.Repo.Suffix + "/contrib/" + mm + "/" + file
	}
	return base + "/bin/linux/ubuntu/focal/contrib/" + mm + "/" + file
}

// verifBody is the content of the file at an address.
func verifBody(url string) string { return "<content of " + url + ">" }

func verifPkg(name string) PkgDl {
	d := PkgDl{Package: desc.Desc{Package: sym.Pick(name+".pkg", "aa", "ab"), Version: sym.Pick(name+".ver", "1.0", "1.0-1")}}
	d.Config.Repo = RepoURL{Name: sym.Pick(name+".repo", "R", "S"), URL: sym.Pick(name+".url", "https://r.example", "https://s.example/")}
	d.Config.Type = verifTypes[sym.Choice(name+".type", 3)]
	if d.Config.Type == Binary {
		d.Config.Repo.Suffix = sym.Pick(name+".suffix", "", "sfx")
	}
	return d
}

// Several packages downloaded at once, some of which fail.
//
//verif:id C16
//verif:q n=2 delays=1 _time=200
//verif:t n=3 delays=1 _time=800
//verif:reach complete failed cached
func Verif_Downloads() {
	verifUbuntu()
	sym.Delays(sym.Param("delays", 1))
	vhttp.Sched = true
	ReadOsRelease()
	rv := RVersion{4, 1, 2}
	repo := RepoURL{Name: "R", URL: sym.Pick("url", "https://r.example", "https://r.example/sub/")}
	n := sym.Param("n", 2)
	var ds []PkgDl
	kinds := map[string]int{}
	for i := 0; i < n; i++ {
		d := PkgDl{Package: desc.Desc{Package: "p" + string(rune('a'+i)), Version: "1." + string(rune('0'+i))}, Config: PkgConfig{Repo: repo, Type: Source}}
		if i == 1 {
			d.Config.Type = verifTypes[sym.Choice("type", 3)]
			switch sym.Choice("repo", 3) {
			case 1:
				d.Config.Repo = RepoURL{Name: "S", URL: "https://s.example"}
			case 2: // nothing keeps a configuration from naming two repositories alike
				d.Config.Repo = RepoURL{Name: "R", URL: "https://s.example"}
			}
		}
		kinds[d.Package.Package] = sym.Choice("reply", 4)
		ds = append(ds, d)
	}
	vhttp.Handler = func(url string) vhttp.Reply {
		for _, d := range ds {
			if i := strings.LastIndex(url, "/"); strings.HasPrefix(url[i+1:], d.Package.Package+"_"+d.Package.Version) {
				sym.Assert(url == verifAddress(d, rv, url[i+1:]), "a package is fetched from its own address")
				return verifReply(kinds[d.Package.Package], verifBody(url), "cut")
			}
		}
		sym.Assert(false, "only the packages are fetched")
		return vhttp.Reply{Status: 404}
	}
	for run := 0; run < 2; run++ {
		vhttp.Requests = nil
		var pm *PkgMap
		var err error
		out := sym.Run(func() { pm, err = DownloadPackages(afero.NewOsFs(), ds, "/cache", rv, false) })
		sym.Resume()
		sym.Assert(out.Kind == "done", "downloading ends")
		if out.Kind != "done" {
			return
		}
		for _, d := range ds {
			var dl Download
			ok := false
			if err == nil && pm != nil {
				dl, ok = pm.Get(d.Package.Package)
			}
			good := kinds[d.Package.Package] == verifOK
			if !good {
				sym.Assert(!ok, "a package whose download failed is not reported as downloaded")
				sym.Reach("failed")
				continue
			}
			sym.Reach("complete")
			if err != nil {
				continue // the whole set may be refused when one fails
			}
			sym.Assert(ok, "a downloaded package is reported")
			i := strings.LastIndex(dl.Path, "/")
			sym.Assert(ok && vos.Cat(dl.Path) == verifBody(verifAddress(d, rv, dl.Path[i+1:])), "the cached file is the complete package")
			sym.Assert(strings.HasPrefix(dl.Path, "/cache/"), "packages are stored in the cache")
			sym.Assert(dl.Metadata.Package.Package == d.Package.Package && dl.Metadata.Package.Version == d.Package.Version, "the download describes the package")
			if run == 1 {
				sym.Assert(!dl.New, "a cached package is not fetched again")
				for _, u := range vhttp.Requests {
					sym.Assert(!strings.HasSuffix(u, dl.Path[i:]), "a cached package is not fetched again")
				}
				sym.Reach("cached")
			}
		}
	}
}

// Two packages never share a place in the cache unless they are the same package of the same repository and type.
//
//verif:id C16 C17
//verif:q _time=120
//verif:t _time=500
//verif:reach same different
func Verif_CachePlaces() {
	verifUbuntu()
	sym.Delays(0)
	ReadOsRelease()
	a, b := verifPkg("a"), verifPkg("b")
	rva := RVersion{4, 1, 2}
	rvb := RVersion{4, 1 + sym.Choice("minor", 2), 2}
	if a.Config.Repo.Suffix != b.Config.Repo.Suffix {
		return // one repository has one suffix
	}
	vhttp.Handler = func(url string) vhttp.Reply { return vhttp.Reply{Status: 200, Body: verifBody(url), Cut: -1} }
	get := func(d PkgDl, rv RVersion) (Download, bool) {
		pm, err := DownloadPackages(afero.NewOsFs(), []PkgDl{d}, "/cache", rv, false)
		if err != nil {
			return Download{}, false
		}
		return pm.Get(d.Package.Package)
	}
	da, oka := get(a, rva)
	db, okb := get(b, rvb)
	sym.Assert(oka && okb, "available packages are downloaded")
	bin := a.Config.Type == Binary
	same := a.Package.Package == b.Package.Package && a.Package.Version == b.Package.Version && a.Config.Repo == b.Config.Repo &&
		bin == (b.Config.Type == Binary) && (!bin || rva.Minor == rvb.Minor)
	if same {
		sym.Reach("same")
		sym.Assert(!db.New && da.Path == db.Path, "the same package is found in the cache again")
	} else {
		sym.Reach("different")
		sym.Assert(da.Path != db.Path, "different packages have different places in the cache")
		sym.Assert(db.New, "another package is not taken from the cache")
	}
}

// Repositories of one name at addresses that differ a little.
//
//verif:id C16 C17
//verif:q _time=100
//verif:t _time=300
//verif:reach source binary
func Verif_CacheAddresses() {
	verifUbuntu()
	sym.Delays(0)
	ReadOsRelease()
	rv := RVersion{4, 1, 2}
	urls := []string{"https://r.example/Sub", "https://r.example/sub", "http://r.example/sub", "https://r.example:8443/sub",
		"https://r.example/sub/2", "https://r.example/su/b", "https://r.example/sub?x=1", "https://r.example/sub%20"}
	i, j := sym.Choice("one", len(urls)), sym.Choice("other", len(urls))
	typ := sym.Choice("binary", 2)
	if typ == 1 {
		sym.Reach("binary")
	} else {
		sym.Reach("source")
	}
	pkg := func(url string) PkgDl {
		d := PkgDl{Package: desc.Desc{Package: "aa", Version: "1.0"}}
		d.Config.Repo = RepoURL{Name: "R", URL: url}
		d.Config.Type = verifTypes[1+typ]
		return d
	}
	vhttp.Handler = func(url string) vhttp.Reply { return vhttp.Reply{Status: 200, Body: verifBody(url), Cut: -1} }
	var ds [2]Download
	for k, u := range []string{urls[i], urls[j]} {
		pm, err := DownloadPackages(afero.NewOsFs(), []PkgDl{pkg(u)}, "/cache", rv, false)
		sym.Assert(err == nil, "available packages are downloaded")
		if err != nil {
			return
		}
		ds[k], _ = pm.Get("aa")
		f := ds[k].Path[strings.LastIndex(ds[k].Path, "/")+1:]
		sym.Assert(vos.Cat(ds[k].Path) == verifBody(verifAddress(pkg(u), rv, f)), "the cached file is that of the repository")
	}
	sym.Assert(ds[1].New == (i != j), "another repository's package is not taken from the cache")
}

// A download that is killed or fails for lack of space, and a second one.
//
//verif:id C16
//verif:q _time=120
//verif:t ops=20 _time=500
//verif:reach killed failed whole
func Verif_DownloadCrash() {
	verifUbuntu()
	sym.Delays(0)
	rv := RVersion{4, 1, 2}
	d := PkgDl{Package: desc.Desc{Package: "aa", Version: "1.0"}, Config: PkgConfig{Repo: RepoURL{Name: "R", URL: "https://r.example"}, Type: Source}}
	local := sym.Choice("local", 2) == 1
	body := verifBody("x")
	if local {
		d.Config.Repo.URL = "/data/r"
		vos.Put("/data/r/src/contrib/aa_1.0.tar.gz", body)
	}
	vhttp.Handler = func(url string) vhttp.Reply { return vhttp.Reply{Status: 200, Body: body, Cut: -1} }
	kill := sym.Choice("op", sym.Param("ops", 12))
	crash := sym.Choice("how", 2) == 0
	vos.OnOp = func(op, path string, n int) error {
		if op != "open" && n == kill {
			if crash {
				sym.Crash()
			}
			return errors.New("no space left on device")
		}
		return nil
	}
	run := func() (dl Download, ok bool, out sym.Outcome) {
		out = sym.Run(func() {
			pm, err := DownloadPackages(afero.NewOsFs(), []PkgDl{d}, "/cache", rv, false)
			if err == nil {
				dl, ok = pm.Get("aa")
			}
		})
		sym.Resume()
		return
	}
	dl, ok, out := run()
	switch {
	case out.Kind == "crashed":
		sym.Reach("killed")
	case ok:
		sym.Reach("whole")
		sym.Assert(vos.Cat(dl.Path) == body, "a package reported as downloaded is complete")
	default:
		sym.Assert(!crash || kill < 20, "downloads only fail for a reason")
		sym.Reach("failed")
	}
	vos.OnOp = nil
	dl, ok, out = run()
	sym.Assert(out.Kind == "done" && ok, "a later run gets the package")
	sym.Assert(!ok || vos.Cat(dl.Path) == body, "a later run never uses a partial file")
}

// A package missing from a repository on disk.
//
//verif:id C16
//verif:q _time=60
//verif:t _time=100
//verif:reach missing
func Verif_LocalMissing() {
	verifUbuntu()
	d := PkgDl{Package: desc.Desc{Package: "aa", Version: "1.0"}, Config: PkgConfig{Repo: RepoURL{Name: "R", URL: "/data/r"}, Type: Source}}
	if sym.Choice("unreadable", 2) == 1 {
		vos.PutDir("/data/r/src/contrib/aa_1.0.tar.gz")
	}
	ok := false
	out := sym.Run(func() {
		pm, err := DownloadPackages(afero.NewOsFs(), []PkgDl{d}, "/cache", RVersion{4, 1, 2}, false)
		if err == nil {
			_, ok = pm.Get("aa")
		}
	})
	sym.Resume()
	sym.Assert(out.Kind == "done" || (out.Kind == "exited" && out.Code != 0), "downloading ends")
	sym.Assert(!ok, "a missing package is not reported as downloaded")
	for _, l := range vos.Tree("/cache") {
		sym.Assert(!strings.Contains(l, "aa_1.0.tar.gz="), "no file is left behind")
	}
	sym.Reach("missing")
}
