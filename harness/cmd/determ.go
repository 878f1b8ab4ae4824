package cmd

import (
	"fmt"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/gpsr"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// verifSources is a plan with where every package comes from.
func verifSources(ip gpsr.InstallPlan) string {
	s := verifCanon(ip) + "\n"
	var l []string
	for _, d := range ip.PackageDownloads {
		l = append(l, fmt.Sprint(d.Package.Package, " ", d.Package.Version, " ", d.Config.Repo.Name, " ", d.Config.Repo.URL, " ", d.Config.Repo.Suffix, " ", d.Config.Type))
	}
	return s + strings.Join(verifSort(l), "\n")
}

func verifSort(l []string) []string {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// Verif_Reproducible: the plan follows from the configuration, the repositories and the library, not from the order of maps.
//
//verif:id C47
//verif:q _time=200 _init=1
//verif:t _time=600 _init=1
//verif:reach map list custom
func Verif_Reproducible() {
	verifMachine()
	full.Use()
	vhttp.Handler = func(url string) vhttp.Reply {
		host := url[len("https://"):]
		host = host[:1]
		if strings.HasSuffix(url, "/PACKAGES") {
			v := map[string]string{"a": "1.0", "b": "2.0", "c": "3.0"}[host]
			s := "Package: pp\nVersion: " + v + "\nImports: qq\n\nPackage: qq\nVersion: " + v + "\n\nPackage: only" + host + "\nVersion: 1.0\nImports: pp\nSuggests: ss\n\nPackage: ss\nVersion: " + v + "\n\n"
			return vhttp.Reply{Status: 200, Body: s, Cut: -1}
		}
		return vhttp.Reply{Status: 404, Body: "", Cut: -1}
	}
	text := "Version: 1\nLibrary: /lib\nCache: /cache\nThreads: 1\nPackages:\n  - pp\n  - onlyc\n"
	switch sym.Choice("repos", 5) {
	case 4:
		text += "Repos:\n  - A: https://a.example\n    a: https://c.example\n"
	case 0:
		text += "Repos:\n  - A: https://a.example\n  - B: https://b.example\n  - C: https://c.example\n"
		sym.Reach("list")
	case 1:
		text += "Repos:\n  C: https://c.example\n  B: https://b.example\n  A: https://a.example\n"
		sym.Reach("map")
	case 2:
		text += "Repos:\n  - B: https://b.example\n    A: https://a.example\n  - C: https://c.example\n"
	case 3:
		text += "Repos:\n  - C: https://c.example\n  - B: https://b.example\n    A: https://a.example\n"
	}
	switch sym.Choice("custom", 6) {
	case 1:
		text += "Customizations:\n  Packages:\n    pp:\n      Repo: B\n    onlyc:\n      Suggests: true\n    qq:\n      Repo: C\n"
		sym.Reach("custom")
	case 2:
		text += "Customizations:\n  Packages:\n    - pp:\n        Repo: B\n      onlyc:\n        Suggests: true\n    - pp:\n        Repo: C\n"
	case 3:
		text += "Customizations:\n  Repos:\n    A:\n      Type: binary\n    B:\n      Type: source\n    C:\n      RepoType: MPN\n"
	case 5:
		text += "Customizations:\n  Repos:\n    - A:\n        Type: binary\n        RepoSuffix: x\n      a:\n        RepoSuffix: y\n  Packages:\n    - pp:\n        Suggests: true\n      PP:\n        Suggests: false\n"
	case 4:
		text += "Customizations:\n  Repos:\n    - A:\n        Type: binary\n      C:\n        RepoSuffix: x\n    - A:\n        Type: source\n  Packages:\n    - pp:\n        Type: binary\n    - PP:\n        Repo: B\n"
	}
	if sym.Choice("installed", 2) == 1 {
		vr.Installed("/lib", "pp", "1.5", "old")
		vr.Installed("/lib", "ss", "1.5", "old")
		vr.Installed("/lib", "qq", "2.5", "old")
	}
	vos.Put("/work/pkgr.yml", text)
	plan := func() string {
		vviper.Reset()
		full.Use()
		cfg = configlib.PkgrConfig{}
		vos.Chdir("/work")
		out := sym.Run(initConfig)
		sym.Resume()
		if out.Kind != "done" {
			return "refused configuration"
		}
		ip, out := verifPlan()
		if out.Kind != "done" {
			return "refused plan"
		}
		return verifSources(ip)
	}
	one := plan()
	sym.MapOrders(6)
	two := plan()
	sym.MapOrders(0)
	sym.Assert(one == two, "the same configuration gives the same plan")
}

// Verif_ReproducibleFetch: nor does it depend on which repository answers first.
//
//verif:id C47
//verif:q _time=200 _init=1
//verif:t _time=600 _init=1
//verif:reach planned
func Verif_ReproducibleFetch() {
	verifMachine()
	vr.Use()
	hosts := "abc"
	vhttp.Handler = func(url string) vhttp.Reply {
		host := url[len("https://"):][:1]
		if strings.HasSuffix(url, "/PACKAGES") {
			v := map[string]string{"a": "1.0", "b": "2.0", "c": "3.0"}[host]
			s := "Package: pp\nVersion: " + v + "\nImports: qq\n\nPackage: qq\nVersion: " + v + "\n\nPackage: only" + host + "\nVersion: 1.0\nImports: pp\n\n"
			if host != "a" {
				s += "Package: bc\nVersion: " + v + "\n\n"
			}
			return vhttp.Reply{Status: 200, Body: s, Cut: -1}
		}
		return vhttp.Reply{Status: 404, Body: "", Cut: -1}
	}
	cfg.Repos = nil
	for i := range hosts {
		cfg.Repos = append(cfg.Repos, map[string]string{strings.ToUpper(hosts[i : i+1]): "https://" + hosts[i:i+1] + ".example"})
	}
	cfg.Packages = []string{"onlyb", "qq", "bc"}
	plan := func() string {
		vos.Delete("/home/u/.cache")
		ip, out := verifPlan()
		if out.Kind != "done" {
			return "refused"
		}
		return verifSources(ip)
	}
	one := plan()
	vhttp.Sched = true
	sym.Delays(sym.Param("pre", 2))
	two := plan()
	sym.Delays(0)
	sym.Assert(one == two, "the plan does not depend on which repository answers first")
	sym.Assert(one != "refused", "there is a plan")
	sym.Reach("planned")
}
