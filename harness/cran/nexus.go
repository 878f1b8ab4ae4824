package cran

import (
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

var verifTypes = []SourceType{Default, Source, Binary}

// verifNexus is an arbitrary database of n repositories for package "pp" and its bystander "qq".
func verifNexus(n int) (*PkgNexus, []RepoURL, []SourceType, map[SourceType][]bool) {
	nexus := &PkgNexus{Config: &InstallConfig{Packages: map[string]PkgConfig{}, Repos: map[string]RepoConfig{}},
		DefaultSourceType: verifTypes[1+sym.Choice("platform", 2)]}
	offers := map[SourceType][]bool{Source: make([]bool, n), Binary: make([]bool, n)}
	var urls []RepoURL
	var def []SourceType
	for i := 0; i < n; i++ {
		name := string(rune('A' + i))
		u := RepoURL{Name: "R" + name, URL: "https://" + name + ".example", Suffix: sym.Pick("suffix"+name, "", "s")}
		d := verifTypes[sym.Choice("default"+name, 3)]
		db := &RepoDb{Repo: u, DefaultSourceType: d, DescriptionsBySourceType: map[SourceType]map[string]desc.Desc{Source: {}, Binary: {}}}
		for _, st := range verifTypes[1:] {
			if offers[st][i] = sym.Choice("offers"+name, 2) == 1; offers[st][i] {
				db.DescriptionsBySourceType[st]["pp"] = desc.Desc{Package: "pp", Version: verifOfferVersion(i, st)}
			}
			db.DescriptionsBySourceType[st]["qq"] = desc.Desc{Package: "qq", Version: "9"}
		}
		nexus.Db = append(nexus.Db, db)
		urls = append(urls, u)
		def = append(def, d)
	}
	return nexus, urls, def, offers
}

func verifOfferVersion(i int, st SourceType) string {
	return string(rune('1'+i)) + "." + string(rune('0'+int(st)))
}

// The repository and type of a package.
//
//verif:id C08
//verif:q n=2 _time=120
//verif:t n=3 _time=800
//verif:reach found missing pinned typed
func Verif_Select() {
	n := sym.Param("n", 2)
	nexus, urls, def, offers := verifNexus(n)
	pin := sym.Choice("pin", n+1) - 1
	typ := verifTypes[sym.Choice("type", 3)]
	if pin >= 0 {
		sym.Assert(nexus.SetPackageRepo("pp", urls[pin].Name) == nil, "a package can be pinned to a configured repository")
		sym.Reach("pinned")
	}
	if typ != Default {
		t := "binary"
		if typ == Source {
			t = sym.Pick("spelling", "source", "Source")
		}
		sym.Assert(nexus.SetPackageType("pp", t) == nil, "a package type can be set")
		sym.Reach("typed")
	}
	if sym.Choice("other", 2) == 1 {
		// a customization of another package has no influence
		nexus.Config.Packages["qq"] = PkgConfig{Repo: urls[n-1], Type: Binary}
	}
	at, st := -1, Default
	for i := 0; i < n && at < 0; i++ {
		t := typ
		if t == Default {
			t = def[i]
		}
		if t == Default {
			t = nexus.DefaultSourceType
		}
		if offers[t][i] && (pin < 0 || pin == i) {
			at, st = i, t
		}
	}
	d, cfg, ok := nexus.GetPackage("pp")
	sym.Assert(ok == (at >= 0), "a package is found exactly when a repository offers it that way")
	ap := nexus.GetPackages([]string{"pp", "qq"})
	sym.Assert(nexus.CheckAllAvailable([]string{"pp"}) == (at >= 0), "availability says the same")
	if at < 0 {
		sym.Reach("missing")
		sym.Assert(len(ap.Missing) >= 1 && ap.Missing[0] == "pp", "a package nobody offers that way is reported missing")
		return
	}
	sym.Reach("found")
	for _, m := range ap.Missing {
		sym.Assert(m != "pp", "an offered package is not reported missing")
	}
	sym.Assert(cfg.Repo == urls[at], "the first repository offering it is used")
	sym.Assert(cfg.Type == st, "the selected type is used")
	sym.Assert(d.Package == "pp" && d.Version == verifOfferVersion(at, st), "the record of that repository and type is used")
	sym.Assert(len(ap.Packages) == 2 && ap.Packages[0].Package.Version == d.Version && ap.Packages[0].Config == cfg, "the package list has the same")
}

// Invalid customizations are refused and change nothing.
//
//verif:id C08
//verif:q n=2 _time=60
//verif:t n=2 _time=200
func Verif_BadCustomization() {
	nexus, _, _, _ := verifNexus(2)
	before, bcfg, bok := nexus.GetPackage("pp")
	sym.Assert(nexus.SetPackageRepo("pp", sym.Pick("repo", "RC", "", "ra")) != nil, "an unknown repository is refused")
	sym.Assert(nexus.SetPackageType("pp", sym.Pick("type", "src", "", "bin")) != nil, "an unknown type is refused")
	after, acfg, aok := nexus.GetPackage("pp")
	sym.Assert(aok == bok && acfg == bcfg && after.Version == before.Version, "a refused customization changes nothing")
}
