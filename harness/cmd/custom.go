package cmd

import (
	"sort"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/gpsr"
	"github.com/metrumresearchgroup/pkgr/rcmd"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// Verif_Customized: the customizations of packages written in a configuration file decide the plan.
//
//verif:id C34
//verif:q _time=120 _init=1
//verif:t _time=400 _init=1
//verif:reach pinned suggested refused
func Verif_Customized() {
	verifMachine()
	full.Use()
	cfg = configlib.PkgrConfig{}
	n := sym.Str("name", 1, sym.Param("w", 1), "xR")
	pkg := "p" + n
	vhttp.Handler = func(url string) vhttp.Reply {
		if strings.HasSuffix(url, "/src/contrib/PACKAGES") {
			if strings.HasPrefix(url, "https://a.example") {
				return vhttp.Reply{Status: 200, Cut: -1, Body: "Package: " + pkg + "\nVersion: 1.0\nSuggests: s\n\nPackage: s\nVersion: 1.0\n\n"}
			}
			return vhttp.Reply{Status: 200, Cut: -1, Body: "Package: " + pkg + "\nVersion: 2.0\nSuggests: s\n\nPackage: q\nVersion: 2.0\nSuggests: z\n\nPackage: z\nVersion: 2.0\n\n"}
		}
		return vhttp.Reply{Status: 404, Cut: -1, Body: "none"}
	}
	text := "Version: 1\nPackages:\n  - " + pkg + "\n  - q\nRepos:\n  - A: https://a.example\n  - B: https://b.example\nLibrary: lib\n"
	all := sym.Choice("all", 2) == 1
	if all {
		text += "Suggests: true\n"
	}
	repo, xs, ys := "A", all, all
	refused := false
	text += "Customizations:\n  Packages:\n"
	if sym.Choice("empty", 2) == 1 {
		text += "    -\n" // an entry without anything
	}
	switch sym.Choice("entry", 3) {
	case 0:
		text += "    - s:\n        Suggests: false\n"
	case 1:
		text += "    - " + pkg + ":\n"
	case 2:
		text += "    - " + pkg + ":\n        Type: source\n"
		switch sym.Choice("repo", 4) {
		case 1:
			text += "        Repo: B\n"
			repo = "B"
			sym.Reach("pinned")
		case 2:
			text += "        Repo: A\n"
		case 3:
			text += "        Repo: Nowhere\n"
			refused = true
			sym.Reach("refused")
		}
		switch sym.Choice("suggests", 3) {
		case 1:
			text += "        Suggests: true\n"
			xs = true
			sym.Reach("suggested")
		case 2:
			text += "        Suggests: false\n"
			xs = false
		}
	}
	if sym.Choice("y", 2) == 1 {
		text += "    - q:\n        Suggests: true\n        Env:\n          K: v\n"
		ys = true
	}
	vos.Put("/work/pkgr.yml", text)
	var ip gpsr.InstallPlan
	out := sym.Run(func() {
		initConfig()
		rs := rcmd.NewRSettings(cfg.RPath)
		_, ip, _ = planInstall(rcmd.GetRVersion(&rs), true)
	})
	sym.Resume()
	if refused {
		sym.Assert(out.Kind == "exited" && out.Code != 0, "a customization with an unknown repository is refused")
		return
	}
	sym.Assert(out.Kind == "done", "the plan is made")
	want := []string{pkg + " 1.0 A"}
	if repo == "B" {
		want[0] = pkg + " 2.0 B"
	}
	if xs {
		want = append(want, "s 1.0 A")
	}
	want = append(want, "q 2.0 B")
	if ys {
		want = append(want, "z 2.0 B")
	}
	sort.Strings(want)
	sym.Assert(strings.Join(verifPlanned(ip), ", ") == strings.Join(want, ", "), "the plan follows the customizations")
}
