package cmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// Verif_CleanDatabases: databases of up to four repositories, one of them of another configuration.
//
//verif:id C36
//verif:q _time=200
//verif:reach all named other
func Verif_CleanDatabases() {
	verifMachine(verifPkg{"a", "2.0", ""})
	serve := vhttp.Handler
	vhttp.Handler = func(url string) vhttp.Reply { return serve(url) }
	vos.PutDir(verifLib)
	cfg.Packages = []string{"a"}
	const dir = "/home/u/.cache/pkgr/r_packagedb_caches"
	all := []map[string]string{{"A": verifURL}, {"AB": verifURL + "/2"}, {"b": verifURL + "/3"}, {"a": verifURL + "/4"}}
	custom := sym.Choice("custom", 3)
	settings := func() {
		cfg.Customizations = configlib.Customizations{}
		switch custom {
		case 1:
			cfg.Customizations.Repos = []map[string]configlib.RepoConfig{{"AB": {Type: "source", RepoType: "RSPM"}}}
		case 2:
			cfg.Customizations.Repos = []map[string]configlib.RepoConfig{{"AB": {RepoSuffix: "sfx"}}}
		}
	}
	file := map[string]string{}
	for _, r := range all {
		before := map[string]bool{}
		for _, n := range vos.Names(dir) {
			before[n] = true
		}
		cfg.Repos = []map[string]string{r}
		settings()
		_, out := verifPlan()
		sym.Assert(out.Kind == "done", "the plan is made")
		for _, n := range vos.Names(dir) {
			if !before[n] {
				for k := range r {
					file[k] = n
				}
			}
		}
	}
	sym.Assert(len(file) == 4, "every repository has a database of its own")
	vos.Put(dir+"/unrelated", "x")
	vos.Put("/cache/A-123/src/a_2.0.tar.gz", "x")
	cfg.Repos = nil
	conf := map[string]bool{}
	for _, r := range all {
		for k := range r {
			if k == "A" || sym.Choice("configured "+k, 2) == 1 {
				conf[k] = true
				cfg.Repos = append(cfg.Repos, r)
			} else {
				sym.Reach("other")
			}
		}
	}
	settings()
	arg := sym.Pick("repos", "ALL", "A", "b", "AB,A", "X", "", "B", "aB,a")
	gone := map[string]bool{}
	if arg == "ALL" {
		sym.Reach("all")
		for k := range conf {
			gone[k] = true
		}
	} else {
		sym.Reach("named")
		for _, k := range strings.Split(arg, ",") {
			gone[k] = conf[k]
		}
	}
	var err error
	out := sym.Run(func() { err = cleanPackageDatabases(arg) })
	sym.Resume()
	sym.Assert(out.Kind == "done" && err == nil, "the command succeeds")
	for k, f := range file {
		sym.Assert(vos.Has(dir+"/"+f) == !gone[k], "exactly the databases of the named repositories are removed")
	}
	sym.Assert(vos.Has(dir+"/unrelated") && vos.Has("/cache/A-123/src/a_2.0.tar.gz"), "nothing else is removed")
}
