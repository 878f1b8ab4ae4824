package cmd

import (
	"errors"
	"path"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// Verif_CleanAll: `clean --all` with any reachability of the repositories and any single failing removal.
//
//verif:id C22 C36
//verif:q _time=120
//verif:t _time=300
//verif:reach all nothing refused
func Verif_CleanAll() {
	w := verifMachine(verifPkg{"a", "2.0", ""})
	vos.Put(verifLib+"/x/DESCRIPTION", "Package: x\nVersion: 1.0\n")
	const dir = "/home/u/.cache/pkgr/r_packagedb_caches"
	cfg.Packages = []string{"a"}
	repos := []map[string]string{{"A": verifURL}, {"B": verifURL + "/2"}}
	file := []string{}
	for _, r := range repos {
		before := map[string]bool{}
		for _, n := range vos.Names(dir) {
			before[n] = true
		}
		cfg.Repos = []map[string]string{r}
		_, out := verifPlan()
		sym.Assert(out.Kind == "done", "the plan is made")
		for _, n := range vos.Names(dir) {
			if !before[n] {
				file = append(file, dir+"/"+n)
			}
		}
	}
	sym.Assert(len(file) == 2, "every repository has a database of its own")
	cache := "/cache"
	if sym.Choice("default", 2) == 1 {
		cfg.Cache, cache = "", "/home/u/.cache/pkgr"
	}
	vos.Put(cache+"/A-1/src/p_1.0.tar.gz", "p")
	vos.Put(cache+"/B-1/binary/4.1/p_1.0.tgz", "p")
	vos.Put(cache+"/B-1/note", "text")
	gone := []string{cache + "/A-1", cache + "/B-1/binary", file[0]}
	switch sym.Choice("tarball", 3) {
	case 1:
		w.addTarball("t", "1.0", "Imports: a\n")
		gone = append(gone, verifUnpack(w, "t", cache))
	case 2:
		w.addTarball("t", "1.0", "Imports: zz\n") // a dependency no repository has
		gone = append(gone, verifUnpack(w, "t", cache))
	}
	if sym.Choice("second", 2) == 1 {
		cfg.Repos = repos
		gone = append(gone, file[1])
	} else {
		cfg.Repos = repos[:1]
	}
	if sym.Choice("cached", 2) == 0 {
		vos.Delete(file[0]) // no database to clean
	}
	if sym.Choice("absent", 2) == 1 {
		cfg.Packages = []string{"absent"}
	}
	if sym.Choice("offline", 2) == 1 {
		vhttp.Handler = func(url string) vhttp.Reply {
			return vhttp.Reply{Err: errors.New("no route to host"), Cut: -1}
		}
	}
	reposToClear, srcOnly, binariesOnly = "ALL", false, false // as without options
	cleanAll = sym.Choice("all", 2) == 1
	if !cleanAll {
		gone = nil
		sym.Reach("nothing")
	}
	refuse := ""
	if sym.Choice("refuse", 2) == 1 {
		refuse = sym.Pick("which", cache+"/A-1/src", cache+"/B-1/binary", file[0], cache+"/A-1")
	}
	refused := false
	roots := []string{"/work", verifLib, "/home/u", "/cache"}
	before := verifFiles(roots...)
	vos.OnOp = func(op, p string, n int) error {
		if (op == "remove" || op == "removeall") && refuse != "" && (p == refuse || strings.HasPrefix(p, refuse+"/")) {
			refused = true
			sym.Reach("refused")
			return errors.New("permission denied")
		}
		return nil
	}
	var err error
	out := sym.Run(func() { err = clean(nil, nil) })
	sym.Resume()
	vos.OnOp = nil
	sym.Assert(out.Kind == "done", "the command ends")
	sym.Assert(!refused || err != nil, "what could not be removed is reported")
	after := verifFiles(roots...)
	for l := range after {
		sym.Assert(before[l], "nothing is created or changed")
	}
	if refused {
		return
	}
	sym.Assert(err == nil, "the command succeeds")
	if cleanAll {
		sym.Reach("all")
	}
	for l := range before {
		p := l
		if i := strings.IndexAny(l, " =:"); i >= 0 {
			p = l[:i]
		}
		p = path.Clean(p)
		asked := false
		for _, g := range gone {
			if p == g || strings.HasPrefix(p, g+"/") {
				asked = true
			}
		}
		sym.Assert(after[l] == !asked, "exactly what was asked for is removed")
	}
}
