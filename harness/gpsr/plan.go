package gpsr

import (
	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// verifWorld is an arbitrary small repository with its reference dependency relation.
type verifWorld struct {
	names []string
	avail []bool   // offered by a repository
	req   [][]bool // req[i][j]: i needs j
	sug   [][]bool // sug[i][j]: i suggests j
	repo  []int
	nexus *cran.PkgNexus
}

const verifRepos = 2

func (w *verifWorld) index(n string) int {
	for i, x := range w.names {
		if x == n {
			return i
		}
	}
	return -1
}

// build makes the package database; package i lives in repository repo[i].
func (w *verifWorld) build(kind func(i, j int) int) {
	n := len(w.names)
	w.nexus = &cran.PkgNexus{
		Config:            &cran.InstallConfig{Packages: map[string]cran.PkgConfig{}, Repos: map[string]cran.RepoConfig{}},
		DefaultSourceType: cran.Source,
	}
	for r := 0; r < verifRepos; r++ {
		w.nexus.Db = append(w.nexus.Db, &cran.RepoDb{
			Repo:                     cran.RepoURL{Name: "repo" + string(rune('A'+r)), URL: "https://r" + string(rune('a'+r))},
			DescriptionsBySourceType: map[cran.SourceType]map[string]desc.Desc{cran.Source: {}, cran.Binary: {}},
		})
	}
	for i := 0; i < n; i++ {
		d := desc.Desc{Package: w.names[i], Version: w.version(i),
			Depends: map[string]desc.Dep{"R": {Name: "R"}}, Imports: map[string]desc.Dep{}, LinkingTo: map[string]desc.Dep{}, Suggests: map[string]desc.Dep{}}
		for j := 0; j < n; j++ {
			dep := desc.Dep{Name: w.names[j]}
			if w.req[i][j] {
				switch kind(i, j) {
				case 0:
					d.Depends[w.names[j]] = dep
				case 1:
					d.Imports[w.names[j]] = dep
				case 2:
					d.LinkingTo[w.names[j]] = dep
				case 3: // both
					d.Imports[w.names[j]] = dep
					d.LinkingTo[w.names[j]] = dep
				}
			}
			if w.sug[i][j] {
				d.Suggests[w.names[j]] = dep
			}
		}
		if w.avail[i] {
			w.nexus.Db[w.repo[i]].DescriptionsBySourceType[cran.Source][w.names[i]] = d
		}
	}
}

func (w *verifWorld) version(i int) string { return string(rune('1'+i)) + ".0" }

func verifNew(names ...string) *verifWorld {
	w := &verifWorld{names: names}
	for i := range names {
		w.avail = append(w.avail, true)
		w.req = append(w.req, make([]bool, len(names)))
		w.sug = append(w.sug, make([]bool, len(names)))
		w.repo = append(w.repo, i%verifRepos)
	}
	return w
}

// closure is the reference: everything reachable from the requested packages, excl[j] never being followed to.
func (w *verifWorld) closure(start []int, sugOf func(i int) bool, excl func(j int) bool) []bool {
	in := make([]bool, len(w.names))
	for _, s := range start {
		in[s] = true
	}
	for round := 0; round < len(w.names); round++ {
		for i := range w.names {
			if !in[i] {
				continue
			}
			for j := range w.names {
				if !w.avail[j] || excl(j) {
					continue
				}
				if w.req[i][j] || (w.sug[i][j] && sugOf(i)) {
					in[j] = true
				}
			}
		}
	}
	return in
}

// needs is the transitive closure of the required, planned dependencies.
func (w *verifWorld) needs(in []bool) [][]bool {
	n := len(w.names)
	t := make([][]bool, n)
	for i := range t {
		t[i] = make([]bool, n)
		for j := range t[i] {
			t[i][j] = in[i] && in[j] && w.req[i][j]
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if t[i][k] && t[k][j] {
					t[i][j] = true
				}
			}
		}
	}
	return t
}

func (w *verifWorld) resolve(start []int, deps InstallDeps, noRecommended bool) (InstallPlan, error) {
	var pkgs []string
	for _, s := range start {
		pkgs = append(pkgs, w.names[s])
	}
	deps.Default.NoRecommended = noRecommended
	return ResolveInstallationReqs(pkgs, map[string]desc.Desc{}, deps, w.nexus, true, true, noRecommended)
}

// check compares a plan with the reference.
func (w *verifWorld) check(ip InstallPlan, err error, in []bool) {
	t := w.needs(in)
	cyclic := false
	for i := range t {
		cyclic = cyclic || t[i][i]
	}
	sym.Assert((err != nil) == cyclic, "planning fails exactly when the required dependencies are cyclic")
	if err != nil {
		sym.Reach("cycle")
		return
	}
	sym.Reach("plan")
	got := make([]int, len(w.names))
	for _, p := range ip.StartingPackages {
		i := w.index(p)
		sym.Assert(i >= 0 && in[i], "a starting package belongs to the closure")
		if i < 0 {
			return
		}
		got[i]++
		for j := range w.names {
			sym.Assert(!t[i][j], "a starting package has no planned dependencies")
		}
		_, both := ip.DepDb[p]
		sym.Assert(!both, "a starting package is not listed twice")
	}
	for p, deps := range ip.DepDb {
		i := w.index(p)
		sym.Assert(i >= 0 && in[i], "a planned package belongs to the closure")
		if i < 0 {
			return
		}
		got[i]++
		listed := make([]bool, len(w.names))
		for _, d := range deps {
			j := w.index(d)
			sym.Assert(j >= 0 && t[i][j], "a listed dependency is one, directly or indirectly")
			if j >= 0 {
				listed[j] = true
			}
		}
		for j := range w.names {
			sym.Assert(!t[i][j] || listed[j], "every direct and indirect planned dependency is listed")
		}
	}
	for i := range w.names {
		want := 0
		if in[i] {
			want = 1
		}
		sym.Assert(got[i] == want, "the plan is exactly the closure")
	}
	dl := make([]int, len(w.names))
	for _, d := range ip.PackageDownloads {
		i := w.index(d.Package.Package)
		sym.Assert(i >= 0, "a download is of a planned package")
		if i < 0 {
			return
		}
		dl[i]++
		sym.Assert(d.Package.Version == w.version(i), "the offered version is downloaded")
		sym.Assert(d.Config.Repo == w.nexus.Db[w.repo[i]].Repo, "the offering repository is used")
		sym.Assert(d.Config.Type == cran.Source, "the offered type is used")
	}
	for i := range w.names {
		sym.Assert(dl[i] == got[i], "every planned package is downloaded once and nothing else is")
	}
	all := ip.GetAllPackages()
	n := 0
	for i := range got {
		n += got[i]
	}
	sym.Assert(len(all) == n, "the package list has each planned package once")
}

func verifKindByPair(i, j int) int { return (i + 2*j) % 3 }

func never(int) bool { return false }

// Every graph of required dependencies over n packages.
//
//verif:id C05 C06
//verif:q n=3 _time=120
//verif:t n=4 _time=800
//verif:reach cycle plan
func Verif_Required() {
	n := sym.Param("n", 3)
	sym.MapOrders(2)
	w := verifNew([]string{"aa", "bb", "cc", "dd", "ee"}[:n]...)
	// all packages are reachable only through edges; the first one is requested, the second one may be
	start := []int{0}
	if sym.Choice("second", 2) == 1 {
		start = append(start, 1)
	}
	// edges of unreachable packages do not matter: draw them in the order of discovery
	seen := make([]bool, n)
	queue := append([]int{}, start...)
	for _, s := range start {
		seen[s] = true
	}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		for j := 0; j < n; j++ {
			if i == j && i != 1 {
				continue // a self dependency is tried for one package
			}
			if sym.Choice("edge"+w.names[i]+w.names[j], 2) == 1 {
				w.req[i][j] = true
				if !seen[j] {
					seen[j] = true
					queue = append(queue, j)
				}
			}
		}
	}
	w.build(verifKindByPair)
	ip, err := w.resolve(start, NewDefaultInstallDeps(), false)
	w.check(ip, err, w.closure(start, never, never))
}

// Required and suggested dependencies, with suggestions switched on for any subset of the packages.
//
//verif:id C05 C06
//verif:q n=3 _time=200
//verif:t n=3 all=1 _time=800
//verif:reach cycle plan suggested
func Verif_Suggested() {
	n := sym.Param("n", 3)
	w := verifNew([]string{"aa", "bb", "cc", "dd"}[:n]...)
	start := []int{0}
	seen := make([]bool, n)
	seen[0] = true
	queue := []int{0}
	sugOn := make([]bool, n)
	deps := NewDefaultInstallDeps()
	whole := sym.Choice("suggests.default", 2) == 1
	if whole {
		deps.Default.Suggests = true
	}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		sugOn[i] = whole
		if !whole && sym.Choice("suggests."+w.names[i], 2) == 1 {
			sugOn[i] = true
			cfg := deps.Default
			cfg.Suggests = true
			deps.Deps[w.names[i]] = cfg
		}
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			k := sym.Choice("edge"+w.names[i]+w.names[j], 3)
			w.req[i][j] = k == 1
			w.sug[i][j] = k == 2
			if (k == 1 || (k == 2 && sugOn[i]) || sym.Param("all", 0) == 1 && k != 0) && !seen[j] {
				seen[j] = true
				queue = append(queue, j)
			}
		}
	}
	w.build(verifKindByPair)
	ip, err := w.resolve(start, deps, false)
	in := w.closure(start, func(i int) bool { return sugOn[i] }, never)
	base := w.closure(start, never, never)
	for i := range in {
		if in[i] && !base[i] {
			sym.Reach("suggested")
		}
	}
	w.check(ip, err, in)
}

// Every kind of dependency field, with packages that no repository offers.
//
//verif:id C05 C06
//verif:q _time=60
//verif:t _time=200
//verif:reach plan
func Verif_Kinds() {
	w := verifNew("aa", "bb", "cc", "dd")
	w.req[0][1], w.req[1][2], w.req[0][3] = true, true, true
	w.avail[1] = sym.Choice("avail.bb", 2) == 1
	w.avail[2] = sym.Choice("avail.cc", 2) == 1
	w.avail[3] = sym.Choice("avail.dd", 2) == 1
	for i := range w.repo {
		w.repo[i] = sym.Choice("repo."+w.names[i], verifRepos)
	}
	ks := map[int]int{1: sym.Choice("kind01", 4), 2: sym.Choice("kind12", 4), 3: 1}
	w.build(func(i, j int) int { return ks[j] })
	ip, err := w.resolve([]int{0}, NewDefaultInstallDeps(), false)
	w.check(ip, err, w.closure([]int{0}, never, never))
}

// Base and recommended packages.
//
//verif:id C07
//verif:q _time=100
//verif:t _time=400
//verif:reach base recommended norecommended
func Verif_Excluded() {
	special := sym.Pick("special", "methods", "utils", "stats4", "Matrix", "survival", "KernSmooth")
	isBase := sym.Or(special == "methods", special == "utils", special == "stats4")
	noRec := sym.Choice("noRecommended", 2) == 1
	w := verifNew("aa", "bb", special)
	// the special package is needed or suggested by aa or bb; bb by aa
	link := func(i, j int, name string) {
		switch sym.Choice(name, 3) {
		case 1:
			w.req[i][j] = true
		case 2:
			w.sug[i][j] = true
		}
	}
	link(0, 1, "aa-bb")
	link(0, 2, "aa-special")
	link(1, 2, "bb-special")
	if sym.Choice("special-needs-bb", 2) == 1 {
		w.req[2][1] = true
	}
	kind := sym.Choice("kind", 4)
	w.build(func(i, j int) int { return kind })
	deps := NewDefaultInstallDeps()
	sug := make([]bool, 3)
	switch sym.Choice("suggests", 3) {
	case 1:
		sug[0] = true
		cfg := deps.Default
		cfg.NoRecommended = noRec
		cfg.Suggests = true
		deps.Deps["aa"] = cfg
	case 2:
		sug[0], sug[1], sug[2] = true, true, true
		deps.Default.Suggests = true
	}
	ip, err := w.resolve([]int{0}, deps, noRec)
	excl := func(j int) bool { return j == 2 && (isBase || noRec) }
	switch {
	case isBase:
		sym.Reach("base")
	case noRec:
		sym.Reach("norecommended")
	default:
		sym.Reach("recommended")
	}
	w.check(ip, err, w.closure([]int{0}, func(i int) bool { return sug[i] }, excl))
}

// Larger graphs without cycles, with the fields in which dependencies are listed rotated.
//
//verif:id C05 C06
//verif:q n=5 _time=120
//verif:t n=6 _time=400
//verif:reach plan
func Verif_Acyclic() {
	n := sym.Param("n", 5)
	w := verifNew([]string{"aa", "bb", "cc", "dd", "ee", "ff"}[:n]...)
	start := []int{0}
	if sym.Choice("second", 2) == 1 {
		start = append(start, 1)
	}
	seen := make([]bool, n)
	for _, s := range start {
		seen[s] = true
	}
	// every edge leads to a later package
	for i := 0; i < n; i++ {
		if !seen[i] {
			continue
		}
		for j := i + 1; j < n; j++ {
			if sym.Choice("edge"+w.names[i]+w.names[j], 2) == 1 {
				w.req[i][j] = true
				seen[j] = true
			}
		}
	}
	shift := sym.Choice("shift", 3)
	w.build(func(i, j int) int { return (i + 2*j + shift) % 3 })
	ip, err := w.resolve(start, NewDefaultInstallDeps(), false)
	w.check(ip, err, w.closure(start, never, never))
}
