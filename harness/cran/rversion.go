package cran

import (
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifFetch builds the database of a repository whose source index is the given text.
func verifFetch(index string, rv RVersion) (map[string]desc.Desc, error) {
	vos.Setenv("HOME", "/home/u")
	vos.PutDir("/home/u")
	vhttp.Handler = func(url string) vhttp.Reply {
		return vhttp.Reply{Status: 200, Body: index, Cut: -1}
	}
	db, err := NewRepoDb(RepoURL{Name: "CRAN", URL: "https://cran.example"}, Source, RepoConfig{}, rv, false)
	if err != nil {
		return nil, err
	}
	return db.DescriptionsBySourceType[Source], nil
}

var verifROps = []string{"", ">=", ">", "==", "<=", "<", "!="}

// verifRReq is an arbitrary R requirement, as text, and whether the R version satisfies it.
func verifRReq(name string, rv RVersion, comps int) (string, bool) {
	op := verifROps[sym.Choice(name+".op", len(verifROps))]
	if op == "" {
		return sym.Pick(name+".bare", "", "Depends: R\n", "Depends: methods\n"), true
	}
	req := ""
	var v [3]int
	for i := 0; i < comps; i++ {
		if i > 0 {
			req += "."
		}
		d := sym.Str(name+".d", 1, 1, "0123456789")
		v[i] = int(d[0] - '0')
		req += d
	}
	c := 0
	r := [3]int{rv.Major, rv.Minor, rv.Patch}
	for i := 2; i >= 0; i-- {
		c = sym.IteInt(r[i] < v[i], -1, sym.IteInt(r[i] > v[i], 1, c))
	}
	ok := false
	switch op {
	case ">=":
		ok = c >= 0
	case ">":
		ok = c > 0
	case "==":
		ok = c == 0
	case "<=":
		ok = c <= 0
	case "<":
		ok = c < 0
	case "!=":
		ok = c != 0
	}
	extra := sym.Pick(name+".extra", "", ", methods")
	return "Depends: R (" + op + " " + req + ")" + extra + "\n", ok
}

func verifRVersion() RVersion {
	// every R version with one-digit components
	return RVersion{Major: sym.Int("r.major", 0, 9), Minor: sym.Int("r.minor", 0, 9), Patch: sym.Int("r.patch", 0, 9)}
}

// One record: offered exactly when R satisfies its requirement and it has no special path.
//
//verif:id C03
//verif:q comps=2 _time=120
//verif:t comps=3 _time=500
//verif:reach offered refused
func Verif_RecordFilter() {
	rv := verifRVersion()
	dep, ok := verifRReq("q", rv, sym.Param("comps", 2))
	path := sym.Pick("path", "", "Path: 4.1.0/Recommended\n")
	pkgs, err := verifFetch("Package: aa\nVersion: 1.0\n"+dep+path+"\nPackage: bb\nVersion: 2.0\n\n", rv)
	sym.Assert(err == nil, "a readable index is accepted")
	_, has := pkgs["aa"]
	_, other := pkgs["bb"]
	sym.Assert(other, "an unconstrained record is offered")
	want := sym.And(ok, path == "")
	sym.Assert(has == want, "a record is offered exactly when R satisfies its requirement")
	if has {
		sym.Reach("offered")
	} else {
		sym.Reach("refused")
	}
}

// Two records of one package: the satisfied one is used, in either order.
//
//verif:id C03
//verif:q comps=1 _time=120
//verif:t comps=2 _time=600
//verif:reach first second neither
func Verif_RecordPair() {
	rv := verifRVersion()
	d1, ok1 := verifRReq("p", rv, sym.Param("comps", 1))
	d2, ok2 := verifRReq("q", rv, sym.Param("comps", 1))
	sym.Assume(sym.Not(sym.And(ok1, ok2)))
	pkgs, err := verifFetch("Package: aa\nVersion: 1.0\n"+d1+"\nPackage: aa\nVersion: 2.0\n"+d2+"\n", rv)
	sym.Assert(err == nil, "a readable index is accepted")
	d, has := pkgs["aa"]
	switch {
	case ok1:
		sym.Assert(has && d.Version == "1.0", "the satisfied record is used")
		sym.Reach("first")
	case ok2:
		sym.Assert(has && d.Version == "2.0", "the satisfied record is used")
		sym.Reach("second")
	default:
		sym.Assert(!has, "no record is offered when none is satisfied")
		sym.Reach("neither")
	}
}
