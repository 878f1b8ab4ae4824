package pacman

import (
	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
)

// verifVersion is an arbitrary version of 1..comps components, as text and as numbers (missing ones zero).
func verifVersion(name string, comps, digits int) (string, []int) {
	v := make([]int, comps)
	s := ""
	for i, k := 0, sym.Choice(name+".n", comps)+1; i < k; i++ {
		if i > 0 {
			s += sym.Pick(name+".sep", ".", "-")
		}
		for d, w := 0, sym.Choice(name+".w", digits)+1; d < w; d++ {
			c := sym.Str(name+".d", 1, 1, "0123456789")
			s += c
			v[i] = v[i]*10 + int(c[0]-'0')
		}
	}
	return s, v
}

func verifCompare(a, b []int) int {
	c := 0
	for i := len(a) - 1; i >= 0; i-- {
		c = sym.IteInt(a[i] < b[i], -1, sym.IteInt(a[i] > b[i], 1, c))
	}
	return c
}

// One installed package against one offered package: outdated exactly when the offer is newer.
//
//verif:id C04
//verif:q comps=3 digits=1 _time=120
//verif:t comps=5 digits=1 _time=700
//verif:reach outdated current
func Verif_Outdated() {
	comps, digits := sym.Param("comps", 3), sym.Param("digits", 1)
	iv, in := verifVersion("inst", comps, digits)
	ov, on := verifVersion("offer", comps, digits)
	newer := verifCompare(on, in) > 0
	got := GetOutdatedPackages(map[string]desc.Desc{"pp": {Package: "pp", Version: iv}},
		[]cran.PkgDl{{Package: desc.Desc{Package: "pp", Version: ov}}})
	sym.Assert((len(got) == 1) == newer, "a package is outdated exactly when the offered version is newer")
	if newer {
		sym.Reach("outdated")
		if len(got) == 1 {
			sym.Assert(got[0].Package == "pp", "the package is named")
			sym.Assert(sym.And(sym.Eq(got[0].OldVersion, iv), sym.Eq(got[0].NewVersion, ov)), "the installed and the offered version are reported")
		}
	} else {
		sym.Reach("current")
		sym.Assert(len(got) == 0, "equal or older offers are not reported")
	}
}

// Versions with components of several digits.
//
//verif:id C04
//verif:q comps=2 digits=2 _time=120
//verif:t comps=2 digits=4 _time=700
//verif:reach outdated current
func Verif_OutdatedWide() { Verif_Outdated() }

// Several packages: each one is judged by its own versions; packages missing on either side are not reported.
//
//verif:id C04
//verif:q n=3 _time=120
//verif:t n=4 _time=500
//verif:reach some
func Verif_OutdatedSet() {
	n := sym.Param("n", 3)
	names := []string{"aa", "ab", "b", "cc.c"}[:n]
	installed := map[string]desc.Desc{}
	var offers []cran.PkgDl
	want := make([]bool, n)
	newer := make([]bool, n)
	for i, p := range names {
		a := sym.Str("i."+p, 1, 1, "0123456789")
		b := sym.Str("o."+p, 1, 1, "0123456789")
		newer[i] = b[0] > a[0]
		k := sym.Choice("where."+p, 3) // both, installed only, offered only
		if k != 2 {
			installed[p] = desc.Desc{Package: p, Version: "1." + a}
		}
		if k != 1 {
			offers = append(offers, cran.PkgDl{Package: desc.Desc{Package: p, Version: "1." + b}})
		} else {
			// what GetPackages returns for a package that no repository offers
			offers = append(offers, cran.PkgDl{})
		}
		want[i] = k == 0
	}
	got := GetOutdatedPackages(installed, offers)
	for i, p := range names {
		c := 0
		for _, o := range got {
			if o.Package == p {
				c++
				sym.Reach("some")
			}
		}
		sym.Assert((c == 1) == sym.And(want[i], newer[i]), "each package is judged by its own versions")
		sym.Assert(c <= 1, "no package is reported twice")
	}
	for _, o := range got {
		sym.Assert(o.Package != "", "only packages are reported")
	}
}

// The installed packages are read from the library with the versions recorded there.
//
//verif:id C04
//verif:q _time=60
//verif:t _time=200
//verif:reach found
func Verif_ScanLibrary() {
	v := sym.Str("v", 1, 1, "0123456789") + "." + sym.Str("v", 1, 1, "0123456789")
	vos.PutDir("/lib")
	crlf := sym.Pick("eol", "\n", "\r\n")
	vos.Put("/lib/aa/DESCRIPTION", "Package: aa"+crlf+"Version: "+v+crlf+"Title: T"+crlf)
	vos.Put("/lib/bb/DESCRIPTION", "Package: bb\nTitle: T\n  more\nVersion: 2.0\n")
	if sym.Choice("junk", 2) == 1 {
		vos.PutDir("/lib/nodesc")
		vos.Put("/lib/file", "x")
	}
	got := GetPriorInstalledPackages(afero.NewOsFs(), "/lib")
	sym.Assert(len(got) == 2, "exactly the installed packages are found")
	sym.Assert(sym.Eq(got["aa"].Version, v), "the installed version is read")
	sym.Assert(got["bb"].Version == "2.0", "the installed version is read")
	sym.Reach("found")
}
