package desc

import (
	"fmt"
	"sort"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// verifVersion is an arbitrary version of 1..maxc numeric components with 1..digits digits each.
func verifVersion(name string, minc, maxc, digits int) (string, [5]int) {
	var vals [5]int
	n := minc + sym.Choice(name+".n", maxc-minc+1)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += string([]byte{sym.Byte(fmt.Sprintf("%s.sep%d", name, i), ".-")})
		}
		d := sym.Str(fmt.Sprintf("%s.c%d", name, i), 1, digits, "0123456789")
		v := 0
		for k := 0; k < len(d); k++ {
			v = v*10 + int(d[k]-'0')
		}
		vals[i] = v
		s += d
	}
	return s, vals
}

// verifCmp compares component by component, numerically.
func verifCmp(a, b [5]int) int {
	r := 0
	for i := 4; i >= 0; i-- {
		r = sym.IteInt(a[i] < b[i], -1, sym.IteInt(a[i] > b[i], 1, r))
	}
	return r
}

// CompareVersionStrings against the numeric left-to-right comparison, over all pairs of versions.
//
//verif:id C01
//verif:q minc=1 maxc=5 digits=1 _time=60
//verif:t digits=2 _time=600
//verif:reach lt gt eq
func Verif_CompareStrings() {
	minc, maxc, dg := sym.Param("minc", 1), sym.Param("maxc", 5), sym.Param("digits", 1)
	a, av := verifVersion("a", minc, maxc, dg)
	b, bv := verifVersion("b", minc, maxc, dg)
	got := CompareVersionStrings(a, b)
	want := verifCmp(av, bv)
	sym.Observe("got", got)
	sym.Assert(got == want, "comparison is numeric, left to right")
	switch {
	case want < 0:
		sym.Reach("lt")
	case want > 0:
		sym.Reach("gt")
	default:
		sym.Reach("eq")
	}
}

// Components of very different widths (the comparison must not be textual).
//
//verif:id C01
//verif:q digits=6 _time=60
//verif:t digits=8 _time=300
func Verif_CompareWide() {
	dg := sym.Param("digits", 3)
	pos := sym.Choice("pos", 5)
	build := func(n string) (string, int) {
		d := sym.Str(n, 1, dg, "0123456789")
		v := 0
		for k := 0; k < len(d); k++ {
			v = v*10 + int(d[k]-'0')
		}
		s := ""
		for i := 0; i < 5; i++ {
			if i > 0 {
				s += "."
			}
			if i == pos {
				s += d
			} else {
				s += "7"
			}
		}
		return s, v
	}
	a, av := build("a")
	b, bv := build("b")
	got := CompareVersionStrings(a, b)
	sym.Observe("got", got)
	sym.Assert(got == sym.IteInt(av < bv, -1, sym.IteInt(av > bv, 1, 0)), "one differing component decides")
}

// A component decides whatever comes after it, however large.
//
//verif:id C01
//verif:q digits=6 wide=8 _time=100
//verif:t digits=8 wide=10 _time=300
//verif:reach short long
func Verif_CompareLater() {
	pos := sym.Choice("pos", 4)
	after := pos + 1 + sym.Choice("after", 4-pos)
	num := func(n string, lo, hi int) (string, int) {
		d := sym.Str(n, lo, hi, "0123456789")
		v := 0
		for k := 0; k < len(d); k++ {
			v = v*10 + int(d[k]-'0')
		}
		return d, v
	}
	build := func(n string, width int) (string, int, int) {
		d, v := num(n, 1, 1)
		l, lv := num(n+".later", width, width)
		s := ""
		for i := 0; i <= after; i++ {
			if i > 0 {
				s += "."
			}
			switch i {
			case pos:
				s += d
			case after:
				s += l
			default:
				s += "7"
			}
		}
		return s, v, lv
	}
	widths := []int{1, sym.Param("digits", 6), sym.Param("wide", 8)}
	wa, wb := widths[sym.Choice("wa", 3)], widths[sym.Choice("wb", 3)]
	if wa == wb {
		sym.Reach("short")
	} else {
		sym.Reach("long")
	}
	a, av, al := build("a", wa)
	b, bv, bl := build("b", wb)
	want := sym.IteInt(av < bv, -1, sym.IteInt(av > bv, 1, sym.IteInt(al < bl, -1, sym.IteInt(al > bl, 1, 0))))
	got := CompareVersionStrings(a, b)
	sym.Observe("got", got)
	sym.Assert(got == want, "an earlier component decides")
}

// Sorting follows the comparison.
//
//verif:id C01
//verif:q n=3 maxc=4 _time=60
//verif:t n=3 maxc=5 _time=300
func Verif_SortVersions() {
	n := sym.Param("n", 3)
	nc := 1 + sym.Choice("nc", sym.Param("maxc", 4))
	var vs Versions
	for i := 0; i < n; i++ {
		s := ""
		for c := 0; c < nc; c++ {
			if c > 0 {
				s += "."
			}
			s += string([]byte{sym.Byte(fmt.Sprintf("v%d.%d", i, c), "0123456789")})
		}
		vs = append(vs, ParseVersion(s))
	}
	sort.Sort(vs)
	for i := 0; i+1 < n; i++ {
		sym.Assert(CompareVersions(vs[i], vs[i+1]) <= 0, "sorted versions are in comparison order")
	}
	sym.Observe("first", vs[0].String)
}
