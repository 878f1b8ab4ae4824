package desc

import (
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

var verifOps = []struct {
	s string
	c Constraint
}{{"", None}, {">=", GTE}, {">", GT}, {"==", Equals}, {"<=", LTE}, {"<", LT}, {"!=", NotEquals}}

// verifDep is an arbitrary dependency as text, with the pieces it is made of.
func verifDep(name string) (text, pkg, version string, op Constraint) {
	n := sym.Param("name", 4)
	ws := func(k string, max int) string { return sym.Str(name+k, 0, sym.Param("ws", 1)*max, " \t\n") }
	// names start with a letter; letters, digits and dots follow
	pkg = sym.Str(name+".first", 1, 1, "aRzL") + sym.Str(name+".rest", 0, n-1, "aR.19z")
	o := verifOps[sym.Choice(name+".op", len(verifOps))]
	text = ws(".w0", 1) + pkg + ws(".w1", 1)
	if o.c == None {
		return text, pkg, "", None
	}
	version = sym.Str(name+".v", 1, 1, "0123456789")
	for i, k := 0, sym.Choice(name+".vn", sym.Param("vcomp", 3)); i < k; i++ {
		version += sym.Str(name+".sep", 1, 1, ".-") + sym.Str(name+".d", 1, 1, "0123456789")
	}
	text += "(" + ws(".w2", 1) + o.s + ws(".w3", 1) + version + ws(".w4", 1) + ")" + ws(".w5", 1)
	return text, pkg, version, o.c
}

// A dependency text gives its own name, operator and version.
//
//verif:id C02
//verif:q name=3 ws=1 vcomp=3 _time=60
//verif:t name=6 ws=2 vcomp=5 _time=500
//verif:reach plain constrained
func Verif_ParseDep() {
	text, pkg, version, op := verifDep("d")
	d := ParseDep(text)
	sym.Observe("name", d.Name)
	sym.Observe("op", int(d.Constraint))
	sym.Assert(sym.Eq(d.Name, pkg), "the name is read exactly")
	sym.Assert(d.Constraint == op, "the operator is read exactly")
	if op == None {
		sym.Reach("plain")
		return
	}
	sym.Reach("constrained")
	sym.Assert(sym.Eq(d.Version.String, version), "the version text is read exactly")
	sym.Assert(CompareVersions(d.Version, ParseVersion(version)) == 0, "the version value is read exactly")
}

// Rendering and reading again gives the same dependency.
//
//verif:id C02
//verif:q name=3 ws=0 vcomp=3 _time=60
//verif:t name=5 ws=0 vcomp=4 _time=300
func Verif_RenderDep() {
	text, _, _, _ := verifDep("d")
	d := ParseDep(text)
	r := ParseDep(d.ToString())
	sym.Assert(sym.Eq(r.Name, d.Name), "same name after rendering")
	sym.Assert(r.Constraint == d.Constraint, "same operator after rendering")
	sym.Assert(sym.Eq(r.Version.String, d.Version.String), "same version after rendering")
	sym.Assert(CompareVersions(r.Version, d.Version) == 0, "same version value after rendering")
}
