package desc

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// Verif_MalformedDep: any text as a dependency.
//
//verif:id C44
//verif:q n=4 _time=60
//verif:t n=6 _time=400
//verif:reach operator unusable
func Verif_MalformedDep() {
	text := sym.Str("text", 0, sym.Param("n", 4), "b(>=!1.) ")
	var d Dep
	out := sym.Run(func() { d = ParseDep(text) })
	sym.Resume()
	sym.Assert(out.Kind == "done", "no text of a dependency is a crash")
	name, rest := text, ""
	if i := strings.Index(text, "("); i >= 0 {
		name, rest = text[:i], text[i+1:]
	}
	sym.Assert(sym.Eq(d.Name, strings.TrimSpace(name)), "the name is what is before the constraint")
	if strings.ContainsAny(rest, "><=!") {
		sym.Reach("operator")
		return
	}
	if rest != "" {
		sym.Reach("unusable")
	}
	sym.Assert(d.Constraint == None, "without an operator there is no constraint")
}

// Verif_MalformedDescription: any line in a DESCRIPTION file.
//
//verif:id C44
//verif:q n=3 _time=60
//verif:t n=5 _time=400
//verif:reach parsed refused
func Verif_MalformedDescription() {
	line := sym.Str("line", 0, sym.Param("n", 3), "bI:(1,) \n")
	field := sym.Pick("field", "", "Imports: ", "Depends: ", "Suggests:", "LinkingTo: b,", "Version: ")
	text := "Package: x\nTitle: t\n" + field + line + "\nRepository: r\n"
	if sym.Choice("first", 2) == 1 {
		text = field + line + "\nPackage: x\nRepository: r\n"
	}
	var d Desc
	var err error
	out := sym.Run(func() { d, err = ParseDesc(strings.NewReader(text)) })
	sym.Resume()
	sym.Assert(out.Kind == "done", "no line of a DESCRIPTION file is a crash")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("parsed")
	sym.Assert(d.Package == "x" || d.Package == "", "the line changes no other field")
	sym.Assert(d.Repository == "r" || d.Repository == "", "the line changes no other field")
}
