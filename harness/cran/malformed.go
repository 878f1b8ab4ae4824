package cran

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
)

// Verif_MalformedIndex: any text as a record of a package index, any number of empty lines between records.
//
//verif:id C44
//verif:q n=2 _time=60
//verif:t n=3 _time=400
//verif:reach taken refused blank
func Verif_MalformedIndex() {
	verifUbuntu()
	blank := func(n string, max int) string { return strings.Repeat("\n", sym.Choice(n, max+1)) }
	text := sym.Pick("field", "", "Imports: ", "Depends: R ", "Package: z\nSuggests: s ", "Package: z\nVersion: ") + sym.Str("text", 0, sym.Param("n", 3), "z(:1, \n>")
	body := blank("before", 2) + "Package: a\nVersion: 1.0\nImports: b\n\n" + blank("between", 3) + text + "\n\n" + blank("after", 2) +
		"Package: b\nVersion: 2.0\nDepends: R (>= 3.0)\n" + blank("end", 3)
	if sym.Choice("crlf", 2) == 1 {
		body = strings.ReplaceAll(body, "\n", "\r\n")
	}
	vhttp.Handler = func(url string) vhttp.Reply { return vhttp.Reply{Status: 200, Body: body, Cut: -1} }
	var db *RepoDb
	var err error
	out := sym.Run(func() { db, err = NewRepoDb(RepoURL{Name: "A", URL: "https://a.example"}, Source, RepoConfig{}, RVersion{4, 1, 2}, false) })
	sym.Resume()
	sym.Assert(out.Kind == "done", "no content of a package index is a crash")
	if out.Kind != "done" {
		return
	}
	empty := strings.Trim(text, "\n") == ""
	if empty {
		sym.Reach("blank")
		sym.Assert(err == nil, "empty lines are not a fault")
	}
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("taken")
	m := db.DescriptionsBySourceType[Source]
	a, b := m["a"], m["b"]
	sym.Assert(a.Version == "1.0" && b.Version == "2.0", "the other records are taken as they are")
	_, dep := a.Imports["b"]
	sym.Assert(dep && len(a.Imports) == 1, "the other records are taken as they are")
	if empty {
		sym.Assert(len(m) == 2, "nothing else is taken")
	}
}
