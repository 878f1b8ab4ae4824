package cmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	archives "github.com/metrumresearchgroup/pkgr/verifsym/varchives"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// Verif_Malformed: damaged descriptions in the library, of a tarball and in a file, and odd things in the library.
//
//verif:id C44
//verif:q n=2 _time=100
//verif:t n=3 _time=400
//verif:reach library refused taken
func Verif_Malformed() {
	verifMachine(verifPkg{"aa", "1.0", "Imports: bb\n"}, verifPkg{"bb", "1.0", ""})
	cfg.Packages = []string{"aa"}
	vos.PutDir(verifLib)
	ip, out := verifPlan()
	sym.Assert(out.Kind == "done", "the plan is made")
	want := strings.Join(verifPlanned(ip), " ")
	field := sym.Pick("field", "", "Imports: ", "Depends: bb ", "Version: ", "Package: x\nSuggests: bb, ")
	text := field + sym.Str("text", 0, sym.Param("n", 2), "b(:>, \n")
	switch sym.Choice("head", 3) {
	case 1:
		text = "Package: zz\nVersion: 1.0\n" + text
	case 2:
		text += "\nPackage: zz\nVersion: 1.0"
	}
	if sym.Choice("newline", 2) == 1 {
		text += "\n"
	}
	place := sym.Choice("place", 4)
	switch place {
	case 0:
		vos.Put(verifLib+"/zz/DESCRIPTION", text)
	case 1:
		switch sym.Choice("odd", 5) {
		case 0:
			vos.PutDir(verifLib + "/zz")
		case 1:
			vos.PutDir(verifLib + "/zz/DESCRIPTION")
		case 2:
			vos.Put(verifLib+"/zz", text)
		case 3:
			vos.PutLink(verifLib+"/zz", "nowhere")
		case 4:
			vos.PutDir(verifLib + "/zz")
			vos.PutLink(verifLib+"/zz/DESCRIPTION", "DESCRIPTION")
		}
	case 2:
		vos.Put("/work/D", text)
		cfg.Descriptions = []string{"/work/D"}
	case 3:
		entries := []archives.Entry{{Name: "zz", Mode: 1 << 31}, {Name: "zz/DESCRIPTION", Data: text}}
		switch sym.Choice("inside", 4) {
		case 1:
			entries = entries[:1]
		case 2:
			entries = []archives.Entry{{Name: "DESCRIPTION", Data: text}}
		case 3:
			entries = nil
		}
		vos.Put("/work/zz.tar.gz", archives.Tarball("zz", entries...))
		cfg.Tarballs = []string{"/work/zz.tar.gz"}
	}
	vos.Delete("/home/u/.cache")
	ip, out = verifPlan()
	if place < 2 {
		sym.Reach("library")
		sym.Assert(out.Kind == "done", "nothing in the library is a crash")
		sym.Assert(strings.Join(verifPlanned(ip), " ") == want, "nothing malformed in the library changes the plan")
		return
	}
	sym.Assert(out.Kind == "done" || out.Kind == "exited" && out.Code != 0, "no description of a package is a crash")
	if out.Kind == "exited" {
		sym.Reach("refused")
		return
	}
	sym.Reach("taken")
	for _, p := range []string{"aa 1.0 R", "bb 1.0 R"} {
		sym.Assert(strings.Contains(strings.Join(verifPlanned(ip), " "), p), "what is requested otherwise is planned as without it")
	}
}
