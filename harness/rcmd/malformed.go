package rcmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
)

// Verif_MalformedVersion: anything R may say about itself.
//
//verif:id C44
//verif:q n=5 _time=60
//verif:t n=8 _time=400
//verif:reach read refused
func Verif_MalformedVersion() {
	verifPlainMachine()
	start := sym.Pick("start", "", "R version ", "R version 4.1.2", "Platform:", "R")
	text := start + sym.Str("text", 0, sym.Param("n", 5), "R.4: x\n")
	if sym.Choice("more", 2) == 1 {
		text += "\nR version 4.1.2 (2021)\nPlatform: x\n"
	}
	code := sym.Choice("code", 2)
	vexec.Handler = func(*vexec.Cmd) vexec.Result { return vexec.Result{Stdout: text, Exit: code} }
	var v cran.RVersion
	out := sym.Run(func() {
		rs := NewRSettings("R")
		v = GetRVersion(&rs)
	})
	sym.Resume()
	sym.Assert(out.Kind == "done" || out.Kind == "exited" && out.Code != 0, "no output of R is a crash")
	if out.Kind != "done" {
		sym.Reach("refused")
		return
	}
	sym.Reach("read")
	if !strings.Contains(text, "R version") {
		sym.Assert(v.Major == 0 && v.Minor == 0, "no version is made up")
	}
}
