package rcmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
)

// What R prints about itself, in any order, between other lines.
//
//verif:id C33
//verif:q d=1 noise=3 _time=200
//verif:t d=2 noise=5 _time=800
//verif:reach read
func Verif_RVersion() {
	verifPlainMachine()
	num := func(n string) (string, int) {
		s := sym.Str(n, 1, sym.Param("d", 1), "0123456789")
		v := 0
		for i := 0; i < len(s); i++ {
			v = v*10 + int(s[i]-'0')
		}
		return s, v
	}
	as, a := num("major")
	bs, b := num("minor")
	cs, c := num("patch")
	sym.Assume(sym.Or(a != 0, b != 0))
	plat := sym.Str("platform", 1, 3, "ax_-") + "6"
	vline := "R version " + as + "." + bs + "." + cs + sym.Pick("vrest", "", " (2021-05-18) -- \"Camp\"", " Patched")
	pline := "Platform: " + plat + sym.Pick("prest", "", " (64-bit)", " ")
	noise := []string{}
	if sym.Choice("noise", 2) == 1 {
		noise = append(noise, sym.Str("text", 0, sym.Param("noise", 3), "RvP: "))
		sym.Assume(!strings.HasPrefix(strings.TrimSpace(noise[0]), "R version") && !strings.HasPrefix(strings.TrimSpace(noise[0]), "Platform:"))
	}
	var lines []string
	if sym.Choice("order", 2) == 0 {
		lines = []string{vline, pline}
	} else {
		lines = []string{pline, vline}
	}
	at := sym.Choice("at", 3)
	lines = append(append(append([]string{}, lines[:at]...), noise...), lines[at:]...)
	lines = append(lines, "", "R is free software and comes with ABSOLUTELY NO WARRANTY.", "see the Platform: notes and R version 9.9.9")
	eol := sym.Pick("eol", "\n", "\r\n")
	vexec.Handler = func(*vexec.Cmd) vexec.Result { return vexec.Result{Stdout: strings.Join(lines, eol) + eol} }
	rs := NewRSettings("/opt/R")
	v := GetRVersion(&rs)
	sym.Reach("read")
	sym.Assert(sym.And(v.Major == a, v.Minor == b, v.Patch == c), "the version is the one R prints")
	sym.Assert(sym.Eq(rs.Platform, plat), "the platform is the one R prints")
	sym.Assert(len(vexec.Calls) == 1 && strings.Join(vexec.Calls[0].Args, " ") == "/opt/R --version", "R is asked once")
}
