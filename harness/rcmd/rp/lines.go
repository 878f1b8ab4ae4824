package rp

import (
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

const verifText = "[]1 a>\n"

func verifBlank(c byte) bool { return sym.Or(c == ' ', c == '\t', c == '\r') }

// verifScan states what the lines of R output are, character by character.
func verifScan(s string, only bool) []string {
	var out []string
	line := ""
	flush := func() {
		l := line
		line = ""
		if len(l) > 1 && l[0] == '[' {
			i := 1
			for i < len(l) && sym.And(l[i] >= '0', l[i] <= '9') {
				i++
			}
			if i > 1 && i < len(l) && l[i] == ']' {
				l = l[i+1:]
			}
		}
		for l != "" && verifBlank(l[0]) {
			l = l[1:]
		}
		for l != "" && verifBlank(l[len(l)-1]) {
			l = l[:len(l)-1]
		}
		if l == "" || only && l[0] == '>' {
			return
		}
		out = append(out, l)
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			flush()
			continue
		}
		line += s[i : i+1]
	}
	flush()
	return out
}

// Any R output.
//
//verif:id C33
//verif:q n=4 _time=200
//verif:t n=6 _time=850
//verif:reach some empty
func Verif_Lines() {
	s := sym.Str("out", 0, sym.Param("n", 4), verifText)
	only := sym.Choice("only", 2) == 1
	var got []string
	if only {
		got = ScanROutput([]byte(s), true)
	} else {
		got = ScanLines([]byte(s))
	}
	want := verifScan(s, only)
	if len(want) > 0 {
		sym.Reach("some")
	} else {
		sym.Reach("empty")
	}
	sym.Assert(len(got) == len(want), "every line of output is kept")
	if len(got) == len(want) {
		for i := range want {
			sym.Assert(sym.Eq(got[i], want[i]), "a line loses only R's index and surrounding blanks")
		}
	}
}
