package cmd

import (
	"fmt"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// verifLists are the ways to write a list of the packages A and B, or of fewer.
var verifLists = []struct {
	text string
	n    int
}{
	{"Packages:\n  - A\n  - B\n", 2},
	{"Packages:\n- A # B\n# - B\n- \"B\"\n", 2},
	{"Packages: [A, B]\n", 2},
	{"Packages: [ A,\n  B ]\n", 2},
	{"Packages: # all\n  [A, B]\n", 2},
	{"Packages: []\n", 0},
	{"Packages:\n  []\n", 0},
	{"Packages: null\n", 0},
	{"Packages: ~ # none\n", 0},
	{"", 0},
	{"packages:\n  - A\n  - B\n", 2},
	{"PACKAGES: [A]\n", 1},
	{"\"Packages\":\n  - A\n  - B\n", 2},
	{"Packages :\n  - A\n  - B\n", 2},
	{"Packages: &all\n  - A\n  - B\n", 2},
	{"Packages: !!seq\n  - A\n  - B\n", 2},
	{"? Packages\n: - A\n  - B\n", 2},
	{"Packages:\n  -\n    A\n  - B\n", 2},
	{"Packages:\n  - A\n  - >-\n    B\n", 2},
	{"Packages:\n\n  - A\n\n\n  - 'B' \n", 2},
	{"Packages:\n  - &first A\n  - B\n", 2},
	{"Packages:\n  -\tA\n  -   B\n", 2},
	{"Packages:\n  - A\n  - B\nIgnorePackages:\n  - A\n  - pq\n", 2},
	{"Tarballs:\n  - A\nPackages:\n  - A\n", 1},
	{"Packages:\n  - A\n# Packages:\n  - B\n", 2},
}

func verifRead() (string, []string, bool) {
	vviper.Reset()
	full.Use()
	cfg = configlib.PkgrConfig{}
	vos.Chdir("/work")
	out := sym.Run(initConfig)
	sym.Resume()
	if out.Kind != "done" {
		return "", nil, false
	}
	rest := cfg
	rest.Packages = nil
	return fmt.Sprint(rest), cfg.Packages, true
}

// Verif_EditedMeaning: what the configuration means after an edit, for every way to write it.
//
//verif:id C46
//verif:q _time=200 _init=1
//verif:t _time=600 _init=1 width=2
//verif:reach added removed refused unlisted again
func Verif_EditedMeaning() {
	verifMachine()
	full.Use()
	width := sym.Param("width", 1)
	a := "p" + sym.Str("a", 1, width, "xX.")
	b := "p" + sym.Str("b", 1, width, "xX.")
	sym.Assume(a[len(a)-1] != '.' && b[len(b)-1] != '.' && a != b)
	l := verifLists[sym.Choice("list", len(verifLists))]
	text := strings.Replace(strings.Replace(l.text, "B", b, -1), "A", a, -1)
	text = strings.Replace(strings.Replace(text, "P"+a+"CK"+a+"GES", "PACKAGES", -1), "P"+a+"ckages", "Packages", -1)
	old := []string{a, b}[:l.n]
	plain := strings.HasPrefix(text, "Packages:\n  - p") || strings.HasPrefix(text, "Packages:\n- p") || text == ""
	text = [][]string{
		{"Version: 1\nLibrary: lib\n", "Repos:\n  - R: " + verifURL + "\nThreads: 3\n"},
		{"", "Version: 1\nLibrary: lib\nThreads: 2\n"},
		{"Version: 1\nLibrary: lib\nSuggests: true\n", ""},
		{"---\nVersion: 1\nLibrary: lib\n", "...\n"},
	}[sym.Choice("around", 4)][0] + text + "@"
	after := []string{"Repos:\n  - R: " + verifURL + "\nThreads: 3\n", "Version: 1\nLibrary: lib\nThreads: 2\n", "", "...\n"}
	for i, h := range []string{"Version: 1\nLibrary: lib\n", "", "Version: 1\nLibrary: lib\nSuggests: true\n", "---\n"} {
		if i != 1 && strings.HasPrefix(text, h) && !(i == 0 && strings.HasPrefix(text, h+"Suggests")) {
			text = strings.Replace(text, "@", after[i], 1)
		}
	}
	text = strings.Replace(text, "@", after[1], 1)
	if sym.Choice("indented", 2) == 1 {
		sym.Assume(!strings.HasPrefix(text, "---"))
		plain = false
		text = " " + strings.TrimSuffix(strings.Replace(text, "\n", "\n ", -1), " ")
	}
	plain = plain && !strings.Contains(text, "...") && !strings.Contains(text, ">-") && !strings.Contains(text, "- &")
	vos.Put("/work/pkgr.yml", text)
	rest, pkgs, ok := verifRead()
	sym.Assume(ok)
	sym.Assert(strings.Join(pkgs, " ") == strings.Join(old, " "), "the list is read")
	c := "p" + sym.Str("c", 1, width, "xX.")
	sym.Assume(c[len(c)-1] != '.')
	names := []string{c}
	var want []string
	add := sym.Choice("add", 2) == 1
	if add {
		if sym.Choice("two", 2) == 1 {
			names = []string{c, "qq"}
		}
		want = append(want, old...)
		for _, n := range names {
			if !stringInSlice(n, want) {
				want = append(want, n)
			}
		}
	} else {
		for _, n := range old {
			if n != c {
				want = append(want, n)
			}
		}
	}
	if len(want) == len(old) {
		sym.Reach("unlisted")
	}
	command := "remove"
	if add {
		command = "add"
	}
	for i := 0; i < 2; i++ {
		vviper.Reset()
		full.Use()
		cfg = configlib.PkgrConfig{}
		vos.Chdir("/work")
		RootCmd.SetArgs(append([]string{command}, names...))
		out := sym.Run(Execute)
		sym.Resume()
		sym.Assert(len(vexec.Calls) == 0 && len(vhttp.Requests) == 0, "an edit starts and fetches nothing")
		sym.Assert(strings.Join(vos.Names("/work"), " ") == "pkgr.yml", "nothing is left beside the file")
		if out.Kind != "done" {
			sym.Assert(out.Kind == "exited" && out.Code != 0, "a refused edit has a status")
			sym.Assert(vos.Cat("/work/pkgr.yml") == text, "a refused edit changes nothing")
			sym.Assert(len(want) != len(old), "nothing is to be done")
			sym.Assert(!plain, "a plain list is edited")
			sym.Reach("refused")
			return
		}
		now, pkgs, ok := verifRead()
		sym.Assert(ok, "the edited configuration can be read")
		sym.Assert(now == rest, "other settings stay")
		sym.Assert(len(pkgs) == len(want), "the list has the right number of packages")
		for _, n := range want {
			sym.Assert(stringInSlice(n, pkgs), "the list has the right packages")
		}
		if i == 0 {
			text = vos.Cat("/work/pkgr.yml")
			sym.Reach([]string{"removed", "added"}[len(names)-1+b2i(add && len(names) == 1)])
		} else {
			sym.Assert(vos.Cat("/work/pkgr.yml") == text, "editing again changes nothing")
			sym.Reach("again")
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
