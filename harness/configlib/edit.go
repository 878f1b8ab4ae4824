package configlib

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	viper "github.com/metrumresearchgroup/pkgr/verifsym/vviper"
)

const verifYml = "/work/pkgr.yml"

// verifFile is a configuration file whose package list is known line by line.
type verifFile struct {
	lines []string
	entry []int    // index into names, or -1
	names []string // listed packages
	list  bool     // there is a package list
	pad   string   // indentation of its entries
	eol   string
	final bool // the last line ends with a line break
}

func (f *verifFile) add(l string) { f.lines = append(f.lines, l); f.entry = append(f.entry, -1) }

func (f *verifFile) addEntry(l, name string) {
	f.lines = append(f.lines, l)
	f.entry = append(f.entry, len(f.names))
	f.names = append(f.names, name)
}

func (f *verifFile) text(drop func(i int) bool) string {
	s := ""
	for i, l := range f.lines {
		if drop != nil && drop(i) {
			continue
		}
		s += l
		if i < len(f.lines)-1 || f.final {
			s += f.eol
		}
	}
	return s
}

const verifAlphabet = "aR."

// verifLayout is an arbitrary configuration file with up to n listed packages.
func verifLayout(n, width int) *verifFile {
	f := &verifFile{eol: sym.Pick("eol", "\n", "\r\n"), final: sym.Choice("final", 2) == 1}
	if sym.Choice("head", 2) == 1 {
		f.add("Version: 1")
		f.add("# - aR top level packages")
		f.add("Tarballs:")
		f.add("  - aRa")
	}
	f.pad = sym.Pick("pad", "", "  ", "    ")
	k := sym.Choice("list", n+2) - 1
	if k >= 0 {
		f.list = true
		f.add(sym.Pick("key", "Packages:", "Packages: ", "Packages: # wanted - all"))
	}
	style := 0
	if k > 0 {
		style = sym.Choice("style", 6)
	}
	for i := 0; i < k; i++ {
		nm := sym.Str("name", 1, width, verifAlphabet)
		sym.Assume(verifName(nm))
		for _, o := range f.names {
			sym.Assume(nm != o)
		}
		switch style {
		case 1:
			f.addEntry(f.pad+"- \""+nm+"\"", nm)
		case 2:
			f.addEntry(f.pad+"- "+nm+" # aR needed", nm)
		case 3:
			if i == 0 {
				f.add(f.pad + "# aRa")
			}
			f.addEntry(f.pad+"- "+nm, nm)
			f.add("")
		case 4:
			f.addEntry(f.pad+"-   "+nm+" ", nm)
			f.add(" # - aR")
		case 5:
			f.addEntry(f.pad+"- '"+nm+"'", nm)
		default:
			f.addEntry(f.pad+"- "+nm, nm)
		}
	}
	switch sym.Choice("tail", 4) {
	case 1:
		f.add("")
		f.add("Repos:")
		f.add("  - aR: /local/a-b")
		f.add("Library: lib")
	case 2:
		f.add("# own settings")
		f.add("Customizations:")
		f.add("  Packages:")
		f.add("    - aR:")
		f.add("        Suggests: true")
	case 3:
		f.add("IgnorePackages:")
		f.add("- aR")
		f.add("- aRa")
		f.add("Suggests: true")
	}
	if len(f.lines) == 0 {
		f.add("Version: 1")
	}
	if f.lines[len(f.lines)-1] == "" {
		f.final = true
	}
	return f
}

// verifName: names start with a letter and do not end with a dot.
func verifName(s string) bool { return sym.And(s[0] != '.', s[len(s)-1] != '.') }

func (f *verifFile) put() {
	vos.Reset()
	viper.Reset()
	vos.PutDir("/work")
	vos.Put(verifYml, f.text(nil))
	viper.SetConfigFile(verifYml)
}

// Removing any name from any layout.
//
//verif:id C20
//verif:q n=2 width=2 _time=200
//verif:t n=3 width=3 _time=800
//verif:reach listed unlisted
func Verif_Remove() {
	f := verifLayout(sym.Param("n", 2), sym.Param("width", 2))
	f.put()
	name := sym.Str("gone", 1, sym.Param("width", 2), verifAlphabet)
	sym.Assume(verifName(name))
	found := false
	for _, o := range f.names {
		if o == name {
			found = true
		}
	}
	if found {
		sym.Reach("listed")
	} else {
		sym.Reach("unlisted")
	}
	err := RemovePackage(name)
	sym.Assert(err == nil, "removing succeeds")
	want := f.text(func(i int) bool { return f.entry[i] >= 0 && f.names[f.entry[i]] == name })
	got := vos.Cat(verifYml)
	sym.Observe("file", got)
	if want != got && f.eol != "" && found && !f.final {
		// the last line went: whether the line break before it stays is not settled
		want2 := strings.TrimSuffix(want, f.eol)
		sym.Assert(sym.Eq(strings.TrimSuffix(got, f.eol), want2), "exactly the entries of the package are removed")
		return
	}
	sym.Assert(sym.Eq(got, want), "exactly the entries of the package are removed")
	sym.Assert(strings.Join(vos.Names("/work"), " ") == "pkgr.yml", "nothing else is left beside the file")
}

// Adding any names to any layout, twice.
//
//verif:id C21
//verif:q n=1 width=2 add=2 _time=300
//verif:t n=2 width=2 add=2 _time=850
//verif:reach added listed empty nolist
func Verif_Add() {
	f := verifLayout(sym.Param("n", 1), sym.Param("width", 2))
	f.put()
	var names, fresh []string
	for i, k := 0, 1+sym.Choice("k", sym.Param("add", 2)); i < k; i++ {
		nm := sym.Str("new", 1, sym.Param("width", 2), verifAlphabet)
		sym.Assume(verifName(nm))
		names = append(names, nm)
		known := false
		for _, o := range append(append([]string{}, f.names...), fresh...) {
			if o == nm {
				known = true
			}
		}
		if !known {
			fresh = append(fresh, nm)
			sym.Reach("added")
		} else {
			sym.Reach("listed")
		}
	}
	if !f.list {
		sym.Reach("nolist")
	} else if len(f.names) == 0 {
		sym.Reach("empty")
	}
	err := AddPackages(names)
	sym.Assert(err == nil, "adding succeeds")
	if err != nil {
		return
	}
	got := vos.Cat(verifYml)
	sym.Observe("file", got)
	f.checkAdded(got, fresh)
	sym.Assert(AddPackages(names) == nil, "adding again succeeds")
	sym.Assert(sym.Eq(vos.Cat(verifYml), got), "adding the same packages again changes nothing")
}

// checkAdded: the old lines in order, and one entry per new package inside the list.
func (f *verifFile) checkAdded(got string, fresh []string) {
	lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	if f.eol == "\n" && strings.HasSuffix(got, "\n") == false && f.final {
		sym.Assert(false, "the file still ends with a line break")
	}
	at := 0 // next old line
	used := make([]bool, len(fresh))
	in, header := false, false
	pads := 0
	left := len(fresh)
	for _, l := range lines {
		if f.eol == "\r\n" {
			l = strings.TrimSuffix(l, "\r") // added lines may end either way
		}
		if at < len(f.lines) && l == f.lines[at] {
			if strings.HasPrefix(l, "Packages:") {
				in = true
			} else if in && f.entry[at] < 0 && l != "" && strings.TrimSpace(l)[0] != '#' && l[0] != ' ' {
				in = false
			}
			at++
			continue
		}
		// an added line
		t := strings.TrimSpace(l)
		if !f.list && at == len(f.lines) && !in && (t == "" || t == "Packages:") {
			if t != "" {
				in, header = true, true
			}
			continue
		}
		pad := len(l) - len(strings.TrimLeft(l, " "))
		ok := false
		for i, n := range fresh {
			if !used[i] && t == "- "+n {
				used[i], ok = true, true
				left--
				break
			}
		}
		sym.Assert(ok, "only entries of the new packages are added")
		sym.Assert(in, "new entries are in the package list")
		if len(f.names) > 0 {
			sym.Assert(pad == len(f.pad), "new entries are indented as the list is")
		} else {
			sym.Assert(pads == 0 || pads-1 == pad, "new entries are indented alike")
			pads = pad + 1
		}
		if !ok {
			return
		}
	}
	sym.Assert(at == len(f.lines), "every existing line stays")
	sym.Assert(left == 0, "every missing package is added")
	sym.Assert(!header || len(fresh) > 0 || len(f.lines) > 0, "a list")
}
