package configlib

import (
	"errors"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	viper "github.com/metrumresearchgroup/pkgr/verifsym/vviper"
)

// Verif_EditCrash: a kill or a failing operation at any point of an edit of the configuration file.
//
//verif:id C38
//verif:q width=1 ops=14 _time=150
//verif:t width=2 ops=20 _time=500
//verif:reach killed failed whole
func Verif_EditCrash() {
	f := &verifFile{eol: "\n", final: true, list: true}
	f.add("Version: 1")
	switch sym.Choice("layout", 3) {
	case 0:
		f.add("Packages:")
		f.addEntry("  - a", "a")
		f.addEntry("  - R2", "R2")
		f.add("Library: lib")
	case 1:
		f.add("Packages:")
	case 2:
		f.add("Library: lib")
	}
	f.put()
	link := sym.Choice("link", 2) == 1
	if link {
		// the configuration is kept elsewhere
		vos.Put("/data/real.yml", f.text(nil))
		vos.Delete(verifYml)
		vos.PutLink(verifYml, "/data/real.yml")
	}
	name := sym.Str("name", 1, sym.Param("width", 1), verifAlphabet)
	sym.Assume(verifName(name))
	add := sym.Choice("add", 2) == 1
	edit := func() (err error, out sym.Outcome) {
		out = sym.Run(func() {
			if add {
				err = AddPackages([]string{name})
			} else {
				err = RemovePackage(name)
			}
		})
		sym.Resume()
		return
	}
	before := f.text(nil)
	// what an undisturbed edit makes of it
	err, _ := edit()
	sym.Assert(err == nil, "the edit succeeds")
	after := vos.Cat(verifYml)
	if link {
		vos.Put("/data/real.yml", before)
	} else {
		vos.Put(verifYml, before)
	}
	at := sym.Choice("op", sym.Param("ops", 14))
	how := sym.Choice("how", 3)
	crash := how == 0
	first := ""
	hit := false
	n := 0
	vos.OnOp = func(op, path string, _ int) error {
		n++
		if n-1 > at && how == 2 && op == first {
			// the cause of the failure lasts
			return errors.New("input/output error")
		}
		if n-1 != at {
			return nil
		}
		first = op
		hit = true
		if crash {
			sym.Crash()
		}
		return errors.New("no space left on device")
	}
	err, out := edit()
	vos.OnOp = nil
	if !hit {
		sym.Reach("whole")
		return
	}
	got := vos.Cat(verifYml)
	sym.Assert(sym.Or(sym.Eq(got, before), sym.Eq(got, after)), "the file has its old or its new content")
	if crash {
		sym.Reach("killed")
	} else {
		sym.Reach("failed")
		sym.Assert(out.Kind == "done", "a failing edit ends")
		sym.Assert(err != nil || sym.Eq(got, after), "an edit that reports success has been made")
	}
	// the edit can be made afterwards
	err, _ = edit()
	sym.Assert(err == nil && sym.Eq(vos.Cat(verifYml), after), "the edit can be repeated")
	sym.Assert(!link || sym.Eq(vos.Cat("/data/real.yml"), after), "a linked file is edited in its place")
}

var _ = viper.Reset
