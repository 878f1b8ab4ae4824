package rcmd

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// Verif_StampFails: a kill or a failing operation at any point of recording where a package came from.
//
//verif:id C18
//verif:q ops=12 _time=60
//verif:t ops=30 _time=100
//verif:reach killed failed
func Verif_StampFails() {
	verifPlainMachine()
	text := "Package: p\nVersion: 1.0\n" + sym.Pick("old", "", "Repository: CRAN\n", "PkgrVersion: 0.1\nTitle: t\n")
	vexec.Handler = func(c *vexec.Cmd) vexec.Result {
		vos.Put("/lib/p/DESCRIPTION", text)
		return vexec.Result{}
	}
	ir := InstallRequest{Package: "p", ExecSettings: ExecSettings{WorkDir: "/work", PkgrVersion: "3.1"},
		Metadata: cran.Download{Path: "/work/p.tar.gz", Metadata: cran.PkgDl{Package: desc.Desc{Package: "p", Version: "1.0"},
			Config: cran.PkgConfig{Repo: cran.RepoURL{Name: "R", URL: "https://r.example"}}}}}
	at := sym.Choice("op", sym.Param("ops", 12))
	crash := sym.Choice("how", 2) == 0
	n, hit := 0, false
	vos.OnOp = func(op, path string, _ int) error {
		if !strings.HasPrefix(path, "/lib") {
			return nil
		}
		n++
		if n-1 != at {
			return nil
		}
		hit = true
		if crash {
			sym.Crash()
		}
		return errors.New("no space left on device")
	}
	out := sym.Run(func() {
		Install(afero.NewOsFs(), "p", "/work/p.tar.gz", InstallArgs{Library: "/lib"}, RSettings{Rpath: "R", Version: cran.RVersion{Major: 4}},
			ir.ExecSettings, ir)
	})
	sym.Resume()
	vos.OnOp = nil
	if !hit {
		return
	}
	if crash {
		sym.Reach("killed")
	} else {
		sym.Assert(out.Kind == "done", "the install ends")
		sym.Reach("failed")
	}
	got := vos.Cat("/lib/p/DESCRIPTION")
	whole := strings.Contains(got, "\nPkgrVersion: 3.1\nPkgrInstallType: ") && strings.HasSuffix(got, "PkgrRepositoryURL: https://r.example\n") && strings.HasPrefix(got, "Package: p\nVersion: 1.0\n")
	sym.Assert(got == text || whole, "a record that could not be written is as it was")
}
