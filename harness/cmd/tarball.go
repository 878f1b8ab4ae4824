package cmd

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/gpsr"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	archives "github.com/metrumresearchgroup/pkgr/verifsym/varchives"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifUnpacked tells whether the directory holds exactly the files of version v of package t.
func verifUnpacked(dir, v string) bool {
	return strings.Join(vos.Tree(dir), "\n") == strings.Join([]string{
		dir + "/DESCRIPTION=Package: t\nVersion: " + v + "\n",
		dir + "/R/",
		dir + "/R/code.R=f <- " + v,
		dir + "/R/more.R=g <- " + v,
	}, "\n")
}

func verifTar(v string) string {
	es := []archives.Entry{
		{Name: "t/DESCRIPTION", Data: "Package: t\nVersion: " + v + "\n"},
		{Name: "t/R/code.R", Data: "f <- " + v},
		{Name: "t/R/more.R", Data: "g <- " + v},
	}
	return archives.Tarball("t"+v, es...)
}

// Verif_Unpack: a kill or failure at every operation of the unpacking, then further runs.
//
//verif:id C24
//verif:q _time=200 ops=30
//verif:t _time=700 ops=40 two=1
//verif:reach crash fault again changed corrupt
func Verif_Unpack() {
	verifMachine()
	if sym.Choice("default", 2) == 1 {
		cfg.Cache = ""
	}
	const f = "/work/t.tar.gz"
	whole := verifTar("1")
	vos.Put(f, whole)
	corrupt := sym.Choice("corrupt", 2) == 1
	if corrupt {
		// cut short: unpacking yields a part of the entries, then an error
		vos.Put(f, whole[:len(whole)-2])
	}
	var d []desc.Desc
	var m map[string]gpsr.AdditionalPkg
	run := func() sym.Outcome {
		d, m = nil, nil
		out := sym.Run(func() { d, m = unpackTarballs(fs, []string{f}, cfg.Cache) })
		sym.Resume()
		return out
	}
	check := func(out sym.Outcome, v string) {
		if out.Kind == "done" {
			sym.Assert(len(d) == 1 && d[0].Version == v, "the description of the package is that of the tarball")
			sym.Assert(len(m) == 1 && m["t"].OriginPath == f, "the tarball is known")
			sym.Assert(verifUnpacked(m["t"].InstallPath, v), "an unpacked tarball is complete")
		}
	}
	disturbed := func(label string) {
		kind := sym.Choice(label, 3)
		if kind == 0 {
			check(run(), "1")
			return
		}
		at := sym.Choice(label+".at", sym.Param("ops", 30))
		hit := false
		vos.OnOp = func(op, path string, n int) error {
			if n != at || hit {
				return nil
			}
			hit = true
			if kind == 1 {
				sym.Reach("crash")
				sym.Crash()
			}
			sym.Reach("fault")
			return errors.New("input/output error")
		}
		vos.Ops = 0
		out := run()
		vos.OnOp = nil
		sym.Assume(hit)
		sym.Assert(out.Kind == "done" || out.Kind == "crashed" || out.Kind == "exited" && out.Code != 0, "a run that cannot unpack fails")
		check(out, "1")
	}
	if corrupt {
		sym.Reach("corrupt")
		out := run()
		sym.Assert(out.Kind == "exited" && out.Code != 0, "a tarball that cannot be unpacked is refused")
		if sym.Choice("repaired", 2) == 0 {
			out := run()
			sym.Assert(out.Kind == "exited" && out.Code != 0, "a tarball that cannot be unpacked is refused")
			return
		}
		vos.Put(f, whole)
	} else {
		disturbed("first")
		if sym.Param("two", 0) == 1 {
			disturbed("second")
		}
	}
	out := run()
	sym.Assert(out.Kind == "done", "the next run succeeds")
	check(out, "1")
	switch sym.Choice("then", 3) {
	case 1:
		sym.Reach("again")
		out := run()
		sym.Assert(out.Kind == "done", "the next run succeeds")
		check(out, "1")
	case 2:
		sym.Reach("changed")
		vos.Put(f, verifTar("2"))
		out := run()
		sym.Assert(out.Kind == "done", "the next run succeeds")
		check(out, "2")
		vos.Put(f, whole)
		out = run()
		sym.Assert(out.Kind == "done", "the next run succeeds")
		check(out, "1")
	}
}

// Verif_TarballContents: two tarballs of any size that differ in one place, and one that is replaced.
//
//verif:id C24
//verif:q _time=100 sizes=3
//verif:t _time=300 sizes=4
//verif:reach two replaced
func Verif_TarballContents() {
	verifMachine()
	pad := strings.Repeat("x", []int{0, 5000, 70000, 1100000}[sym.Choice("size", sym.Param("sizes", 3))])
	end := sym.Choice("end", 2) == 1
	tar := func(pkg, v string) string {
		id := pkg + v + pad
		if end {
			id = pad + pkg + v
		}
		return archives.Tarball(id,
			archives.Entry{Name: pkg + "/DESCRIPTION", Data: "Package: " + pkg + "\nVersion: " + v + "\n"},
			archives.Entry{Name: pkg + "/R/code.R", Data: "f <- " + v})
	}
	if sym.Choice("replaced", 2) == 1 {
		sym.Reach("replaced")
		for _, v := range []string{"1", "2", "1"} {
			vos.Put("/work/t.tar.gz", tar("t", v))
			var d []desc.Desc
			var m map[string]gpsr.AdditionalPkg
			out := sym.Run(func() { d, m = unpackTarballs(fs, []string{"/work/t.tar.gz"}, cfg.Cache) })
			sym.Resume()
			sym.Assert(out.Kind == "done" && len(d) == 1 && d[0].Version == v, "the description of the package is that of the tarball")
			sym.Assert(vos.Cat(m["t"].InstallPath+"/R/code.R") == "f <- "+v, "what is installed is the content of the tarball")
		}
		return
	}
	sym.Reach("two")
	vos.Put("/work/t.tar.gz", tar("t", "1"))
	vos.Put("/work/u.tar.gz", tar("u", "1"))
	var d []desc.Desc
	var m map[string]gpsr.AdditionalPkg
	out := sym.Run(func() { d, m = unpackTarballs(fs, []string{"/work/t.tar.gz", "/work/u.tar.gz"}, cfg.Cache) })
	sym.Resume()
	sym.Assert(out.Kind == "done" && len(d) == 2 && len(m) == 2, "every tarball is unpacked")
	for _, p := range []string{"t", "u"} {
		sym.Assert(m[p].OriginPath == "/work/"+p+".tar.gz" && strings.HasPrefix(vos.Cat(m[p].InstallPath+"/DESCRIPTION"), "Package: "+p+"\n"), "what is installed is the content of the tarball")
	}
}
