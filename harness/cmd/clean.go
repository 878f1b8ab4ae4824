package cmd

import (
	"path"
	"sort"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifFiles lists the files and directories below a path with their contents.
func verifFiles(dirs ...string) map[string]bool {
	r := map[string]bool{}
	for _, d := range dirs {
		for _, l := range vos.Tree(d) {
			r[l] = true
		}
	}
	return r
}

// verifUnpack puts the tarball of a package into the cache, as a plan does, and gives the directory.
func verifUnpack(w *verifWorld, pkg, cache string) string {
	before := map[string]bool{}
	for _, n := range vos.Names(cache) {
		before[n] = true
	}
	unpackTarballs(fs, []string{w.tarball[pkg]}, cfg.Cache)
	for _, n := range vos.Names(cache) {
		if !before[n] {
			return path.Join(cache, n)
		}
	}
	return ""
}

// Verif_CleanCache: every content of the cache, every selection.
//
//verif:id C22
//verif:q _time=200 folders=2
//verif:t _time=700 folders=3
//verif:reach missing default both
func Verif_CleanCache() {
	w := verifMachine()
	cache := "/cache"
	if sym.Choice("default", 2) == 1 {
		sym.Reach("default")
		cfg.Cache, cache = "", "/home/u/.cache/pkgr"
		vos.Put("/home/u/.cache/other/src/x", "keep")
	}
	vos.Put(verifLib+"/a/src/x", "keep")
	vos.Put("/work/src/x", "keep")
	vos.Put("/work/A/src/x", "keep")
	type folder struct {
		name              string
		src, binary, more int
	}
	var fs_ []folder
	names := []string{"A-1", "A-12", "B-2"}[:sym.Param("folders", 2)]
	exists := sym.Choice("exists", 2) == 1
	tar := 0
	unpacked, other := "", ""
	if exists {
		vos.PutDir(cache)
		for i, n := range names {
			f := folder{name: n}
			if sym.Choice("present "+n, 2) == 0 {
				continue
			}
			f.src = sym.Choice("src "+n, 3)
			f.binary = sym.Choice("binary "+n, 2)
			if i == 0 {
				f.more = sym.Choice("more "+n, 2)
			}
			fs_ = append(fs_, f)
			d := cache + "/" + n
			vos.PutDir(d)
			switch f.src {
			case 1:
				vos.PutDir(d + "/src")
			case 2:
				vos.Put(d+"/src/p_1.0.tar.gz", "p")
			}
			if f.binary == 1 {
				vos.Put(d+"/binary/4.1/p_1.0.tgz", "p")
			}
			if f.more == 1 {
				vos.Put(d+"/readme", "text")
			}
		}
		vos.Put(cache+"/file", "text")
		w.addTarball("t", "1.0", "")
		w.addTarball("u", "1.0", "")
		tar = sym.Choice("tarball", 3)
		cfg.Tarballs = cfg.Tarballs[:1]
		if tar >= 1 {
			unpacked = verifUnpack(w, "t", cache)
			other = verifUnpack(w, "u", cache)
			sym.Assert(unpacked != "" && other != "", "tarballs are unpacked below the cache")
		}
		if tar == 2 {
			// the tarball was deleted: its copy cannot be told any more
			vos.Delete(cfg.Tarballs[0])
		}
		// a directory of the same name that is not in the cache
		if unpacked != "" {
			vos.Put("/work/"+path.Base(unpacked)+"/x", "keep")
		}
	} else {
		sym.Reach("missing")
		if sym.Choice("tarball", 2) == 1 {
			w.addTarball("t", "1.0", "")
		}
	}
	srcOnly = sym.Choice("src-only", 2) == 1
	binariesOnly = sym.Choice("binaries-only", 2) == 1
	reposToClear = sym.Pick("repos", "ALL", "A-1", "A-1,A-12", "A", "")
	selected := func(n string) bool {
		if reposToClear == "ALL" {
			return true
		}
		for _, r := range strings.Split(reposToClear, ",") {
			if r == n {
				return true
			}
		}
		return false
	}
	roots := []string{"/work", verifLib, "/home/u", "/cache"}
	before := verifFiles(roots...)
	want := map[string]bool{}
	below := func(l, d string) bool {
		p := l
		if i := strings.IndexAny(l, " =:"); i >= 0 {
			p = l[:i]
		}
		p = strings.TrimSuffix(p, "/")
		return p == d || strings.HasPrefix(p, d+"/")
	}
	both := srcOnly && binariesOnly
	var gone []string
	if both {
		sym.Reach("both")
	} else {
		for _, f := range fs_ {
			if !selected(f.name) {
				continue
			}
			d := cache + "/" + f.name
			s, b := f.src > 0, f.binary > 0
			if !binariesOnly {
				gone = append(gone, d+"/src")
				s = false
			}
			if !srcOnly {
				gone = append(gone, d+"/binary")
				b = false
			}
			if !s && !b && f.more == 0 {
				gone = append(gone, d)
			}
		}
		if tar == 1 {
			gone = append(gone, unpacked)
		}
	}
	for l := range before {
		keep := true
		for _, g := range gone {
			if below(l, g) {
				keep = false
			}
		}
		if keep {
			want[l] = true
		}
	}
	var err error
	out := sym.Run(func() { err = cache_() })
	sym.Resume()
	sym.Assert(out.Kind == "done", "the command ends")
	sym.Assert((err != nil) == both, "only contradictory options are refused")
	after := verifFiles(roots...)
	sym.Observe("after", verifSorted(after))
	for l := range want {
		sym.Assert(after[l], "what was not asked for stays")
	}
	for l := range after {
		sym.Assert(before[l], "nothing is created")
		sym.Assert(want[l], "what was asked for is removed")
	}
	sym.Assert(vos.Has(cache) == exists, "the cache directory itself stays")
}

func verifSorted(m map[string]bool) string {
	var r []string
	for l := range m {
		r = append(r, l)
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func cache_() error { return cache(nil, nil) }
