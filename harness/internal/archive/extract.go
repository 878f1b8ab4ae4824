package archive

import (
	"errors"
	"io/fs"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	archives "github.com/metrumresearchgroup/pkgr/verifsym/varchives"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

const (
	verifFile = iota
	verifDir
	verifSymlink
	verifHardlink
	verifDevice
	verifUnreadable
	verifExec
	verifKinds
)

func verifEntry(kind int, name, data string) archives.Entry {
	e := archives.Entry{Name: name}
	switch kind {
	case verifFile:
		e.Data = data
	case verifDir:
		e.Mode = fs.ModeDir
	case verifSymlink:
		e.Mode, e.Link = fs.ModeSymlink, "../../work"
	case verifHardlink:
		e.Link = "a"
	case verifDevice:
		e.Mode = fs.ModeDevice | fs.ModeCharDevice
	case verifUnreadable:
		e.Data, e.Err = data, errors.New("unexpected EOF")
	case verifExec:
		e.Data, e.Mode = data, 0o755
	}
	return e
}

// verifPath resolves a name lexically: its place below the directory, or false if it leads outside.
func verifPath(name string) (string, bool) {
	if name == "" || name[0] == '/' {
		return "", false
	}
	var st []string
	for _, p := range strings.Split(name, "/") {
		switch p {
		case "", ".":
		case "..":
			if len(st) == 0 {
				return "", false
			}
			st = st[:len(st)-1]
		default:
			st = append(st, p)
		}
	}
	return strings.Join(st, "/"), true
}

// verifPlain tells names without "." and "..", or empty parts.
func verifPlain(name string) bool {
	for _, p := range strings.Split(name, "/") {
		if p == "" || p == "." || p == ".." {
			return false
		}
	}
	return true
}

func verifOutside() string {
	s := strings.Join(vos.Tree("/work"), "\n") + "\n" + strings.Join(vos.Tree("/etc"), "\n") + "\n"
	for _, d := range []string{"/", "/cache"} {
		s += d + ": " + strings.Join(vos.Names(d), ",") + "\n"
	}
	return s
}

// verifCheck extracts the entries and compares the result.
func verifCheck(kinds []int, names []string) {
	vos.Put("/work/keep", "keep")
	vos.Put("/etc/keep", "keep")
	vos.PutDir("/cache")
	if sym.Choice("stale", 2) == 1 {
		vos.Put("/cache/dir/stale", "old")
		vos.PutLink("/cache/dir/a", "../../work")
	} else {
		vos.PutDir("/cache/dir")
	}
	var es []archives.Entry
	files := map[string]string{}
	dirs := map[string]bool{}
	exec := map[string]bool{}
	refuse, plain := false, true
	for i, k := range kinds {
		data := string(rune('A' + i))
		es = append(es, verifEntry(k, names[i], data))
		p, local := verifPath(names[i])
		if !local || k == verifSymlink || k == verifHardlink || k == verifDevice || k == verifUnreadable {
			refuse = true
			continue
		}
		plain = plain && verifPlain(names[i])
		up := p
		for {
			j := strings.LastIndex(up, "/")
			if j < 0 {
				break
			}
			up = up[:j]
			if _, ok := files[up]; ok {
				refuse = true
			}
			dirs[up] = true
		}
		_, isFile := files[p]
		if k == verifDir {
			if isFile {
				refuse = true
			}
			if p != "" {
				dirs[p] = true
			}
			continue
		}
		if isFile || dirs[p] || p == "" {
			refuse = true
		}
		files[p] = data
		exec[p] = k == verifExec
	}
	vos.Put("/work/x.tar.gz", archives.Tarball("x", es...))
	before := verifOutside()
	var err error
	out := sym.Run(func() { err = Extract("/work/x.tar.gz", "/cache/dir") })
	sym.Resume()
	sym.Observe("err", err != nil)
	sym.Assert(out.Kind == "done", "extraction ends")
	sym.Assert(verifOutside() == before, "nothing outside the directory changes")
	if refuse {
		sym.Reach("refused")
		sym.Assert(err != nil, "an entry outside, of another kind, unreadable or repeated is refused")
		return
	}
	if plain {
		sym.Assert(err == nil, "an ordinary archive is extracted")
	}
	if err != nil {
		return
	}
	sym.Reach("extracted")
	got := map[string]bool{}
	for _, l := range vos.Tree("/cache/dir") {
		got[l] = true
	}
	n := 0
	for f, d := range files {
		n++
		sym.Assert(got["/cache/dir/"+f+"="+d], "every file has its contents")
		fi, e := vos.Stat("/cache/dir/" + f)
		sym.Assert(e == nil && (fi.Mode()&0o100 != 0) == exec[f], "execute permission is kept")
	}
	for d := range dirs {
		n++
		sym.Assert(got["/cache/dir/"+d+"/"], "every directory exists")
	}
	// names like "a/../b" may leave their lexical parents behind, files never
	for l := range got {
		if i := strings.Index(l, "="); i >= 0 {
			_, ok := files[l[len("/cache/dir/"):i]]
			sym.Assert(ok, "no file that is not in the archive")
		}
		sym.Assert(!strings.Contains(l, "->"), "no links")
	}
	if plain {
		sym.Assert(len(got) == n, "nothing else is in the directory")
	}
}

// Verif_OneName: one entry with any name.
//
//verif:id C23
//verif:q _time=120 len=6
//verif:t _time=700 len=9
//verif:reach refused extracted
func Verif_OneName() {
	kind := sym.Pick("kind", "file", "dir")
	k := verifFile
	if kind == "dir" {
		k = verifDir
	}
	verifCheck([]int{k}, []string{sym.Str("name", 0, sym.Param("len", 6), "/.ab")})
}

// Verif_Entries: archives of several entries of every kind.
//
//verif:id C23
//verif:q _time=200 entries=2
//verif:t _time=800 entries=3
//verif:reach refused extracted
func Verif_Entries() {
	n := sym.Param("entries", 2)
	var ks []int
	var ns []string
	for i := 0; i < n; i++ {
		ks = append(ks, sym.Choice("kind", verifKinds))
		ns = append(ns, sym.Pick("name", "a", "b", "a/b", "a/b/c", "./a", "a/../b", "../out", "a/../../out", "/etc/x"))
	}
	verifCheck(ks, ns)
}
