package rcmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/cran"
	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifStamp installs a package whose DESCRIPTION is the given text and returns the text afterwards.
func verifStamp(text, repo, url, version string, ty cran.SourceType) string {
	vexec.Handler = func(c *vexec.Cmd) vexec.Result {
		vos.Put("/lib/p/DESCRIPTION", text)
		return vexec.Result{}
	}
	ir := InstallRequest{Package: "p", ExecSettings: ExecSettings{WorkDir: "/work", PkgrVersion: version},
		Metadata: cran.Download{Path: "/work/p.tar.gz", Metadata: cran.PkgDl{Package: desc.Desc{Package: "p", Version: "1.0"},
			Config: cran.PkgConfig{Repo: cran.RepoURL{Name: repo, URL: url}, Type: ty}}}}
	_, err := Install(afero.NewOsFs(), "p", "/work/p.tar.gz", InstallArgs{Library: "/lib"}, RSettings{Rpath: "R", Version: cran.RVersion{Major: 4}},
		ir.ExecSettings, ir)
	sym.Assert(err == nil, "the install succeeds")
	return vos.Cat("/lib/p/DESCRIPTION")
}

func verifLines(s string) []string { return strings.Split(strings.TrimSuffix(s, "\n"), "\n") }

// Any record with up to n further lines, from any repository.
//
//verif:id C18
//verif:q n=2 w=2 _time=200
//verif:t n=3 w=3 _time=800
//verif:reach stamped renamed same none
func Verif_Stamp() {
	verifPlainMachine()
	w := sym.Param("w", 2)
	const al = "a:/ "
	repo := "r" + sym.Str("repo", 0, w, "a:-")
	url := sym.Pick("url", "https://", "/") + sym.Str("url", 1, w, "a:/")
	ty := []cran.SourceType{cran.Source, cran.Binary}[sym.Choice("type", 2)]
	kind := "source"
	if ty == cran.Binary {
		kind = "binary"
	}
	lines := []string{"Package: p", "Version: 1.0"}
	old, at := "", -1
	hasOld := false
	add := func(l string) { lines = append(lines, l) }
	for i, k := 0, sym.Choice("n", sym.Param("n", 2)+1); i < k; i++ {
		switch sym.Choice("line", 8) {
		case 0:
			if at >= 0 {
				sym.Assume(false)
			}
			at = len(lines)
			old = "r" + sym.Str("old", 0, w, "a:-")
			add("Repository: " + old)
		case 1:
			add("URL: https://p.example/" + sym.Str("u", 0, w, al) + "x")
		case 2:
			add("Description: see PkgrVersion: and PkgrInstallType: " + sym.Str("u", 0, 1, al) + "x")
		case 3:
			add("    PkgrRepositoryURL is " + sym.Str("u", 0, 1, al) + "x")
		case 4:
			hasOld = true
			add("PkgrVersion: 0.1")
		case 5:
			hasOld = true
			add("PkgrInstallType: " + sym.Pick("ot", "source", "binary"))
			add("PkgrRepositoryURL: http://" + sym.Str("u", 0, 1, al) + "x")
		case 6:
			add("Note: Repository: " + sym.Str("u", 0, 1, al) + "x")
		case 7:
			add("RepositoryX: " + sym.Str("u", 0, 1, al) + "x")
		}
	}
	text := strings.Join(lines, "\n") + "\n"
	got := verifStamp(text, repo, url, "3.1", ty)
	sym.Observe("record", got)
	out := verifLines(got)
	want := []string{"PkgrVersion: 3.1", "PkgrInstallType: " + kind, "PkgrRepositoryURL: " + url}
	seen := []int{0, 0, 0}
	// the other lines, without the stamps
	var rest []string
	for _, l := range out {
		stamp := false
		for i, s := range want {
			f := s[:strings.Index(s, ":")+1]
			if strings.HasPrefix(l, f) {
				sym.Assert(sym.Eq(l, s), "the record names where the package came from")
				seen[i]++
				stamp = true
			}
		}
		if !stamp {
			rest = append(rest, l)
		}
	}
	sym.Assert(seen[0] == 1 && seen[1] == 1 && seen[2] == 1, "each fact is recorded exactly once")
	sym.Reach("stamped")
	var keep []string
	for i, l := range lines {
		switch {
		case strings.HasPrefix(l, "PkgrVersion:") || strings.HasPrefix(l, "PkgrInstallType:") || strings.HasPrefix(l, "PkgrRepositoryURL:"):
		case i == at && old != repo:
			sym.Reach("renamed")
			keep = append(keep, "OriginalRepository: "+old, "Repository: "+repo)
		case i == at:
			sym.Reach("same")
			keep = append(keep, l)
		default:
			keep = append(keep, l)
		}
	}
	if at < 0 {
		sym.Reach("none")
	}
	_ = hasOld
	sym.Assert(len(rest) == len(keep), "no other line is lost or added")
	if len(rest) == len(keep) {
		for i := range keep {
			sym.Assert(sym.Eq(rest[i], keep[i]), "every other line is kept, an earlier repository in full")
		}
	}
	again := verifStamp(got, repo, url, "3.1", ty)
	sym.Assert(sym.Eq(again, got), "recording again changes nothing")
}
