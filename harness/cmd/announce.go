package cmd

import (
	"fmt"
	"sort"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vlog"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// verifSaid are the records with a message, each as the named fields.
func verifSaid(message string, fields ...string) []string {
	var r []string
	for _, e := range vlog.Entries {
		if strings.TrimSpace(e.Message()) != message {
			continue
		}
		s := ""
		for _, f := range fields {
			v, ok := e.Data[f]
			if !ok {
				v = "-"
			}
			s += f + "=" + fmt.Sprint(v) + " "
		}
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

func verifSame(a, b []string) bool {
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "|") == strings.Join(b, "|")
}

// Verif_Announcements: what the plan says about packages is what an install does with them.
//
//verif:id C43
//verif:q _time=200
//verif:t _time=600
//verif:reach incremental updates tarball
func Verif_Announcements() {
	w := verifMachine()
	type offer struct{ a, b string } // version in either repository
	offers := map[string]offer{"udd": {a: "2.0"}, "vv": {b: "2.0"}, "xx": {a: "2.0"}}
	d := offer{}
	switch sym.Choice("offered", 3) {
	case 0:
		d.a = "2.0"
	case 1:
		d.b = "2.0"
	case 2:
		d.a, d.b = "2.0", "3.0"
	}
	offers["dd"] = d
	vhttp.Handler = func(url string) vhttp.Reply {
		s := ""
		for _, p := range []string{"dd", "udd", "vv", "xx"} {
			v := offers[p].a
			if strings.HasPrefix(url, "https://b.") {
				v = offers[p].b
			}
			if v != "" {
				s += "Package: " + p + "\nVersion: " + v + "\n"
				if p == "udd" {
					s += "Imports: dd\n"
				}
				s += "\n"
			}
		}
		return vhttp.Reply{Status: 200, Body: s, Cut: -1}
	}
	cfg.Repos = []map[string]string{{"A": "https://a.example"}, {"B": "https://b.example"}}
	cfg.Packages = []string{"udd", "vv"}
	if sym.Choice("listed", 2) == 1 {
		cfg.Packages = append(cfg.Packages, "dd")
	}
	cfg.NoUpdate = sym.Choice("noupdate", 2) == 1
	from := map[string]string{"udd": "2.0 A", "vv": "2.0 B", "dd": "2.0 A"}
	if d.a == "" {
		from["dd"] = "2.0 B"
	}
	// the library
	have := map[string]string{}
	foreign := []string{}
	if sym.Choice("exists", 2) == 1 {
		vos.PutDir(verifLib)
		for _, p := range []string{"dd", "udd", "xx", "zz"} {
			v := ""
			switch sym.Choice("state."+p, 3) {
			case 1:
				v = "1.0"
			case 2:
				v = "2.0"
			}
			if v == "" {
				continue
			}
			have[p] = v
			text := "Package: " + p + "\nVersion: " + v + "\n"
			if p == "dd" || p == "zz" || sym.Choice("stamp."+p, 2) == 0 {
				foreign = append(foreign, p)
			} else {
				text += "PkgrVersion: 3\n"
			}
			vos.Put(verifLib+"/"+p+"/DESCRIPTION", text)
		}
	}
	tarball := sym.Choice("tarball", 3)
	requested := append([]string(nil), cfg.Packages...)
	switch tarball {
	case 1:
		w.addTarball("tt", "5.0", "Imports: dd\n")
		if len(requested) == 2 {
			requested = append(requested, "dd")
		}
	case 2:
		w.addTarball("dd", "5.0", "")
	}
	vlog.Entries = nil
	ip, out := verifPlan()
	sym.Assert(out.Kind == "done", "the plan is made")

	// where each package comes from
	var want []string
	for _, p := range []string{"dd", "udd", "vv"} {
		rel := "dependency"
		for _, r := range requested {
			if r == p {
				rel = "user_defined"
			}
		}
		v := strings.Split(from[p], " ")
		want = append(want, "pkg="+p+" repo="+v[1]+" type=source version="+v[0]+" relationship="+rel+" ")
	}
	sym.Assert(verifSame(verifSaid("package repository set", "pkg", "repo", "type", "version", "relationship"), want),
		"the origin of every package of the plan is announced")

	// outdated packages
	want = nil
	var other []string
	outdated, updates := 0, 0
	for _, p := range []string{"dd", "udd", "xx"} {
		offered := strings.Split(from[p], " ")[0]
		if p == "xx" {
			offered = "2.0"
		}
		if have[p] == "" || have[p] >= offered {
			continue
		}
		outdated++
		s := "pkg=" + p + " installed_version=" + have[p] + " update_version=" + offered + " "
		if p != "xx" && !cfg.NoUpdate {
			updates++
			want = append(want, s)
			sym.Reach("updates")
		} else {
			other = append(other, s)
		}
	}
	sym.Assert(verifSame(verifSaid("package will be updated", "pkg", "installed_version", "update_version"), want),
		"exactly the packages that will be updated are announced")
	sym.Assert(verifSame(verifSaid("outdated package found", "pkg", "installed_version", "update_version"), other),
		"exactly the other outdated packages are announced")

	// numbers
	sym.Assert(verifSame(verifSaid("package installation status", "installed", "outdated", "not_from_pkgr"),
		[]string{fmt.Sprintf("installed=%d outdated=%d not_from_pkgr=%d ", len(have), outdated, len(foreign))}), "the status of the library is right")
	count := map[string]int{}
	for _, p := range []string{"dd", "udd", "vv"} {
		count[from[p][4:]]++
	}
	nt := len(cfg.Tarballs)
	field := func(n int) string {
		if n == 0 {
			return "-"
		}
		return fmt.Sprint(n)
	}
	sym.Assert(verifSame(verifSaid("package installation sources", "A", "B", "tarballs"),
		[]string{"A=" + field(count["A"]) + " B=" + field(count["B"]) + fmt.Sprintf(" tarballs=%d ", nt)}), "the number of packages of each source is right")
	sym.Assert(verifSame(verifSaid("package installation plan", "to_install", "to_update"),
		[]string{fmt.Sprintf("to_install=%d to_update=%d ", ip.GetNumPackagesToInstall(), updates)}), "the number of updates is right")

	// what an incremental install adds
	said := verifSaid("to install", "package", "version", "repo")
	if len(said) > 0 {
		sym.Reach("incremental")
		for _, s := range said {
			sym.Assert(!strings.HasPrefix(s, "package= "), "a package to be installed is announced with its name")
			known := false
			for _, p := range []string{"dd", "udd", "vv", "tt"} {
				v := strings.Split(from[p]+" ", " ")
				if !strings.HasPrefix(s, "package="+p+" ") {
					continue
				}
				_, local := w.tarball[p]
				sym.Assert(have[p] == "" || local, "what is already there is not announced as to be installed")
				if local {
					sym.Reach("tarball")
				} else {
					sym.Assert(s == "package="+p+" version="+v[0]+" repo="+v[1]+" ", "a package is announced with its version and repository")
				}
				known = true
			}
			sym.Assert(known, "only packages of the plan are announced")
		}
		for _, p := range []string{"dd", "udd", "vv", "tt"} {
			n := 0
			for _, s := range said {
				if strings.HasPrefix(s, "package="+p+" ") {
					n++
				}
			}
			_, local := w.tarball[p]
			sym.Assert(n <= 1, "a package to be installed is announced once")
			sym.Assert(n == 1 || have[p] != "" || p == "tt" && !local, "a package to be installed is announced")
		}
	}
	// nothing is listed only if all or nothing is to be installed
	missing := 0
	for _, p := range []string{"dd", "udd", "vv"} {
		if have[p] == "" {
			missing++
		}
	}
	if nt == 0 && updates == 0 {
		sym.Assert(len(said) > 0 || missing == 0 || missing == 3, "a part of the packages to be installed is listed")
	}
	foreignSaid := []string{}
	for _, e := range vlog.Entries {
		if e.Message() == "Packages not installed by pkgr" {
			l, _ := e.Data["packages"].([]string)
			foreignSaid = append(foreignSaid, l...)
		}
	}
	sym.Assert(verifSame(foreignSaid, foreign), "exactly the packages that pkgr has not installed are named")
}
