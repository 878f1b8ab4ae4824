package cmd

import (
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	afero "github.com/metrumresearchgroup/pkgr/verifsym/vafero"
	archives "github.com/metrumresearchgroup/pkgr/verifsym/varchives"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper"
)

const (
	verifLib = "/lib"
	verifURL = "https://r.example"
)

// verifPkg is a package of the repository.
type verifPkg struct {
	name, version string
	fields        string // further lines of its record, "Imports: b\n"
}

// verifWorld is a machine with R, a repository, a library and a configuration.
type verifWorld struct {
	pkgs    []verifPkg
	noFile  map[string]bool // packages whose file cannot be fetched
	before  []string
	run     sym.Outcome
	err     error
	runs    int
	tarball map[string]string // tarball path by package
}

func verifMachine(pkgs ...verifPkg) *verifWorld {
	w := &verifWorld{pkgs: pkgs, noFile: map[string]bool{}, tarball: map[string]string{}}
	vos.Setenv("HOME", "/home/u")
	vos.Setenv("PATH", "/usr/bin")
	vos.PutDir("/home/u")
	vos.PutDir("/tmp")
	vos.PutDir("/work")
	vos.Put("/work/pkgr.yml", "Version: 1\n")
	vos.Chdir("/work")
	vr.Library = verifLib
	vr.Use()
	vhttp.Handler = func(url string) vhttp.Reply {
		if strings.HasSuffix(url, "/PACKAGES") {
			s := ""
			for _, p := range w.pkgs {
				s += "Package: " + p.name + "\nVersion: " + p.version + "\n" + p.fields + "\n"
			}
			return vhttp.Reply{Status: 200, Body: s, Cut: -1}
		}
		f := url[strings.LastIndex(url, "/")+1:]
		f = strings.TrimSuffix(f, ".tar.gz")
		i := strings.Index(f, "_")
		if w.noFile[f[:i]] {
			return vhttp.Reply{Status: 404, Body: "gone", Cut: -1}
		}
		return vhttp.Reply{Status: 200, Body: vr.Source(f[:i], f[i+1:]), Cut: -1}
	}
	fs = afero.NewOsFs()
	cfg = configlib.PkgrConfig{
		Version:  1,
		Library:  verifLib,
		Cache:    "/cache",
		RPath:    "R",
		Threads:  1,
		Packages: []string{},
		Repos:    []map[string]string{{"R": verifURL}},
	}
	vviper.Reset()
	return w
}

// addTarball creates a tarball of a package and configures it.
func (w *verifWorld) addTarball(pkg, version, fields string) {
	f := "/work/" + pkg + "_" + version + ".tar.gz"
	vos.Put(f, archives.Tarball(pkg+version,
		archives.Entry{Name: pkg, Mode: 1 << 31},
		archives.Entry{Name: pkg + "/DESCRIPTION", Data: "Package: " + pkg + "\nVersion: " + version + "\n" + fields},
		archives.Entry{Name: pkg + "/R/code.R", Data: "f <- 1"},
	))
	w.tarball[pkg] = f
	cfg.Tarballs = append(cfg.Tarballs, f)
}

func (w *verifWorld) offered(pkg string) string {
	for _, p := range w.pkgs {
		if p.name == pkg {
			return p.version
		}
	}
	return ""
}

// verifShared joins everything below a path.
func verifSnapshot(path string) string { return strings.Join(vos.Tree(path), "\n") }

// install runs `pkgr install` once.
func (w *verifWorld) install() {
	w.runs++
	w.run = sym.Run(func() { w.err = rInstall(nil, nil) })
	sym.Resume()
}

// verifBackups tells whether the library holds anything but packages.
func verifBackups() bool {
	for _, n := range vos.Names(verifLib) {
		if strings.HasPrefix(n, "__") || n[0] == '.' {
			return true
		}
	}
	return false
}

// verifTouches tells whether a recorded operation changes something at or below a path.
func verifTouches(op, path string) bool {
	i := strings.Index(op, " ")
	if op[:i] == "open" {
		return false
	}
	for _, p := range strings.Split(op[i+1:], " ") {
		if p == path || strings.HasPrefix(p, path+"/") {
			return true
		}
	}
	return false
}

// verifState is a version for an installed package: none, older, current, newer than the offered 2.0.
var verifStates = []string{"", "1.0", "2.0", "3.0"}
