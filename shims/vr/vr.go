// Package vr is a model of the R program: R --version, R CMD INSTALL and Rscript.
//
// Packages are files whose content is "src:NAME:VERSION", binaries files "bin:NAME:VERSION", unpacked packages
// directories with a DESCRIPTION.  An installed package is a directory of the library with a DESCRIPTION and a
// file "code" that tells what it was made from.
package vr

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vexec"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

const (
	OK        = iota
	BuildFail // the build ends with an error
	NoBinary  // the build ends well but leaves no binary
	NoStart   // R cannot be started
	PutFail   // installing the binary ends with an error
	PutPart   // installing the binary ends with an error and leaves a broken directory
)

var (
	// Version and Platform are what R says about itself.
	Version  = "4.1.2"
	Platform = "x86_64-pc-linux-gnu"
	// Fault is what happens to a package.
	Fault = map[string]int{}
	// OnInstall is called when R starts to install something; final: into the library Library.
	OnInstall func(pkg, version string, build bool, lib string)
	// OnDone is called when it has been installed.
	OnDone func(pkg, version string, build bool, lib string)
	// Library is the library of the user.
	Library string
	// Script runs Rscript.
	Script func(c *vexec.Cmd) vexec.Result
	// Started counts the installs into the user's library and the builds, by package.
	Started = map[string]int{}
	Built   = map[string]int{}
)

// Reset forgets everything.
func Reset() {
	Fault, Started, Built = map[string]int{}, map[string]int{}, map[string]int{}
	OnInstall, OnDone, Script, Library = nil, nil, nil, ""
	Version, Platform = "4.1.2", "x86_64-pc-linux-gnu"
}

// Use makes the model answer every program call.
func Use() {
	vexec.Handler = Handle
	vexec.Label = func(c *vexec.Cmd) string {
		if len(c.Args) == 0 {
			return c.Path
		}
		l := c.Args[len(c.Args)-1]
		return l[strings.LastIndex(l, "/")+1:]
	}
}

// Source is the content of a source package file.
func Source(pkg, version string) string { return "src:" + pkg + ":" + version }

// Binary is the content of a binary package file.
func Binary(pkg, version string) string { return "bin:" + pkg + ":" + version }

// Installed puts an installed package into a library.
func Installed(lib, pkg, version, code string) {
	vos.Put(lib+"/"+pkg+"/DESCRIPTION", "Package: "+pkg+"\nVersion: "+version+"\nTitle: T\n")
	vos.Put(lib+"/"+pkg+"/code", code)
}

// Code tells what an installed package was made from ("" when it is not installed).
func Code(lib, pkg string) string { return vos.Cat(lib + "/" + pkg + "/code") }

func field(text, name string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, name+":") {
			return strings.TrimSpace(l[len(name)+1:])
		}
	}
	return ""
}

// read tells what a path holds: kind src, bin or dir.
func read(path string) (kind, pkg, version string) {
	if vos.IsDirectory(path) {
		d := vos.Cat(path + "/DESCRIPTION")
		if p := field(d, "Package"); p != "" {
			return "dir", p, field(d, "Version")
		}
		return "", "", ""
	}
	f := strings.Split(vos.Cat(path), ":")
	if len(f) == 3 && (f[0] == "src" || f[0] == "bin") {
		return f[0], f[1], f[2]
	}
	return "", "", ""
}

// Handle runs R.
func Handle(c *vexec.Cmd) vexec.Result {
	args := c.Args[1:]
	has := func(a string) bool {
		for _, x := range args {
			if x == a {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasSuffix(c.Path, "script") || strings.HasSuffix(c.Path, "script.exe"):
		if Script != nil {
			return Script(c)
		}
		return vexec.Result{}
	case has("--version"):
		return vexec.Result{Stdout: "R version " + Version + " (2021-11-01) -- \"Bird Hippie\"\nCopyright\nPlatform: " + Platform + " (64-bit)\n\n"}
	case has("CMD") && has("INSTALL"):
		return install(c, args, has("--build"))
	}
	return vexec.Result{Exit: 1, Stderr: "unknown call"}
}

func install(c *vexec.Cmd, args []string, build bool) vexec.Result {
	lib, path := "", args[len(args)-1]
	for _, a := range args {
		if strings.HasPrefix(a, "--library=") {
			lib = a[len("--library="):]
		}
	}
	kind, pkg, version := read(path)
	if kind == "" || lib == "" || !vos.IsDirectory(lib) {
		return vexec.Result{Exit: 1, Stderr: "ERROR: no package or library"}
	}
	final := lib == Library
	fault := Fault[pkg]
	if fault == NoStart {
		return vexec.Result{StartErr: errors.New("exec: \"R\": executable file not found in $PATH")}
	}
	sym.Lock()
	if final {
		Started[pkg]++
	} else {
		Built[pkg]++
	}
	sym.Unlock()
	if OnInstall != nil {
		OnInstall(pkg, version, build, lib)
	}
	if !final && fault == BuildFail {
		return vexec.Result{Exit: 1, Stderr: "ERROR: compilation failed"}
	}
	if final && (fault == PutFail || fault == PutPart || (fault == BuildFail && kind == "dir")) {
		if fault == PutPart {
			vos.PutDir(lib + "/" + pkg)
		}
		return vexec.Result{Exit: 1, Stderr: "ERROR: installation failed"}
	}
	return vexec.Result{Stdout: "* DONE (" + pkg + ")\n", Done: func() {
		code := kind
		if kind == "dir" {
			code = "dir " + path
		}
		vos.Delete(lib + "/" + pkg)
		Installed(lib, pkg, version, code+" "+version)
		if build && fault != NoBinary {
			dir := c.Dir
			if dir == "" {
				dir, _ = vos.Getwd()
			}
			vos.Put(dir+"/"+pkg+"_"+version+"_R_"+Platform+".tar.gz", Binary(pkg, version))
		}
		if OnDone != nil {
			OnDone(pkg, version, build, lib)
		}
	}}
}
