package cmd

import (
	"crypto/tls"
	"crypto/x509"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vr"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// Verif_Authenticated: every server is authenticated unless the configuration or the command line says otherwise.
//
//verif:id C40
//verif:q _time=120 _init=1
//verif:t _time=300 _init=1
//verif:reach verified unverified installed binary
func Verif_Authenticated() {
	verifMachine()
	full.Use()
	cfg = configlib.PkgrConfig{}
	text := "Version: 1\nPackages:\n  - p\n  - b\nRepos:\n  - A: https://a.example\n  - B: https://b.example/x\nLibrary: /lib\nCache: /cache\nThreads: 1\n"
	insecure := false
	switch sym.Choice("config", 3) {
	case 1:
		text += "NoSecure: true\n"
		insecure = true
	case 2:
		text += "NoSecure: false\n"
	}
	custom := sym.Choice("custom", 5)
	if custom > 0 {
		vos.Put("/etc/os-release", "NAME=\"Ubuntu\"\nID=ubuntu\nVERSION_CODENAME=focal\n")
		text += "Customizations:\n"
	}
	switch custom {
	case 1:
		text += "  Repos:\n    - B:\n        RepoType: MPN\n"
	case 2:
		text += "  Repos:\n    - B:\n        RepoType: RSPM\n        Type: binary\n"
	case 3:
		text += "  Repos:\n    - B:\n        RepoSuffix: x\n        RepoType: MPN\n  Packages:\n    - b:\n        Type: source\n"
	case 4:
		text += "  Packages:\n    - b:\n        Repo: B\n        Type: source\n"
	}
	vos.Put("/work/pkgr.yml", text)
	switch sym.Choice("flag", 3) {
	case 1:
		verifFlag("no-secure", "true")
		insecure = true
	case 2:
		verifFlag("no-secure", "false")
		insecure = false
	}
	// another setting is no reason to skip the verification
	if sym.Choice("norollback", 2) == 1 {
		verifFlag("no-rollback", "true")
	}
	if sym.Choice("strict", 2) == 1 {
		verifFlag("strict", "true")
		vos.PutDir("/lib")
	}
	broken := sym.Choice("broken", 5)
	bad := &tls.CertificateVerificationError{Err: x509.UnknownAuthorityError{}}
	fetched := 0
	vhttp.Handler = func(url string) vhttp.Reply {
		pkg := "p"
		if strings.HasPrefix(url, "https://b.example") {
			pkg = "b"
		}
		if strings.HasSuffix(url, "/PACKAGES") {
			if broken == 3 && pkg == "b" {
				return vhttp.Reply{Err: bad}
			}
			if broken == 1 && pkg == "b" {
				return vhttp.Reply{Status: 404, Cut: -1, Body: "none"}
			}
			return vhttp.Reply{Status: 200, Cut: -1, Body: "Package: " + pkg + "\nVersion: 1.0\n\n"}
		}
		fetched++
		if broken == 4 {
			return vhttp.Reply{Err: bad}
		}
		if broken == 2 {
			return vhttp.Reply{Status: 500, Cut: -1, Body: "none"}
		}
		if strings.Contains(url, "/bin/") {
			return vhttp.Reply{Status: 200, Cut: -1, Body: vr.Binary(pkg, "1.0")}
		}
		return vhttp.Reply{Status: 200, Cut: -1, Body: vr.Source(pkg, "1.0")}
	}
	out := sym.Run(func() {
		initConfig()
		rInstall(nil, nil)
	})
	sym.Resume()
	sym.Assert(len(vhttp.Requests) > 0, "the repositories are asked")
	if out.Kind == "done" && fetched == 2 {
		sym.Reach("installed")
		for _, u := range vhttp.Requests {
			if strings.Contains(u, "/bin/") {
				sym.Reach("binary")
			}
		}
	}
	if insecure {
		sym.Reach("unverified")
		sym.Assert(len(vhttp.Insecure) == len(vhttp.Requests), "no server is authenticated when that is switched off")
	} else {
		sym.Reach("verified")
		sym.Assert(len(vhttp.Insecure) == 0, "every server is authenticated")
	}
}
