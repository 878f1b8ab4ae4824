package cran

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/desc"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vtime"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper"
)

// verifUbuntu makes the machine one that supports binaries of MPN repositories.
func verifUbuntu() {
	vos.Setenv("HOME", "/home/u")
	vos.PutDir("/home/u")
	vos.Put("/etc/os-release", "NAME=\"Ubuntu\"\nVERSION_CODENAME=focal\n")
	vviper.OnUnmarshal = func(out any) error {
		if o, ok := out.(*OsRelease); ok {
			o.Id, o.VersionCodename, o.VersionId, o.Version = "ubuntu", "focal", "20.04", "20.04.1 LTS (Focal Fossa)"
		}
		return nil
	}
}

// verifIndex is the index of one repository and type; every record's version names where it came from.
func verifIndex(repo, typ, gen int) string {
	s := ""
	for k := 0; k < 2; k++ {
		s += "Package: p" + string(rune('a'+k)) + "\nVersion: " + verifStamp(repo, typ, gen, k) + "\nDepends: R (>= 3.0), methods\n\n"
	}
	if typ == 1 {
		s += "Package: only\nVersion: 3\n"
	}
	return s
}

func verifStamp(repo, typ, gen, k int) string {
	d := func(n int) string { return string(rune('1' + n)) }
	return d(repo) + "." + d(typ) + "." + d(gen) + "." + d(k)
}

func verifIsIndex(m map[string]desc.Desc, repo, typ, gen int) bool {
	n := 2
	if typ == 1 {
		n = 3
	}
	if len(m) != n {
		return false
	}
	for k := 0; k < 2; k++ {
		if m["p"+string(rune('a'+k))].Version != verifStamp(repo, typ, gen, k) {
			return false
		}
	}
	return typ == 0 || m["only"].Version == "3"
}

// verifTypeOf tells the type an address is for.
func verifTypeOf(url string) int {
	if strings.Contains(url, "/bin/") {
		return 1
	}
	return 0
}

const (
	verifOK = iota
	verifMissing
	verifCut
	verifNoNet
)

func verifReply(kind int, body string, name string) vhttp.Reply {
	switch kind {
	case verifMissing:
		// any status but the one of success, of an empty, partial, moved or missing file
		status := sym.Int(name+".status", 201, 599)
		return vhttp.Reply{Status: status, Body: "<html>", Cut: -1}
	case verifCut:
		return vhttp.Reply{Status: 200, Body: body, Cut: []int{0, 20}[sym.Choice(name+".cut", 2)]}
	case verifNoNet:
		return vhttp.Reply{Err: errors.New("no route to host")}
	}
	return vhttp.Reply{Status: 200, Body: body, Cut: -1}
}

// Two repositories fetched concurrently.
//
//verif:id C14
//verif:q delays=1 _time=200
//verif:t delays=3 _time=800
//verif:reach complete partial refused
func Verif_Database() {
	verifUbuntu()
	sym.Delays(sym.Param("delays", 1))
	vhttp.Sched = true
	rv := RVersion{4, 1, 2}
	urls := []RepoURL{{Name: "A", URL: "https://a.example"}, {Name: "B", URL: "https://b.example/x/"}}
	cfg := NewInstallConfig()
	types := []int{1, 1}
	for i, u := range urls {
		if sym.Choice("mpn"+u.Name, 2) == 1 {
			cfg.Repos[u.Name] = RepoConfig{RepoType: MPN, DefaultSourceType: Binary}
			types[i] = 2
		}
	}
	kind := [2][2]int{}
	for i := range urls {
		for t := 0; t < types[i]; t++ {
			kind[i][t] = sym.Choice("reply"+urls[i].Name, 4)
		}
	}
	vhttp.Handler = func(url string) vhttp.Reply {
		i := 0
		if strings.HasPrefix(url, "https://b.example/x/") {
			i = 1
		}
		t := verifTypeOf(url)
		if strings.Contains(url[len("https://"):], "//") || !strings.HasSuffix(url, "/PACKAGES") {
			sym.Assert(false, "index addresses are well formed")
		}
		return verifReply(kind[i][t], verifIndex(i, t, 0), "cut")
	}
	var nexus *PkgNexus
	var err error
	out := sym.Run(func() { nexus, err = NewPkgDb(urls, Source, cfg, rv, false) })
	sym.Resume()
	nonet, unusable, complete := false, false, true
	for i := range urls {
		bad := 0
		for t := 0; t < types[i]; t++ {
			if kind[i][t] != verifOK {
				bad++
				complete = false
			}
			nonet = nonet || kind[i][t] == verifNoNet
		}
		unusable = unusable || bad == types[i]
	}
	sym.Assert(out.Kind == "done" || out.Kind == "exited", "building the database ends")
	if out.Kind == "exited" {
		sym.Assert(out.Code != 0 && nonet, "building the database only fails for a reason")
		sym.Reach("refused")
		return
	}
	if out.Kind != "done" {
		return
	}
	if unusable {
		sym.Assert(err != nil, "a repository without a usable index is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil || !complete, "usable repositories are accepted")
	if err != nil {
		return
	}
	sym.Assert(nexus != nil && len(nexus.Db) == 2, "every repository is listed")
	if nexus == nil || len(nexus.Db) != 2 {
		return
	}
	for i := range urls {
		db := nexus.Db[i]
		sym.Assert(db != nil && db.Repo.Name == urls[i].Name && db.Repo.URL == urls[i].URL, "repositories are in the configured order")
		if db == nil {
			return
		}
		for t := 0; t < types[i]; t++ {
			m := db.DescriptionsBySourceType[verifTypes[1+t]]
			if kind[i][t] == verifOK {
				sym.Assert(verifIsIndex(m, i, t, 0), "the records are exactly those of the index")
			} else {
				sym.Assert(len(m) == 0, "nothing is taken from an index that could not be read")
			}
		}
	}
	if complete {
		sym.Reach("complete")
	} else {
		sym.Reach("partial")
	}
}

// Three repositories that answer in any order.
//
//verif:id C14
//verif:q delays=0 _time=100
//verif:t delays=2 _time=300
//verif:reach complete refused
func Verif_DatabaseOrder() {
	verifUbuntu()
	sym.Delays(sym.Param("delays", 0))
	// how long the repositories wait before they answer
	rank := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choice("order", 6)]
	urls := []RepoURL{{Name: "B", URL: "https://b.example"}, {Name: "A", URL: "https://a.example/x/"}, {Name: "C", URL: "https://c.example"}}
	bad := sym.Choice("unusable", 4)
	vhttp.Handler = func(url string) vhttp.Reply {
		for i, u := range urls {
			if strings.HasPrefix(url, strings.TrimSuffix(u.URL, "/")+"/") {
				for k := 0; k < 20*rank[i]; k++ {
					sym.Sleep()
				}
				if i == bad-1 {
					return vhttp.Reply{Status: 404, Body: "<html>", Cut: -1}
				}
				return vhttp.Reply{Status: 200, Body: verifIndex(i, 0, 0), Cut: -1}
			}
		}
		sym.Assert(false, "only the repositories are asked")
		return vhttp.Reply{Status: 404}
	}
	var nexus *PkgNexus
	var err error
	out := sym.Run(func() { nexus, err = NewPkgDb(urls, Source, NewInstallConfig(), RVersion{4, 1, 2}, false) })
	sym.Resume()
	sym.Assert(out.Kind == "done", "building the database ends")
	if bad > 0 {
		sym.Assert(err != nil, "a repository without a usable index is refused")
		sym.Reach("refused")
		return
	}
	sym.Reach("complete")
	sym.Assert(err == nil && nexus != nil && len(nexus.Db) == 3, "every repository is listed")
	if err != nil || nexus == nil || len(nexus.Db) != 3 {
		return
	}
	for i := range urls {
		db := nexus.Db[i]
		sym.Assert(db != nil && db.Repo.Name == urls[i].Name && db.Repo.URL == urls[i].URL, "repositories are in the configured order")
		sym.Assert(db != nil && verifIsIndex(db.DescriptionsBySourceType[Source], i, 0, 0), "the records are exactly those of the index")
	}
}

// Repositories on disk.
//
//verif:id C14
//verif:q _time=60
//verif:t _time=200
//verif:reach read refused
func Verif_LocalDatabase() {
	verifUbuntu()
	dir := sym.Pick("dir", "/data/repo", "~/repo", "/data/repo/")
	where := strings.TrimSuffix(strings.Replace(dir, "~", "/home/u", 1), "/")
	kind := sym.Choice("kind", 4)
	switch kind {
	case 0:
		vos.Put(where+"/src/contrib/PACKAGES", verifIndex(0, 0, 0))
	case 1:
		vos.PutDir(where + "/src/contrib")
	case 2:
		vos.PutDir(where + "/src/contrib/PACKAGES")
	case 3:
		// an index that may not be read
		vos.Put(where+"/src/contrib/PACKAGES", verifIndex(0, 0, 0))
		vos.OnOp = func(op, path string, n int) error {
			if op == "open" && strings.HasSuffix(path, "PACKAGES") {
				return vos.ErrPermission
			}
			return nil
		}
	}
	var db *RepoDb
	var err error
	out := sym.Run(func() { db, err = NewRepoDb(RepoURL{Name: "L", URL: dir}, Source, RepoConfig{}, RVersion{4, 1, 2}, false) })
	sym.Resume()
	if kind == 0 {
		sym.Assert(out.Kind == "done" && err == nil, "a readable index is accepted")
		sym.Assert(out.Kind == "done" && db != nil && verifIsIndex(db.DescriptionsBySourceType[Source], 0, 0, 0), "the records are exactly those of the index")
		sym.Reach("read")
	} else {
		sym.Assert(out.Kind != "done" || err != nil, "a repository without a usable index is refused")
		sym.Assert(out.Kind != "hung", "building the database ends")
		sym.Reach("refused")
	}
}

type verifKey struct {
	url    RepoURL
	rc     RepoConfig
	rv     RVersion
	suffix string
}

// A second run with the same or another configuration, some time after the first one.
//
//verif:id C15
//verif:q digits=1 _time=200
//verif:t digits=3 _time=700
//verif:reach cached fetched
func Verif_Cache() {
	verifUbuntu()
	vos.Clock = func() int64 { return vtime.Clock }
	gen := 0
	vhttp.Handler = func(url string) vhttp.Reply {
		return vhttp.Reply{Status: 200, Body: verifIndex(0, verifTypeOf(url), gen), Cut: -1}
	}
	url := RepoURL{Name: "A", URL: "https://a.example"}
	rc := RepoConfig{}
	mpn := sym.Choice("mpn", 2) == 1
	if mpn {
		rc = RepoConfig{RepoType: MPN, DefaultSourceType: Binary, RepoSuffix: sym.Pick("suffix", "", "s1")}
	}
	rv := RVersion{4, 1, 2}
	t0 := vtime.Clock
	_, err := NewRepoDb(url, Source, rc, rv, false)
	sym.Assert(err == nil, "the first run reads the index")
	// the second run
	gen = 1
	same := true
	switch sym.Choice("change", 7) {
	case 1:
		url.Name, same = "B", false
	case 2:
		url.URL, same = "https://b.example", false
	case 3:
		rv, same = RVersion{4, 1, 3}, false
	case 4:
		rv, same = RVersion{4, 2, 2}, false
	case 5:
		if !mpn {
			return
		}
		rc.RepoSuffix, same = "s2", false
	case 6:
		if mpn {
			rc, same = RepoConfig{}, false
		} else {
			rc, same = RepoConfig{RepoType: MPN, DefaultSourceType: Binary}, false
		}
	}
	max, dt := 3600, 0
	const env = "R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE"
	switch sym.Choice("maxage", 4) {
	case 0:
		dt = sym.Int("dt", 0, 200000)
	case 1:
		vos.Setenv(env, sym.Pick("badage", "x", "", "1h"))
		dt = sym.Int("dt", 0, 200000)
	case 2:
		k := sym.Choice("age", 5)
		vos.Setenv(env, []string{"0", "1", "60", "7200", "0086400"}[k])
		max = []int{0, 1, 60, 7200, 86400}[k]
		dt = sym.Int("dt", 0, 200000)
	case 3:
		s := sym.Str("ages", 1, sym.Param("digits", 2), "0123456789")
		vos.Setenv(env, s)
		max = 0
		for i := 0; i < len(s); i++ {
			max = max*10 + int(s[i]-'0')
		}
		dt = []int{0, 1, 7, 59, 60, 61, 3600}[sym.Choice("dts", 7)]
	}
	vtime.Clock = t0 + int64(dt)
	fresh := dt < max
	db, err := NewRepoDb(url, Source, rc, rv, false)
	vtime.Clock = t0
	sym.Assert(err == nil, "the second run reads an index")
	if err != nil {
		return
	}
	m := db.DescriptionsBySourceType[Source]
	old, now := verifIsIndex(m, 0, 0, 0), verifIsIndex(m, 0, 0, 1)
	sym.Assert(old || now, "the records are those of one fetch")
	if old {
		sym.Reach("cached")
		sym.Assert(same, "a cache entry of another repository, flavour or R version is not used")
		sym.Assert(fresh, "an expired cache entry is not used")
	} else {
		sym.Reach("fetched")
	}
	if mpn == (rc.RepoType == MPN) && mpn {
		b := db.DescriptionsBySourceType[Binary]
		sym.Assert(verifIsIndex(b, 0, 1, 0) == old && verifIsIndex(b, 0, 1, 1) == now, "all types come from the same fetch")
	}
}

// A first run that is killed or fails, and a second one right after it.
//
//verif:id C15
//verif:q _time=200
//verif:t _time=700
//verif:reach killed failed
func Verif_CacheCrash() {
	verifUbuntu()
	sym.Delays(0)
	rc := RepoConfig{}
	types := 1
	if sym.Choice("mpn", 2) == 1 {
		rc, types = RepoConfig{RepoType: MPN, DefaultSourceType: Binary}, 2
	}
	if sym.Choice("stale", 2) == 1 {
		// an older entry that has expired is there already
		vtime.Clock -= 4000
		vos.Clock = func() int64 { return vtime.Clock }
		vhttp.Handler = func(url string) vhttp.Reply {
			return vhttp.Reply{Status: 200, Body: verifIndex(0, verifTypeOf(url), 2), Cut: -1}
		}
		NewRepoDb(RepoURL{Name: "A", URL: "https://a.example"}, Source, rc, RVersion{4, 1, 2}, false)
		vtime.Clock += 4000
	}
	kill := -1
	kinds := []int{0, 0}
	if sym.Choice("how", 2) == 0 {
		kill = sym.Choice("kill", 14)
	} else {
		for t := 0; t < types; t++ {
			kinds[t] = sym.Choice("reply", 4)
		}
	}
	vhttp.Handler = func(url string) vhttp.Reply {
		t := verifTypeOf(url)
		return verifReply(kinds[t], verifIndex(0, t, 0), "cut")
	}
	base := vos.Ops
	vos.OnOp = func(op, path string, n int) error {
		if op != "open" && n-base == kill {
			sym.Crash()
		}
		return nil
	}
	var err error
	out := sym.Run(func() {
		_, err = NewRepoDb(RepoURL{Name: "A", URL: "https://a.example"}, Source, rc, RVersion{4, 1, 2}, false)
	})
	sym.Resume()
	vos.OnOp = nil
	switch {
	case out.Kind == "crashed":
		sym.Reach("killed")
	case kinds[0] != 0 || kinds[1] != 0:
		sym.Reach("failed")
	default:
		sym.Assert(out.Kind == "done" && err == nil, "a readable index is accepted")
	}
	// everything is available now
	vhttp.Handler = func(url string) vhttp.Reply {
		return vhttp.Reply{Status: 200, Body: verifIndex(0, verifTypeOf(url), 0), Cut: -1}
	}
	db, err := NewRepoDb(RepoURL{Name: "A", URL: "https://a.example"}, Source, rc, RVersion{4, 1, 2}, false)
	sym.Assert(err == nil, "a later run is not stopped by what an earlier one left")
	if err != nil {
		return
	}
	for t := 0; t < types; t++ {
		sym.Assert(verifIsIndex(db.DescriptionsBySourceType[verifTypes[1+t]], 0, t, 0), "an index that was not fetched completely is fetched again")
	}
}
