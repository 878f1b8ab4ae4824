package cmd

import (
	"strings"
	"sync"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

// Verif_SharedTarball: two processes unpack the same tarball into the same cache.
//
//verif:id C35
//verif:q _time=250 pre=2
//verif:t _time=150 pre=4
//verif:reach fresh unpacked
func Verif_SharedTarball() {
	verifMachine()
	const f = "/work/t.tar.gz"
	vos.Put(f, verifTar("1"))
	if sym.Choice("state", 2) == 1 {
		sym.Reach("unpacked")
		unpackTarballs(fs, []string{f}, cfg.Cache)
	} else {
		sym.Reach("fresh")
	}
	sym.Delays(sym.Param("pre", 2))
	good := make([]string, 2)
	vos.Sched = true
	out := sym.Run(func() {
		var wg sync.WaitGroup
		for i := range good {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sym.SetTag(i)
				d, m := unpackTarballs(fs, []string{f}, cfg.Cache)
				if len(d) == 1 && d[0].Version == "1" && len(m) == 1 {
					good[i] = m["t"].InstallPath
					sym.Assert(verifUnpacked(good[i], "1"), "no process uses a package another one is unpacking")
				}
			}()
		}
		wg.Wait()
	})
	sym.Resume()
	vos.Sched = false
	sym.Assert(out.Kind == "done", "every process ends: "+strings.TrimSpace(out.Kind))
	for i := range good {
		sym.Assert(good[i] != "" && verifUnpacked(good[i], "1"), "every process has the whole package")
	}
}
