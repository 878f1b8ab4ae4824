package cmd

import (
	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vruntime"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper"
)

// Verif_WorkerCount: the number of workers for every configured and available number.
//
//verif:id C26
//verif:reach default capped configured
func Verif_WorkerCount() {
	threads := sym.Int("threads", -1<<20, 1<<20)
	cpus := sym.Int("cpus", 1, 1<<20)
	n := getWorkerCount(threads, cpus)
	if threads < 0 {
		sym.Assert(n >= 1, "there is at least one worker")
		return
	}
	if threads == 0 {
		if cpus > 8 {
			sym.Reach("capped")
			sym.Assert(n == 8, "at most eight workers by default")
		} else {
			sym.Reach("default")
			sym.Assert(n == cpus, "all usable processors by default")
		}
	} else {
		sym.Reach("configured")
		sym.Assert(n == threads, "the configured number of workers is used")
	}
	sym.Assert(n >= 1, "there is at least one worker")
}

// verifThreads loads a configuration on a machine with some processors.
func verifThreads(set bool, threads, cores int) int {
	vviper.Reset()
	vos.Put("/work/pkgr.yml", "Version: 1\n")
	if set {
		vviper.Set("threads", threads)
	}
	vruntime.Cores = cores
	vviper.OnUnmarshal = func(out any) error {
		c := out.(*configlib.PkgrConfig)
		c.Threads = vviper.GetInt("threads")
		c.Library = "/lib"
		return nil
	}
	var c configlib.PkgrConfig
	configlib.NewConfig("/work/pkgr.yml", &c)
	return getWorkerCount(c.Threads, vruntime.GOMAXPROCS(0))
}

// Verif_WorkerConfig: the number of workers that follows from the loaded configuration.
//
//verif:id C26
//verif:reach default capped configured
func Verif_WorkerConfig() {
	set := sym.Choice("set", 2) == 1
	threads := sym.Int("threads", 1, 64)
	cores := sym.Int("cores", 1, 64)
	n := verifThreads(set, threads, cores)
	switch {
	case set:
		sym.Reach("configured")
		sym.Assert(n == threads, "the configured number of workers is used")
	case cores > 8:
		sym.Reach("capped")
		sym.Assert(n == 8, "at most eight workers by default")
	default:
		sym.Reach("default")
		sym.Assert(n == cores, "all usable processors by default")
	}
}
