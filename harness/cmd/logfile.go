package cmd

import (
	"errors"
	"strings"

	"github.com/metrumresearchgroup/pkgr/configlib"
	"github.com/metrumresearchgroup/pkgr/logger"
	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
	"github.com/metrumresearchgroup/pkgr/verifsym/vhttp"
	"github.com/metrumresearchgroup/pkgr/verifsym/vlog"
	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
	"github.com/metrumresearchgroup/pkgr/verifsym/vviper/full"
)

// verifLogged asserts what a log file of a command holds: old, then a line for each record.
func verifLogged(file, old string, overwrite bool) {
	text := vos.Cat(file)
	if !overwrite {
		sym.Assert(strings.HasPrefix(text, old), "a log file keeps its records unless it is to be overwritten")
		text = text[len(old):]
	}
	lines := strings.SplitAfter(text, "\n")
	sym.Assert(lines[len(lines)-1] == "", "the last record of a log file is complete")
	lines = lines[:len(lines)-1]
	for _, r := range vlog.Entries {
		if !r.On || !r.Hooked && r.Level > vlog.InfoLevel {
			continue
		}
		if r.Level < vlog.ErrorLevel {
			sym.Reach("fatal")
		}
		sym.Assert(r.Hooked, "a record is written to the configured file")
		sym.Assert(len(lines) > 0, "every record is written to the configured file")
		m := strings.TrimSuffix(r.Message(), "\n")
		sym.Assert(strings.Contains(lines[0], vlog.Quote(m)) && strings.Contains(lines[0], r.Level.String()), "a line of the log file is the record")
		lines = lines[1:]
	}
	sym.Assert(len(lines) == 0, "every record is written once")
}

// Verif_LogFiles: the records of every command go to the configured file, and to no other.
//
//verif:id C42
//verif:q _time=120 _init=1
//verif:t _time=400 _init=1
//verif:reach all install none failed fatal
func Verif_LogFiles() {
	verifMachine(verifPkg{"aa", "1.0", "Imports: bb\n"}, verifPkg{"bb", "1.0", ""})
	full.Use()
	cfg = configlib.PkgrConfig{}
	vos.PutDir("/elsewhere")
	name := func(tag string) (text, means string) {
		n := sym.Choice(tag, 4)
		if n == 0 {
			return "", ""
		}
		return verifPath(n-1, "/work", tag+".log")
	}
	all, allAt := name("all")
	inst, instAt := name("inst")
	command := sym.Choice("command", 9)
	old := "{\"msg\":\"old\"}\n"
	text := "Version: 1\nRepos:\n  - R: " + verifURL + "\nLibrary: /lib\nCache: /cache\nRPath: R\nThreads: 1\nLogging:\n"
	if all != "" {
		text += "  all: " + all + "\n"
		vos.PutDir(allAt[:strings.LastIndex(allAt, "/")])
	}
	if inst != "" {
		text += "  install: " + inst + "\n"
		vos.PutDir(instAt[:strings.LastIndex(instAt, "/")])
	}
	there := sym.Choice("there", 2) == 1
	if !there {
		old = ""
	} else {
		for _, f := range []string{allAt, instAt} {
			if f != "" {
				vos.Put(f, old)
			}
		}
	}
	overwrite := sym.Choice("overwrite", 2) == 1
	if overwrite {
		text += "  overwrite: true\n"
	}
	text += "Packages:\n  - aa\n"
	switch sym.Choice("failing", 4) {
	case 1:
		text += "  - absent\n"
	case 2:
		vhttp.Handler = func(string) vhttp.Reply { return vhttp.Reply{Err: errors.New("no network")} }
	case 3:
		vhttp.Handler = func(string) vhttp.Reply { return vhttp.Reply{Status: 500, Cut: -1} }
	}
	vos.Put("/work/pkgr.yml", text)
	out := sym.Run(initConfig)
	sym.Resume()
	sym.Assert(out.Kind == "done", "the configuration is read")
	vlog.Entries = nil
	sym.Capture()
	out = sym.Run(func() {
		switch command {
		case 0:
			rInstall(nil, nil)
		case 1:
			plan(nil, nil)
		case 2:
			loadCmd.Run(nil, nil)
		case 3:
			rRun(nil, nil)
		case 4:
			showDeps = true
			inspect(nil, nil)
		case 5:
			rRemove(nil, []string{"aa"})
		case 6:
			rAdd(nil, []string{"bb"})
		case 7:
			cache(nil, nil)
		case 8:
			executeCommand(nil, nil)
		}
	})
	sym.Resume()
	sym.Assert(out.Kind != "hung", "the command ends")
	if out.Kind == "exited" {
		sym.Reach("failed")
	}
	used, other := allAt, instAt
	if command == 0 && instAt != "" {
		used, other = instAt, allAt
		sym.Reach("install")
	}
	if used == "" {
		sym.Reach("none")
		for _, r := range vlog.Entries {
			sym.Assert(!r.Hooked, "records are written to a file only if one is configured")
		}
	} else {
		sym.Reach("all")
		verifLogged(used, old, overwrite)
	}
	if other != "" && other != used {
		sym.Assert(vos.Has(other) == there && (!there || vos.Cat(other) == old), "the other log file is left alone")
	}
}

// Verif_LogOnce: adding a package and installing it at once logs every record once.
//
//verif:id C42
//verif:q _time=60 _init=1
//verif:reach same
func Verif_LogOnce() {
	verifMachine(verifPkg{"aa", "1.0", "Imports: bb\n"}, verifPkg{"bb", "1.0", ""})
	full.Use()
	cfg = configlib.PkgrConfig{}
	old := "{\"msg\":\"old\"}\n"
	text := "Version: 1\nRepos:\n  - R: " + verifURL + "\nLibrary: /lib\nCache: /cache\nRPath: R\nThreads: 1\nLogging:\n"
	switch sym.Choice("form", 3) {
	case 0:
		text += "  all: x.log\n"
	case 1:
		text += "  all: x.log\n  install: x.log\n"
	case 2:
		text += "  all: /work/x.log\n"
	}
	vos.Put("/work/x.log", old)
	overwrite := sym.Choice("overwrite", 2) == 1
	if overwrite {
		text += "  overwrite: true\n"
	}
	vos.Put("/work/pkgr.yml", text+"Packages:\n  - bb\n")
	full.Use()
	out := sym.Run(initConfig)
	sym.Resume()
	sym.Assert(out.Kind == "done", "the configuration is read")
	vlog.Entries = nil
	install = true
	sym.Capture()
	out = sym.Run(func() { rAdd(nil, []string{"aa"}) })
	sym.Resume()
	sym.Assert(out.Kind == "done", "the package is added and installed")
	sym.Assert(vos.Has("/lib/aa/DESCRIPTION"), "the package is added and installed")
	sym.Reach("same")
	verifLogged("/work/x.log", old, overwrite)
}

// Verif_LogRecords: what is logged at the same time, with any text and at any level, becomes one line per record.
//
//verif:id C42
//verif:q len=2 records=2 _time=60 _init=1
//verif:t len=3 records=3 _time=300 _init=1
//verif:reach mixed quiet
func Verif_LogRecords() {
	verifMachine()
	n := sym.Param("records", 2)
	level := vlog.Level(sym.Choice("level", 7))
	vlog.SetLevel(level)
	text := sym.Str("text", 0, sym.Param("len", 2), "a\"\\\n{%")
	logger.AddLogFile("/work/x.log", false)
	// the system makes each write as a whole
	vos.OnOp = func(op, path string, n int) error {
		if op == "write" {
			sym.Event("write " + string(rune('0'+sym.Tag())))
		}
		return nil
	}
	sym.Delays(2)
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			sym.SetTag(i)
			for j := 0; j < n; j++ {
				id := string(rune('A'+i)) + string(rune('0'+j))
				switch (i + j) % 3 {
				case 0:
					vlog.WithField("k", text).Info(id + text)
				case 1:
					vlog.Errorf("%s%s", id, text)
				case 2:
					vlog.Debugln(id, text)
				}
			}
			done <- true
		}()
	}
	<-done
	<-done
	vos.OnOp = nil
	data := vos.Cat("/work/x.log")
	lines := strings.SplitAfter(data, "\n")
	sym.Assert(lines[len(lines)-1] == "", "the last record of a log file is complete")
	lines = lines[:len(lines)-1]
	expected, last, taken := 0, map[string]int{}, map[int]bool{}
	for i := 0; i < 2; i++ {
		for j := 0; j < n; j++ {
			at := []vlog.Level{vlog.InfoLevel, vlog.ErrorLevel, vlog.DebugLevel}[(i+j)%3]
			if at > level {
				continue
			}
			expected++
			who := string(rune('A' + i))
			id := who + string(rune('0'+j))
			found := 0
			for k, l := range lines {
				if strings.Contains(l, "\""+id) {
					found++
					sym.Assert(strings.Contains(l, at.String()) && strings.Contains(l, vlog.Quote(text)), "a line of the log file is the record")
					sym.Assert(k >= last[who], "records of one task are in their order")
					last[who] = k
					sym.Assert(!taken[k], "a line of the log file is one record")
					taken[k] = true
				}
			}
			sym.Assert(found == 1, "every record is written once")
		}
	}
	sym.Assert(len(lines) == expected, "a line for every record of an enabled level, and no others")
	if expected == 0 {
		sym.Reach("quiet")
	} else {
		sym.Reach("mixed")
	}
}
