package cmd

import (
	"sort"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// verifRecord reads the printed JSON object of lists: what is listed under each name, sorted.
func verifRecord(text string) map[string]string {
	r := map[string]string{}
	var key string
	var list []string
	in := false
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case '[':
			in = true
			list = nil
		case ']':
			in = false
			sort.Strings(list)
			r[key] = strings.Join(list, " ")
		case '"':
			j := i + 1 + strings.IndexByte(text[i+1:], '"')
			if in {
				list = append(list, text[i+1:j])
			} else {
				key = text[i+1 : j]
				r[key] = ""
			}
			i = j
		}
	}
	return r
}

// verifBranches reads the printed tree: the sorted names below each path from the root.
func verifBranches(text string) map[string]string {
	lists := map[string][]string{}
	var path []string
	for _, line := range strings.Split(text, "\n") {
		i := strings.Index(line, "── ")
		if i < 0 {
			continue
		}
		// every level takes four columns; the rules and bars are three bytes each, the blanks in front of a level are
		// ordinary or non-breaking
		lead := []rune(line[:i])
		depth := (len(lead) - 1) / 4
		name := line[i+len("── "):]
		path = append(path[:depth:depth], name)
		up := strings.Join(path[:depth], "/")
		lists[up] = append(lists[up], name)
		here := strings.Join(path, "/")
		lists[here] = lists[here][:len(lists[here]):len(lists[here])]
	}
	r := map[string]string{}
	for k, l := range lists {
		sort.Strings(l)
		r[k] = strings.Join(l, " ")
	}
	return r
}

// Verif_Inspect: what `pkgr inspect --deps` prints is the dependency relation of the plan.
//
//verif:id C39
//verif:q n=3 _time=120
//verif:t n=4 _time=600
//verif:reach listed inverse tree named
func Verif_Inspect() {
	n := sym.Param("n", 3)
	w := verifMachine()
	names := []string{"aa", "bb", "cc", "dd"}[:n]
	needs := make([][]bool, n)
	for i := range names {
		needs[i] = make([]bool, n)
		fields := ""
		imports := ""
		for j := i + 1; j < n; j++ {
			switch sym.Choice("edge."+names[i]+names[j], 3) {
			case 1:
				imports += ", " + names[j]
				needs[i][j] = true
			case 2:
				fields += "Suggests: " + names[j] + "\n"
			}
		}
		if imports != "" {
			fields += "Imports: methods" + imports + "\n"
		}
		w.pkgs = append(w.pkgs, verifPkg{names[i], "1.0", fields})
	}
	// the relation is closed: later packages first
	for i := n - 1; i >= 0; i-- {
		for j := i + 1; j < n; j++ {
			if needs[i][j] {
				for k := range names {
					needs[i][k] = needs[i][k] || needs[j][k]
				}
			}
		}
	}
	planned := make([]bool, n)
	for i := range names {
		if i == 0 || sym.Choice("want."+names[i], 2) == 1 {
			cfg.Packages = append(cfg.Packages, names[i])
			planned[i] = true
			for j := range names {
				planned[j] = planned[j] || needs[i][j]
			}
		}
	}
	showDeps, reverse, tree = true, false, false
	mode := sym.Choice("mode", 3)
	reverse, tree = mode == 1, mode == 2
	var args []string
	named := make([]bool, n)
	if sym.Choice("named", 2) == 1 {
		sym.Reach("named")
		for i := range names {
			if planned[i] && sym.Choice("name."+names[i], 2) == 1 {
				args = append(args, names[i])
				named[i] = true
			}
		}
		sym.Assume(len(args) > 0)
	}
	// what each package is to be listed with
	rel := make([]string, n)
	for i := range names {
		var l []string
		for j := range names {
			if reverse && planned[j] && needs[j][i] || !reverse && needs[i][j] {
				l = append(l, names[j])
			}
		}
		rel[i] = strings.Join(l, " ")
	}
	sym.Capture()
	out := sym.Run(func() { w.err = inspect(nil, args) })
	sym.Resume()
	text := sym.Output()
	sym.Assert(out.Kind == "done" && w.err == nil, "inspecting succeeds")
	if tree {
		sym.Reach("tree")
		got := verifBranches(text)
		shown := map[string]bool{}
		for _, p := range strings.Fields(got[""]) {
			shown[p] = true
		}
		for i := range names {
			must := planned[i] && (named[i] || len(args) == 0 && rel[i] != "")
			may := must || planned[i] && len(args) == 0
			sym.Assert(!must || shown[names[i]], "every package with dependencies is a root")
			sym.Assert(may || !shown[names[i]], "only packages of the plan that were asked for are roots")
		}
		for path := range got {
			if path == "" {
				continue
			}
			for i := range names {
				if strings.HasSuffix(path, names[i]) {
					sym.Assert(got[path] == rel[i], "a package branches into its dependencies")
				}
			}
		}
		for i := range names {
			if shown[names[i]] {
				sym.Assert(got[names[i]] == rel[i], "a root branches into its dependencies")
			}
		}
		return
	}
	got := verifRecord(text)
	for i := range names {
		list, shown := got[names[i]]
		must := planned[i] && (named[i] || len(args) == 0 && rel[i] != "")
		may := must || planned[i] && len(args) == 0
		sym.Assert(!must || shown, "every package with relations is listed")
		sym.Assert(may || !shown, "only packages of the plan that were asked for are listed")
		if shown {
			sym.Assert(list == rel[i], "a package is listed with exactly its relations")
			if rel[i] != "" {
				sym.Reach(map[bool]string{true: "inverse", false: "listed"}[reverse])
			}
		}
	}
}

// Verif_InspectTree: a package is shown with its dependencies wherever the tree shows it.
//
//verif:id C39
//verif:q n=4 _time=60
//verif:t n=5 _time=600
//verif:reach twice
func Verif_InspectTree() {
	n := sym.Param("n", 4)
	w := verifMachine()
	names := []string{"aa", "bb", "cc", "dd", "ee"}[:n]
	need := map[string][]string{}
	for i := range names {
		imports := ""
		for j := i + 1; j < n; j++ {
			if sym.Choice("edge."+names[i]+names[j], 2) == 1 {
				imports += ", " + names[j]
			}
		}
		if imports != "" {
			imports = "Imports: " + imports[2:] + "\n"
		}
		w.pkgs = append(w.pkgs, verifPkg{names[i], "1.0", imports})
	}
	for i := n - 1; i >= 0; i-- {
		all := map[string]bool{}
		for _, d := range strings.Split(strings.TrimPrefix(strings.TrimSpace(w.pkgs[i].fields), "Imports: "), ", ") {
			if d != "" {
				all[d] = true
				for _, x := range need[d] {
					all[x] = true
				}
			}
		}
		for d := range all {
			need[names[i]] = append(need[names[i]], d)
		}
		sort.Strings(need[names[i]])
	}
	cfg.Packages = []string{"aa"}
	showDeps, reverse, tree = true, false, true
	var args []string
	if sym.Choice("named", 2) == 1 {
		args = []string{"aa"}
	}
	sym.Capture()
	out := sym.Run(func() { w.err = inspect(nil, args) })
	sym.Resume()
	got := verifBranches(sym.Output())
	sym.Assert(out.Kind == "done" && w.err == nil, "inspecting succeeds")
	seen := map[string]int{}
	for path, branches := range got {
		if path == "" {
			continue
		}
		p := path[strings.LastIndex(path, "/")+1:]
		seen[p]++
		sym.Assert(branches == strings.Join(need[p], " "), "a package branches into its dependencies wherever it is shown")
		if seen[p] > 1 && branches != "" {
			sym.Reach("twice")
		}
	}
	for _, p := range need["aa"] {
		sym.Assert(seen[p] > 0, "every dependency is shown")
	}
}
