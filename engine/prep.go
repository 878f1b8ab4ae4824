package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const shimBase = modPath + "/verifsym/"

// imports of the real code that are redirected to the environment model
var redirect = map[string]string{
	"os":                              "vos",
	"os/exec":                         "vexec",
	"net/http":                        "vhttp",
	"github.com/sirupsen/logrus":      "vlog",
	"path/filepath":                   "vfilepath",
	"io/ioutil":                       "vioutil",
	"time":                            "vtime",
	"runtime":                         "vruntime",
	"math/rand":                       "vrand",
	"crypto/md5":                      "vmd5",
	"encoding/gob":                    "vgob",
	"encoding/json":                   "vjson",
	"github.com/spf13/viper":          "vviper",
	"github.com/spf13/afero":          "vafero",
	"github.com/dpastoor/goutils":     "vgoutils",
	"github.com/mitchellh/go-homedir": "vhomedir",
	"github.com/sajari/fuzzy":         "vfuzzy",
	"github.com/mholt/archives":       "varchives",
}

var pkgNames = map[string]string{
	"github.com/mitchellh/go-homedir": "homedir",
	"math/rand/v2":                    "rand",
}

type Harness struct {
	Name    string // function
	Pkg     string // import path
	File    string
	Props   []string
	Quick   map[string]int
	Thor    map[string]int
	Reach   []string
	Doc     string
	skipped string
}

type Prep struct {
	repo, verif string
	work        string            // scratch directory
	overlay     map[string]string // virtual path -> real path
	harness     []*Harness
	dropped     []string
	prog        *ssa.Program
	fset        *token.FileSet
	srcFiles    int
	stubs       int
}

func skipDir(rel string) bool {
	for _, p := range []string{"integration_tests", "testhelper", "internal/tools", "internal/valtools", "docs", "verifsym", ".git"} {
		if rel == p || strings.HasPrefix(rel, p+"/") {
			return true
		}
	}
	return false
}

// rewriteImports redirects imports textually, keeping every line number.
func rewriteImports(src []byte, name string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	type edit struct {
		lo, hi int
		s      string
	}
	var es []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := redirect[p]
		if !ok {
			continue
		}
		if _, err := os.Stat(filepath.Join(shimDir, to)); err != nil {
			continue
		}
		s := strconv.Quote(shimBase + to)
		if im.Name == nil {
			n := p[strings.LastIndexByte(p, '/')+1:]
			if x := pkgNames[p]; x != "" {
				n = x
			}
			s = n + " " + s
		}
		es = append(es, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, s})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].lo > es[j].lo })
	out := string(src)
	for _, e := range es {
		out = out[:e.lo] + e.s + out[e.hi:]
	}
	return []byte(out), nil
}

var shimDir string

func newPrep(repo, verif, work string) (*Prep, error) {
	p := &Prep{repo: repo, verif: verif, work: work, overlay: map[string]string{}}
	shimDir = filepath.Join(verif, "shims")
	n := 0
	put := func(virtual string, data []byte) error {
		n++
		f := filepath.Join(work, "ov", fmt.Sprintf("%d_%s", n, filepath.Base(virtual)))
		if err := os.WriteFile(f, data, 0o644); err != nil {
			return err
		}
		p.overlay[virtual] = f
		return nil
	}
	if err := os.MkdirAll(filepath.Join(work, "ov"), 0o755); err != nil {
		return nil, err
	}
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		if fi.IsDir() {
			if rel != "." && (skipDir(rel) || strings.HasPrefix(fi.Name(), ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		p.srcFiles++
		out, err := rewriteImports(src, path)
		if err != nil {
			return nil // reported by the loader
		}
		if string(out) != string(src) {
			return put(path, out)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// environment model
	err = filepath.Walk(shimDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(shimDir, path)
		p.overlay[filepath.Join(repo, "verifsym", rel)] = path
		return nil
	})
	if err != nil {
		return nil, err
	}
	// harnesses
	hd := filepath.Join(verif, "harness")
	err = filepath.Walk(hd, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hd, path)
		dir, base := filepath.Split(rel)
		if st, err := os.Stat(filepath.Join(repo, dir)); err != nil || !st.IsDir() {
			if !strings.HasPrefix(dir, "verifsym") {
				p.dropped = append(p.dropped, rel+": no package directory "+dir)
				return nil
			}
		}
		v := filepath.Join(repo, dir, "zz_verif_"+base)
		if strings.HasPrefix(dir, "verifsym") {
			v = filepath.Join(repo, dir, base)
		}
		p.overlay[v] = path
		hs, err := scanHarness(path, modPath+"/"+strings.TrimSuffix(dir, "/"))
		if err != nil {
			return err
		}
		p.harness = append(p.harness, hs...)
		return nil
	})
	return p, err
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.Fields(s) {
		k, v, ok := strings.Cut(f, "=")
		if !ok {
			continue
		}
		n, err := strconv.Atoi(v)
		if err != nil {
			panic("bad parameter " + f)
		}
		m[k] = n
	}
	return m
}

func scanHarness(path, pkg string) ([]*Harness, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []*Harness
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !strings.HasPrefix(fd.Name.Name, "Verif_") || fd.Doc == nil {
			continue
		}
		h := &Harness{Name: fd.Name.Name, Pkg: pkg, File: path, Quick: map[string]int{}, Thor: map[string]int{}}
		for _, c := range fd.Doc.List {
			t := strings.TrimPrefix(c.Text, "//")
			switch {
			case strings.HasPrefix(t, "verif:id"):
				h.Props = strings.Fields(t[len("verif:id"):])
			case strings.HasPrefix(t, "verif:q"):
				h.Quick = parseParams(t[len("verif:q"):])
			case strings.HasPrefix(t, "verif:t"):
				h.Thor = parseParams(t[len("verif:t"):])
			case strings.HasPrefix(t, "verif:reach"):
				h.Reach = strings.Fields(t[len("verif:reach"):])
			default:
				h.Doc += strings.TrimSpace(t) + " "
			}
		}
		h.Doc = strings.TrimSpace(h.Doc)
		if len(h.Props) > 0 {
			out = append(out, h)
		}
	}
	return out, nil
}

func (p *Prep) overlayBytes() map[string][]byte {
	m := map[string][]byte{}
	for v, r := range p.overlay {
		if b, err := os.ReadFile(r); err == nil {
			m[v] = b
		}
	}
	return m
}

// load type-checks and builds SSA for the packages of the given harnesses.  Harness files that no longer
// compile against the tree are dropped (and reported as a reduced bound).
func (p *Prep) load(hs []*Harness) error {
	for round := 0; round < 16; round++ {
		pats := map[string]bool{}
		for _, h := range hs {
			if h.skipped == "" {
				pats[h.Pkg] = true
			}
		}
		if len(pats) == 0 {
			return nil
		}
		var list []string
		for k := range pats {
			list = append(list, k)
		}
		sort.Strings(list)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: p.repo, Overlay: p.overlayBytes(), Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0")}
		pkgs, err := packages.Load(cfg, list...)
		if err != nil {
			return err
		}
		bad := map[string]string{} // harness file -> error
		var hard []string
		var hardErrs []packages.Error
		packages.Visit(pkgs, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				file := e.Pos
				if i := strings.IndexByte(file, ':'); i > 0 {
					file = file[:i]
				}
				if strings.Contains(file, "zz_verif_") {
					bad[file] = e.Error()
				} else if strings.HasPrefix(q.PkgPath, modPath) {
					hard = append(hard, e.Error())
					hardErrs = append(hardErrs, e)
				}
			}
		})
		if len(hard) > 0 && p.stub(hardErrs) {
			continue
		}
		if len(bad) == 0 && len(hard) > 0 {
			return fmt.Errorf("the tree does not load: %s", strings.Join(hard, "; "))
		}
		if len(bad) == 0 {
			prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
			prog.Build()
			p.prog, p.fset = prog, prog.Fset
			return nil
		}
		for f, msg := range bad {
			real := p.overlay[f]
			delete(p.overlay, f)
			p.dropped = append(p.dropped, fmt.Sprintf("harness %s no longer compiles: %s", filepath.Base(f), msg))
			for _, h := range hs {
				if h.File == real {
					h.skipped = msg
				}
			}
			for _, h := range p.harness {
				if h.File == real {
					h.skipped = msg
				}
			}
		}
	}
	return fmt.Errorf("harness files keep failing to compile")
}

// stub takes functions that do not compile against the environment model (they use something the model lacks) out of
// the encoding: a path that calls one ends without a verdict.  Imports that become unused are kept as blank imports.
func (p *Prep) stub(errs []packages.Error) bool {
	byFile := map[string][]packages.Error{}
	for _, e := range errs {
		f := strings.Split(e.Pos, ":")
		if len(f) < 2 || strings.Contains(f[0], "/verifsym/") {
			return false
		}
		byFile[f[0]] = append(byFile[f[0]], e)
	}
	done := false
	for file, es := range byFile {
		real := file
		if r, ok := p.overlay[file]; ok {
			real = r
		}
		src, err := os.ReadFile(real)
		if err != nil {
			return false
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			return false
		}
		type edit struct {
			lo, hi int
			s      string
		}
		edits := map[int]edit{}
		for _, e := range es {
			line, _ := strconv.Atoi(strings.Split(e.Pos, ":")[1])
			for _, im := range af.Imports {
				if fset.Position(im.Pos()).Line == line && strings.Contains(e.Msg, "imported") {
					lo := fset.Position(im.Pos()).Offset
					edits[lo] = edit{lo, fset.Position(im.End()).Offset, "_ " + im.Path.Value}
				}
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || line < fset.Position(fd.Body.Pos()).Line || line > fset.Position(fd.Body.End()).Line {
					continue
				}
				lo, hi := fset.Position(fd.Body.Pos()).Offset, fset.Position(fd.Body.End()).Offset
				body := string(src[lo:hi])
				if strings.Contains(body, stubMark) {
					return false
				}
				edits[lo] = edit{lo, hi, "{ panic(" + strconv.Quote(stubMark+fd.Name.Name+": "+e.Msg) + ")" + strings.Repeat("\n", strings.Count(body, "\n")) + "}"}
				p.dropped = append(p.dropped, fmt.Sprintf("%s is not encoded: %s", fd.Name.Name, e.Msg))
			}
		}
		if len(edits) == 0 {
			continue
		}
		var list []edit
		for _, e := range edits {
			list = append(list, e)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].lo > list[j].lo })
		out := string(src)
		for _, e := range list {
			out = out[:e.lo] + e.s + out[e.hi:]
		}
		p.stubs++
		f := filepath.Join(p.work, "ov", fmt.Sprintf("stub%d_%s", p.stubs, filepath.Base(file)))
		if os.WriteFile(f, []byte(out), 0o644) != nil {
			return false
		}
		p.overlay[file] = f
		done = true
	}
	return done
}

// stubMark begins the panic value of a function taken out of the encoding.
const stubMark = "gosym: not encoded: "

func (p *Prep) writeOverlayJSON(extra map[string]string) (string, error) {
	m := map[string]string{}
	for k, v := range p.overlay {
		m[k] = v
	}
	for k, v := range extra {
		m[k] = v
	}
	b, err := json.Marshal(map[string]any{"Replace": m})
	if err != nil {
		return "", err
	}
	f := filepath.Join(p.work, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}
