package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"go/parser"
	"go/token"
	"golang.org/x/tools/go/packages"
)

// aliasMain completes a shim package with aliases of the real package's other exported names:
// gosym alias SHIM REALPATH
func aliasMain(verif string, args []string) int {
	dir := filepath.Join(verif, "shims", args[0])
	real := args[1]
	defined := map[string]bool{}
	fset := token.NewFileSet()
	name := ""
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if filepath.Base(m) == "z_alias.go" {
			continue
		}
		f, err := parser.ParseFile(fset, m, nil, 0)
		if err != nil {
			fmt.Println(err)
			return 3
		}
		name = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					defined[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						defined[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							defined[n.Name] = true
						}
					}
				}
			}
		}
	}
	pk, err := packages.Load(&packages.Config{Mode: packages.LoadTypes | packages.NeedImports, Dir: env("VERIF_REPO", "/repo"), Env: append(os.Environ(), "GOFLAGS=-mod=readonly")}, real)
	if err != nil || len(pk) != 1 || pk[0].Types == nil {
		fmt.Println("load", err)
		return 3
	}
	sc := pk[0].Types.Scope()
	var consts, tys, vars []string
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || defined[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			consts = append(consts, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			tys = append(tys, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			vars = append(vars, n)
		case *types.Var:
			vars = append(vars, n)
		}
	}
	sort.Strings(consts)
	var sb strings.Builder
	fmt.Fprintf(&sb, "// Code generated by gosym alias; the parts of %s the model leaves as they are.\n\npackage %s\n\nimport real_ %q\n\n", real, name, real)
	wr := func(kw string, l []string) {
		if len(l) == 0 {
			return
		}
		fmt.Fprintf(&sb, "%s (\n", kw)
		for _, n := range l {
			fmt.Fprintf(&sb, "\t%s = real_.%s\n", n, n)
		}
		sb.WriteString(")\n\n")
	}
	wr("const", consts)
	wr("type", tys)
	wr("var", vars)
	if len(consts)+len(tys)+len(vars) == 0 {
		return 0
	}
	if err := os.WriteFile(filepath.Join(dir, "z_alias.go"), []byte(sb.String()), 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	return 0
}
