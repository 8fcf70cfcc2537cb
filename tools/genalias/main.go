// genalias writes z_alias.go re-exporting the parts of a standard package that
// the hand written replacement in the same directory does not define.
// usage: genalias <import path> <dir> <package name>
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	path, dir, name := os.Args[1], os.Args[2], os.Args[3]
	out := filepath.Join(dir, "z_alias.go")
	os.Remove(out)
	have := map[string]bool{}
	fset := token.NewFileSet()
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		f, err := parser.ParseFile(fset, m, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.Default().Import(path)
	if err != nil {
		panic(err)
	}
	base := path[strings.LastIndex(path, "/")+1:]
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by tools/genalias; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", name, path)
	_ = base
	names := pkg.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, id := range names {
		if !ast.IsExported(id) || have[id] {
			continue
		}
		switch o := pkg.Scope().Lookup(id).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", id, id)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintf(os.Stderr, "skip generic type %s.%s\n", path, id)
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", id, id)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(os.Stderr, "skip generic func %s.%s\n", path, id)
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", id, id)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", id, id)
		}
		n++
	}
	if n == 0 {
		return
	}
	if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
}
