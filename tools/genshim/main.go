// genshim writes shim packages which re-export everything of a standard
// package except the names listed in an override file of the same directory.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	for _, arg := range os.Args[1:] {
		parts := strings.Split(arg, "=")
		gen(parts[0], parts[1])
	}
}

func gen(std, dir string) {
	fset := token.NewFileSet()
	overridden := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "zz_gen.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					overridden[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						overridden[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							overridden[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	var out strings.Builder
	name := filepath.Base(dir)
	fmt.Fprintf(&out, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", name, std)
	names := pkg.Scope().Names()
	sort.Strings(names)
	used := false
	for _, n := range names {
		obj := pkg.Scope().Lookup(n)
		if !obj.Exported() || overridden[n] {
			continue
		}
		used = true
		switch o := obj.(type) {
		case *types.Const:
			fmt.Fprintf(&out, "const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&out, "var %s = std.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintf(os.Stderr, "%s.%s: generic type skipped\n", std, n)
				continue
			}
			fmt.Fprintf(&out, "type %s = std.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(os.Stderr, "%s.%s: generic function skipped\n", std, n)
				continue
			}
			fmt.Fprintf(&out, "var %s = std.%s\n", n, n)
		}
	}
	if !used {
		out.Reset()
		fmt.Fprintf(&out, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n", name)
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_gen.go"), []byte(out.String()), 0644); err != nil {
		panic(err)
	}
}
