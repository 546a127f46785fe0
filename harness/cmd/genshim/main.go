// genshim writes a package that re-exports everything in a standard package,
// except the identifiers listed on the command line.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

func main() {
	path, pkgname := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	base := path[strings.LastIndex(path, "/")+1:]
	fmt.Printf("// Code generated by genshim; DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n", pkgname, path)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			fmt.Printf("type %s = %s.%s\n", n, base, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "generic function skipped:", n)
				continue
			}
			fmt.Printf("var %s = %s.%s\n", n, base, n)
		case *types.Var:
			fmt.Printf("var %s = %s.%s\n", n, base, n)
		case *types.Const:
			fmt.Printf("const %s = %s.%s\n", n, base, n)
		}
	}
}
