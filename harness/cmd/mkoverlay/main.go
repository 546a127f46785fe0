// mkoverlay writes copies of the package under test with two imports
// redirected (net -> vnet, sync -> vsync) and a scheduling point at the start
// of every goroutine, and the overlay file that makes the go tool use them.
// Nothing else of the source is touched.
//
//	mkoverlay REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"net":  "verifharness/vnet",
	"sync": "verifharness/vsync",
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		panic(err)
	}
	replace := map[string]string{}
	if err := os.MkdirAll(filepath.Join(out, "src"), 0o755); err != nil {
		panic(err)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue // the build will report it
		}
		type edit struct {
			off, end int
			text     string
		}
		var edits []edit
		for _, imp := range af.Imports {
			p, _ := strconv.Unquote(imp.Path.Value)
			to, ok := redirect[p]
			if !ok {
				continue
			}
			name := p
			if imp.Name != nil {
				name = imp.Name.Name
			}
			edits = append(edits, edit{fset.Position(imp.Pos()).Offset, fset.Position(imp.Path.End()).Offset, name + " " + strconv.Quote(to)})
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		gos := 0
		ast.Inspect(af, func(n ast.Node) bool {
			g, ok := n.(*ast.GoStmt)
			if !ok {
				return true
			}
			gos++
			edits = append(edits, edit{off(g.End()), off(g.End()), "; vsyncgo_.Spawned()"})
			if lit, ok := g.Call.Fun.(*ast.FuncLit); ok {
				at := off(lit.Body.Lbrace) + 1
				edits = append(edits, edit{at, at, " defer vsyncgo_.End(); vsyncgo_.Start(); "})
				return true
			}
			// go f(a, b) becomes go Call(f, a, b): all are evaluated here
			sep := ", "
			if len(g.Call.Args) == 0 {
				sep = ""
			}
			edits = append(edits, edit{off(g.Call.Fun.Pos()), off(g.Call.Fun.Pos()), "vsyncgo_.Call("})
			edits = append(edits, edit{off(g.Call.Lparen), off(g.Call.Lparen) + 1, sep})
			return true
		})
		if gos > 0 {
			at := off(af.Name.End())
			edits = append(edits, edit{at, at, "; import vsyncgo_ \"verifharness/vsync\""})
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(src[last:])
		dst := filepath.Join(out, "src", filepath.Base(f))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
		replace[f] = dst
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		panic(err)
	}
}
