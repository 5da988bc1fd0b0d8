// Command yieldgen writes a build overlay in which every statement of the
// library is preceded by a call that sometimes yields the processor or spins
// for a moment. The behaviour of the code is unchanged; schedules become much
// more diverse. The inserted call uses no synchronisation of its own, so the
// race detector sees the library's synchronisation only.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const helper = `package %s

import (
	"math/rand/v2"
	"runtime"
)

var verifSpin = [1]func(int){func(n int) {
	for i := 0; i < n; i++ {
	}
}}

func verifYield() {
	x := rand.Uint32()
	if x&15 == 0 {
		runtime.Gosched()
	} else if x&0x1fff == 1 {
		verifSpin[0](int(x >> 18))
	}
}
`

func main() {
	repo := flag.String("repo", "/repo", "library source")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	overlay := map[string]string{}
	pkgs := map[string]string{}
	points := 0
	err := filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := info.Name()
		if info.IsDir() {
			if path != *repo && (strings.HasPrefix(name, ".") || name == "testdata" || name == "demo") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); empty {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				for _, cl := range x.Body.List {
					list(cl.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, cl := range x.Body.List {
					list(cl.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, cl := range x.Body.List {
					list(cl.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Sort(sort.Reverse(sort.IntSlice(at)))
		last := -1
		text := string(src)
		for _, o := range at {
			if o == last {
				continue
			}
			last = o
			text = text[:o] + "verifYield(); " + text[o:]
			points++
		}
		rel, _ := filepath.Rel(*repo, path)
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			return err
		}
		overlay[path] = dst
		pkgs[filepath.Dir(path)] = f.Name.Name
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for dir, name := range pkgs {
		rel, _ := filepath.Rel(*repo, dir)
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__")+"__zz_verif_yield.go")
		if err := os.WriteFile(dst, []byte(fmt.Sprintf(helper, name)), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		overlay[filepath.Join(dir, "zz_verif_yield.go")] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(points)
}
