// Package gen makes workloads: PDUs, OIDs, byte strings and tree histories.
package gen

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Dict holds the literals of the code under observation, used (like a fuzzing
// dictionary) as interesting values. It is no part of any oracle.
type Dict struct {
	Ints []uint64
	Strs []string
	Seqs [][]uint32 // lists of small integers, such as OIDs
}

// TheDict is loaded once at start.
var TheDict Dict

// LoadDict collects the integer, character and string literals (and constant
// expressions over them) of all non-test Go files below dir.
func LoadDict(dir string) Dict {
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	seqs := map[string][]uint32{}
	seq := func(list []ast.Expr) {
		var out []uint32
		for _, e := range list {
			v := eval(e)
			if v.Kind() != constant.Int {
				return
			}
			u, ok := constant.Uint64Val(v)
			if !ok || u > 1<<32-1 {
				return
			}
			out = append(out, uint32(u))
		}
		if len(out) > 1 && len(out) < 40 {
			seqs[fmt.Sprint(out)] = out
		}
	}
	fset := token.NewFileSet()
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && path != dir {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				seq(x.Elts)
			case *ast.CallExpr:
				for i := 0; i < 3 && i < len(x.Args); i++ {
					seq(x.Args[i:])
				}
			case *ast.BasicLit, *ast.BinaryExpr, *ast.UnaryExpr:
				v := eval(x.(ast.Expr))
				switch v.Kind() {
				case constant.Int:
					if i, ok := constant.Int64Val(v); ok {
						for d := int64(-1); d <= 1; d++ {
							ints[uint64(i+d)] = true
						}
					} else if u, ok := constant.Uint64Val(v); ok {
						ints[u] = true
					}
				case constant.String:
					s := constant.StringVal(v)
					if len(s) > 0 && len(s) < 200 {
						strs[s] = true
					}
					var list []ast.Expr
					for _, f := range strings.Split(strings.TrimPrefix(s, "."), ".") {
						list = append(list, &ast.BasicLit{Kind: token.INT, Value: f})
					}
					if strings.Trim(s, ".0123456789") == "" {
						seq(list)
					}
				}
			}
			return true
		})
		return nil
	})
	var d Dict
	for i := range ints {
		d.Ints = append(d.Ints, i)
	}
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	for _, s := range seqs {
		d.Seqs = append(d.Seqs, s)
	}
	sort.Slice(d.Seqs, func(i, j int) bool { return fmt.Sprint(d.Seqs[i]) < fmt.Sprint(d.Seqs[j]) })
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	sort.Strings(d.Strs)
	return d
}

func eval(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = constant.MakeUnknown()
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if x.Kind == token.CHAR {
			return constant.ToInt(v)
		}
		return v
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.UnaryExpr:
		a := eval(x.X)
		if a.Kind() == constant.Int && (x.Op == token.SUB || x.Op == token.ADD) {
			return constant.UnaryOp(x.Op, a, 0)
		}
	case *ast.BinaryExpr:
		a, b := eval(x.X), eval(x.Y)
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			switch x.Op {
			case token.SHL, token.SHR:
				s, ok := constant.Uint64Val(b)
				if ok && s < 64 {
					return constant.Shift(a, x.Op, uint(s))
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
				return constant.BinaryOp(a, x.Op, b)
			}
		}
	}
	return constant.MakeUnknown()
}
