package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The constants of the sources that baseline.txt doesn't list, or lists less
// often, are handed to the generator as a dictionary. A change that does
// something special about a certain string or number is easier to reach then.
// The dictionary of the sources as they were is empty.

//go:embed baseline.txt
var baseline string

// lits counts the constants of a file.
func lits(f *ast.File, info *types.Info, count map[string]int) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BasicLit, *ast.BinaryExpr:
			tv := info.Types[x.(ast.Expr)]
			if tv.Value == nil {
				return true
			}
			switch tv.Value.Kind() {
			case constant.String:
				count["s "+strconv.Quote(constant.StringVal(tv.Value))]++
			case constant.Int:
				if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.CHAR {
					if s, err := strconv.Unquote(l.Value); err == nil {
						count["s "+strconv.Quote(s)]++
					}
					return false
				}
				if i, ok := constant.Int64Val(tv.Value); ok && i >= 3 && i <= 5000 {
					count[fmt.Sprintf("i %d", i)]++
				}
			}
			return false
		case *ast.SelectorExpr:
			if tv := info.Types[x]; tv.Value != nil && tv.Value.Kind() == constant.String {
				count["s "+strconv.Quote(constant.StringVal(tv.Value))]++
				return false
			}
		}
		return true
	})
}

// dictionary writes the generator's dictionary and returns the path that it
// has in the build and its own.
func dictionary(count map[string]int, out string) (string, string) {
	for _, l := range strings.Split(baseline, "\n") {
		n, v, ok := strings.Cut(l, " ")
		if k, err := strconv.Atoi(n); ok && err == nil {
			count[v] -= k
		}
	}
	var ss, is []string
	for v, n := range count {
		if n <= 0 {
			continue
		}
		if s, ok := strings.CutPrefix(v, "s "); ok {
			ss = append(ss, s)
		} else {
			is = append(is, v[2:])
		}
	}
	sort.Strings(ss)
	sort.Strings(is)
	wd, err := os.Getwd()
	if err != nil {
		die("%v", err)
	}
	src := "package world\n\nfunc init() {\n\tsetDict([]string{" + strings.Join(ss, ", ") + "}, []int{" + strings.Join(is, ", ") + "})\n}\n"
	dst := filepath.Join(out, "dict_lits.go")
	if err := os.WriteFile(dst, []byte(src), 0o644); err != nil {
		die("%v", err)
	}
	return filepath.Join(wd, "world", "dict_lits.go"), dst
}
