package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Functions of package bytes in terms of a sequence s and the positions from
// and to of the part they are given, so that positions in the result can be
// put in terms of s.
const modelSource = `package model

func index1(s []byte, from, to int, a byte) int {
	for i := from; i < to; i++ {
		if s[i] == a {
			return i - from
		}
	}
	return -1
}

func index2(s []byte, from, to int, a, b byte) int {
	for i := from; i+1 < to; i++ {
		if s[i] == a && s[i+1] == b {
			return i - from
		}
	}
	return -1
}

func contains1(s []byte, from, to int, a byte) bool {
	return index1(s, from, to, a) >= 0
}

func contains2(s []byte, from, to int, a, b byte) bool {
	return index2(s, from, to, a, b) >= 0
}

func prefix1(s []byte, from, to int, a byte) bool {
	return from < to && s[from] == a
}

func prefix2(s []byte, from, to int, a, b byte) bool {
	return from+1 < to && s[from] == a && s[from+1] == b
}

func suffix1(s []byte, from, to int, a byte) bool {
	return from < to && s[to-1] == a
}

func suffix2(s []byte, from, to int, a, b byte) bool {
	return from+1 < to && s[to-2] == a && s[to-1] == b
}

func equal1(s []byte, from, to int, a byte) bool {
	return to-from == 1 && s[from] == a
}

func equal2(s []byte, from, to int, a, b byte) bool {
	return to-from == 2 && s[from] == a && s[from+1] == b
}
`

// bytesModel: the model of a function applied to a separator of n bytes.
func (P *Program) bytesModel(name string, n int) *ssa.Function {
	if P.models == nil {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "model.go", modelSource, 0)
		if err != nil {
			panic(err)
		}
		P.models, _, err = ssautil.BuildPackage(&types.Config{}, fset, types.NewPackage("model", "model"), []*ast.File{f}, ssa.InstantiateGenerics)
		if err != nil {
			panic(err)
		}
	}
	m := map[string]string{
		"bytes.Index": "index", "bytes.IndexByte": "index", "slices.Index": "index",
		"bytes.Contains": "contains", "slices.Contains": "contains",
		"bytes.HasPrefix": "prefix", "bytes.HasSuffix": "suffix", "bytes.Equal": "equal", "slices.Equal": "equal",
	}[name]
	if m == "" || n < 1 || n > 2 {
		return nil
	}
	return P.models.Func(m + string(rune('0'+n)))
}

func (P *Program) isModel(f *ssa.Function) bool { return P.models != nil && f.Pkg == P.models }
