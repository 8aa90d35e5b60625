package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
)

// stdSource gives the meaning of small library functions as plain loops, which the evaluation
// follows where a package calls them.
var stdSource = map[string]string{
	"slices": `package slices

type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

func Contains[S ~[]E, E comparable](s S, v E) bool {
	for i := range s {
		if s[i] == v {
			return true
		}
	}
	return false
}

func ContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool {
	for i := range s {
		if f(s[i]) {
			return true
		}
	}
	return false
}

func Index[S ~[]E, E comparable](s S, v E) int {
	for i := range s {
		if s[i] == v {
			return i
		}
	}
	return -1
}

func IndexFunc[S ~[]E, E any](s S, f func(E) bool) int {
	for i := range s {
		if f(s[i]) {
			return i
		}
	}
	return -1
}

func Equal[S ~[]E, E comparable](s1, s2 S) bool {
	if len(s1) != len(s2) {
		return false
	}
	for i := range s1 {
		if s1[i] != s2[i] {
			return false
		}
	}
	return true
}

func EqualFunc[S1 ~[]E1, S2 ~[]E2, E1, E2 any](s1 S1, s2 S2, eq func(E1, E2) bool) bool {
	if len(s1) != len(s2) {
		return false
	}
	for i := range s1 {
		if !eq(s1[i], s2[i]) {
			return false
		}
	}
	return true
}

func Clone[S ~[]E, E any](s S) S {
	return append(S(nil), s...)
}

func Grow[S ~[]E, E any](s S, n int) S {
	return s
}

func Clip[S ~[]E, E any](s S) S {
	return s
}

func Reverse[S ~[]E, E any](s S) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

func Max[S ~[]E, E ordered](x S) E {
	if len(x) < 1 {
		panic("slices.Max: empty list")
	}
	m := x[0]
	for i := 1; i < len(x); i++ {
		m = max(m, x[i])
	}
	return m
}

func Min[S ~[]E, E ordered](x S) E {
	if len(x) < 1 {
		panic("slices.Min: empty list")
	}
	m := x[0]
	for i := 1; i < len(x); i++ {
		m = min(m, x[i])
	}
	return m
}
`,
	"bytes": `package bytes

func Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Clone(b []byte) []byte {
	return append([]byte(nil), b...)
}
`,
	"encoding/binary": `package binary

type littleEndian struct{}

type bigEndian struct{}

func (littleEndian) Uint16(b []byte) uint16 {
	return uint16(b[0])<<0 | uint16(b[1])<<8
}

func (littleEndian) Uint32(b []byte) uint32 {
	return uint32(b[0])<<0 | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func (littleEndian) Uint64(b []byte) uint64 {
	return uint64(b[0])<<0 | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

func (bigEndian) Uint16(b []byte) uint16 {
	return uint16(b[0])<<8 | uint16(b[1])<<0
}

func (bigEndian) Uint32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])<<0
}

func (bigEndian) Uint64(b []byte) uint64 {
	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])<<0
}
`,
}

// loadStd type-checks stdSource.
func (p *Program) loadStd() error {
	p.Std = map[string]*FuncInfo{}
	for name, src := range stdSource {
		file, err := parser.ParseFile(p.Fset, "std/"+name+".go", src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		pkg := &Pkg{Path: "std/" + name, Files: []*ast.File{file}, Names: []string{"std/" + name + ".go"}, Info: &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Implicits:  map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
			Scopes:     map[ast.Node]*types.Scope{},
		}}
		conf := types.Config{Sizes: types.SizesFor("gc", "amd64")}
		pkg.Types, err = conf.Check(pkg.Path, p.Fset, pkg.Files, pkg.Info)
		if err != nil {
			return fmt.Errorf("std/%s: %v", name, err)
		}
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				obj := pkg.Info.Defs[fd.Name].(*types.Func)
				key := name + "."
				if fd.Recv != nil {
					key += fd.Recv.List[0].Type.(*ast.Ident).Name + "."
				}
				p.Std[key+fd.Name.Name] = &FuncInfo{Obj: obj, Decl: fd, Pkg: pkg}
			}
		}
	}
	return nil
}
