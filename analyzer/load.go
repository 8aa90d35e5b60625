package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/sp301415/ringo-snark"

// Pkg is a type-checked package of the module.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Names []string
	Types *types.Package
	Info  *types.Info
}

// FuncInfo is a function with a body.
type FuncInfo struct {
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *Pkg
}

// Program is the type-checked module.
type Program struct {
	Fset      *token.FileSet
	Pkgs      map[string]*Pkg
	Order     []*Pkg
	Funcs     map[*types.Func]*FuncInfo
	Std       map[string]*FuncInfo // library functions written out in std.go
	Repo      string
	Nfn       int
	sentinels map[*types.Var]bool
	Dropped   map[string]string // overlay functions that do not fit the code
}

type listPkg struct {
	ImportPath      string
	Dir             string
	GoFiles         []string
	Export          string
	Standard        bool
	Incomplete      bool
	Error           *struct{ Err string }
	DepsErrors      []*struct{ Err string }
	Imports         []string
	ImportMap       map[string]string
	CompiledGoFiles []string
}

// load type-checks every package of the module below repo, as the build for the given
// environment and tags sees them.
func load(repo string, env []string, tags string, overlay string) (*Program, error) {
	args := []string{"list", "-mod=readonly", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Incomplete,Error,Imports"}
	if tags != "" {
		args = append(args, "-tags="+tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cmd.Env = append(cmd.Env, env...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}

	exports := map[string]string{}
	var mods []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			mods = append(mods, p)
			continue
		}
		exports[p.ImportPath] = p.Export
	}

	prog := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncInfo{}, Repo: repo}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &modImporter{prog: prog, gc: gc}
	if err := prog.loadStd(); err != nil {
		return nil, err
	}

	for _, lp := range mods { // go list -deps is topologically sorted
		pkg := &Pkg{Path: lp.ImportPath, Dir: lp.Dir}
		for _, f := range lp.GoFiles {
			name := filepath.Join(lp.Dir, f)
			file, err := parser.ParseFile(prog.Fset, name, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pkg.Files = append(pkg.Files, file)
			pkg.Names = append(pkg.Names, name)
		}
		if overlay != "" {
			rel := strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, modPath), "/")
			extra, _ := filepath.Glob(filepath.Join(overlay, rel, "*.go"))
			sort.Strings(extra)
			for _, name := range extra {
				file, err := parser.ParseFile(prog.Fset, name, nil, parser.ParseComments|parser.SkipObjectResolution)
				if err != nil {
					return nil, err
				}
				pkg.Files = append(pkg.Files, file)
				pkg.Names = append(pkg.Names, name)
			}
		}
		var tp *types.Package
		for round := 0; ; round++ {
			pkg.Info = &types.Info{
				Types:      map[ast.Expr]types.TypeAndValue{},
				Defs:       map[*ast.Ident]types.Object{},
				Uses:       map[*ast.Ident]types.Object{},
				Implicits:  map[ast.Node]types.Object{},
				Selections: map[*ast.SelectorExpr]*types.Selection{},
				Instances:  map[*ast.Ident]types.Instance{},
				Scopes:     map[ast.Node]*types.Scope{},
			}
			var terrs []error
			conf := types.Config{Importer: imp, Error: func(err error) { terrs = append(terrs, err) }, Sizes: types.SizesFor("gc", "amd64")}
			tp, _ = conf.Check(lp.ImportPath, prog.Fset, pkg.Files, pkg.Info)
			dropped := false
			for _, terr := range terrs {
				te, ok := terr.(types.Error)
				if ok && overlay != "" && strings.HasPrefix(prog.Fset.Position(te.Pos).Filename, overlay) {
					if round > 0 && strings.HasSuffix(te.Msg, "imported and not used") {
						continue
					}
					// a reference function no longer fits the code: only its users fail
					if prog.dropFunc(pkg, te) {
						dropped = true
						continue
					}
					if dropped {
						continue
					}
				}
				return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, terr)
			}
			if !dropped {
				break
			}
		}
		pkg.Types = tp
		prog.Pkgs[lp.ImportPath] = pkg
		prog.Order = append(prog.Order, pkg)
		for _, f := range pkg.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if obj, ok := pkg.Info.Defs[fd.Name].(*types.Func); ok {
						prog.Nfn++
						if fd.Body != nil {
							prog.Funcs[obj] = &FuncInfo{Obj: obj, Decl: fd, Pkg: pkg}
						}
					}
				}
			}
		}
	}
	if len(prog.Order) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repo)
	}
	return prog, nil
}

// dropFunc removes the overlay function that contains a type error.
func (p *Program) dropFunc(pkg *Pkg, te types.Error) bool {
	for _, f := range pkg.Files {
		if te.Pos < f.FileStart || te.Pos > f.FileEnd {
			continue
		}
		for i, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && te.Pos >= d.Pos() && te.Pos <= d.End() {
				if p.Dropped == nil {
					p.Dropped = map[string]string{}
				}
				ps := p.Fset.Position(te.Pos)
				p.Dropped[strings.TrimPrefix(strings.TrimPrefix(pkg.Path, modPath), "/")+"."+fd.Name.Name] = fmt.Sprintf("%s:%d: %s", filepath.Base(ps.Filename), ps.Line, te.Msg)
				f.Decls = append(append([]ast.Decl(nil), f.Decls[:i]...), f.Decls[i+1:]...)
				return true
			}
		}
	}
	return false
}

type modImporter struct {
	prog *Program
	gc   types.Importer
}

func (m *modImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.prog.Pkgs[path]; ok {
		return p.Types, nil
	}
	return m.gc.Import(path)
}

// lookup finds a function "pkg/rel.Name" or a method "pkg/rel.(Recv).Name".
func (p *Program) lookup(pkgRel, recv, name string) *FuncInfo {
	pkg := p.Pkgs[modPath+"/"+pkgRel]
	if pkg == nil {
		return nil
	}
	if recv == "" {
		if f, ok := pkg.Types.Scope().Lookup(name).(*types.Func); ok {
			return p.Funcs[f]
		}
		return nil
	}
	tn, ok := pkg.Types.Scope().Lookup(recv).(*types.TypeName)
	if !ok {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pkg.Types, name)
	if f, ok := obj.(*types.Func); ok {
		return p.Funcs[f.Origin()]
	}
	return nil
}

func (p *Program) pos(n token.Pos) string {
	ps := p.Fset.Position(n)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// funcs returns all functions of a package sorted by position.
func (p *Program) funcs(pkgRel string) []*FuncInfo {
	var out []*FuncInfo
	for _, f := range p.Funcs {
		if f.Pkg.Path == modPath+"/"+pkgRel {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Decl.Pos() < out[j].Decl.Pos() })
	return out
}

// calledIn is the set of module functions a function's body mentions.
func (p *Program) calledIn(fi *FuncInfo) map[*FuncInfo]bool {
	out := map[*FuncInfo]bool{}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if f, ok := fi.Pkg.Info.Uses[id].(*types.Func); ok {
				if g := p.Funcs[f.Origin()]; g != nil {
					out[g] = true
				}
			}
		}
		return true
	})
	return out
}
