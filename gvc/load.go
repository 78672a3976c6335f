package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Pkg is one package of the repository, type-checked from its source.
type Pkg struct {
	Path  string
	Name  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

// FuncInfo is a function with a body in the loaded source.
type FuncInfo struct {
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
	Key  string
	// for a function literal under contract: the variables it captures, its leading parameters
	Captured []*types.Var
}

type Program struct {
	Fset  *token.FileSet
	Repo  string
	Pkgs  map[string]*Pkg // by import path
	Funcs map[string]*FuncInfo
	ByPos map[*types.Func]*FuncInfo
}

const modPath = "github.com/Vivino/rankdb"

func goEnv(scratch string) []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "HOME=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(out, "HOME="+home, "PATH=/opt/veriftools/go1.26.10/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(scratch, "rankdb.mod"))
}

func prepScratch(repo, scratch string) error {
	for _, p := range [][2]string{{"go.mod", "rankdb.mod"}, {"go.sum", "rankdb.sum"}} {
		b, err := os.ReadFile(filepath.Join(repo, p[0]))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(scratch, p[1]), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Error      *struct{ Err string }
}

// Load type-checks the target packages of the repository from source.
func Load(repo, scratch string, targets []string) (*Program, error) {
	if err := prepScratch(repo, scratch); err != nil {
		return nil, err
	}
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Error"}
	for _, t := range targets {
		args = append(args, t)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv(scratch)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var mine []*listPkg
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		for _, t := range targets {
			if p.ImportPath == t {
				if p.Error != nil {
					return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
				}
				q := p
				mine = append(mine, &q)
			}
		}
	}
	prog := &Program{Fset: token.NewFileSet(), Repo: repo, Pkgs: map[string]*Pkg{}, Funcs: map[string]*FuncInfo{}, ByPos: map[*types.Func]*FuncInfo{}}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &srcImporter{gc: gc, prog: prog}
	for _, lp := range mine { // -deps order: dependencies first
		p := &Pkg{Path: lp.ImportPath, Name: lp.Name}
		for _, gf := range lp.GoFiles {
			f, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, gf), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, f)
		}
		p.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(error) {}}
		tp, err := conf.Check(lp.ImportPath, prog.Fset, p.Files, p.Info)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, err)
		}
		p.Types = tp
		prog.Pkgs[lp.ImportPath] = p
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj, _ := p.Info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fi := &FuncInfo{Pkg: p, Decl: fd, Obj: obj, Key: funcKey(obj)}
				prog.Funcs[fi.Key] = fi
				prog.ByPos[obj] = fi
				addLits(prog, p, fi)
			}
		}
	}
	return prog, nil
}

// addLits makes the function literals of a function, pkg.F$1, pkg.F$2 ..., verifiable by themselves:
// captured variables are leading parameters. Literals that assign captured variables are left out.
func addLits(prog *Program, p *Pkg, fi *FuncInfo) {
	n := 0
	ast.Inspect(fi.Decl.Body, func(x ast.Node) bool {
		lit, ok := x.(*ast.FuncLit)
		if !ok {
			return true
		}
		n++
		key := fmt.Sprintf("%s$%d", fi.Key, n)
		var caps []*types.Var
		seen := map[*types.Var]bool{}
		ast.Inspect(lit.Body, func(y ast.Node) bool {
			if id, ok := y.(*ast.Ident); ok {
				if v, ok := p.Info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != p.Types.Scope() && (v.Pos() < lit.Pos() || v.Pos() > lit.End()) && !seen[v] {
					seen[v] = true
					caps = append(caps, v)
				}
			}
			return true
		})
		ok = true
		bad := func(e ast.Expr) {
			if id, is := ast.Unparen(e).(*ast.Ident); is {
				if v, is := p.Info.Uses[id].(*types.Var); is && seen[v] {
					ok = false
				}
			}
		}
		ast.Inspect(lit.Body, func(y ast.Node) bool {
			switch s := y.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					bad(l)
				}
			case *ast.IncDecStmt:
				bad(s.X)
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					bad(s.X)
				}
			}
			return true
		})
		if !ok {
			return true
		}
		sig := p.Info.Types[lit].Type.(*types.Signature)
		ps := append([]*types.Var{}, caps...)
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i))
		}
		obj := types.NewFunc(lit.Pos(), p.Types, fi.Decl.Name.Name, types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic()))
		prog.Funcs[key] = &FuncInfo{Pkg: p, Decl: &ast.FuncDecl{Name: fi.Decl.Name, Type: lit.Type, Body: lit.Body}, Obj: obj, Key: key, Captured: caps}
		return true
	})
}

type srcImporter struct {
	gc   types.Importer
	prog *Program
}

func (s *srcImporter) Import(path string) (*types.Package, error) {
	if p, ok := s.prog.Pkgs[path]; ok {
		return p.Types, nil
	}
	return s.gc.Import(path)
}

// funcKey gives a stable name: pkgname.Func or pkgname.Type.Method.
func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pn := "?"
	if f.Pkg() != nil {
		pn = f.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pn + "." + n.Obj().Name() + "." + f.Name()
		}
		return pn + ".?." + f.Name()
	}
	return pn + "." + f.Name()
}
