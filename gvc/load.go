package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type repoImporter struct {
	std types.Importer
	m   map[string]*types.Package
}

func (i repoImporter) Import(p string) (*types.Package, error) {
	if x, ok := i.m[p]; ok {
		return x, nil
	}
	return i.std.Import(p)
}

// Repo is the type-checked, SSA-built real source of the repository.
type Repo struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  []*ssa.Package
	tpkgs map[string]*types.Package
	funcs map[string]*ssa.Function // display name -> function
	names map[*ssa.Function]string
	files []string
}

const modPath = "github.com/mmadfox/go-geoql-parser"

func loadRepo(root string) (*Repo, error) {
	r := &Repo{fset: token.NewFileSet(), tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, names: map[*ssa.Function]string{}}
	im := repoImporter{importer.ForCompiler(r.fset, "source", nil), r.tpkgs}
	r.prog = ssa.NewProgram(r.fset, ssa.GlobalDebug|ssa.InstantiateGenerics)
	for _, pp := range []struct{ path, dir string }{{modPath + "/scanner", filepath.Join(root, "scanner")}, {modPath, root}} {
		ms, _ := filepath.Glob(pp.dir + "/*.go")
		sort.Strings(ms)
		var fs []*ast.File
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(r.fset, m, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			skip := false
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") && strings.Contains(c.Text, "verif") && !strings.Contains(c.Text, "!verif") {
						skip = true
					}
				}
			}
			if skip {
				continue
			}
			r.files = append(r.files, m)
			fs = append(fs, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		cfg := types.Config{Importer: im, GoVersion: "go1.18"}
		p, err := cfg.Check(pp.path, r.fset, fs, info)
		if err != nil {
			return nil, err
		}
		r.tpkgs[pp.path] = p
		seen := map[*types.Package]bool{}
		var visit func(q *types.Package)
		visit = func(q *types.Package) {
			if seen[q] {
				return
			}
			seen[q] = true
			for _, x := range q.Imports() {
				visit(x)
			}
			if q != p && r.prog.Package(q) == nil {
				r.prog.CreatePackage(q, nil, nil, true)
			}
		}
		visit(p)
		r.pkgs = append(r.pkgs, r.prog.CreatePackage(p, fs, info, true))
	}
	for _, p := range r.pkgs {
		p.Build()
	}
	for _, p := range r.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				r.addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := r.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := r.prog.MethodValue(ms.At(i)); f != nil {
							r.addFn(f)
						}
					}
				}
			}
		}
	}
	return r, nil
}

func (r *Repo) addFn(f *ssa.Function) {
	n := fnName(f)
	if f.Synthetic != "" && r.funcs[n] != nil {
		return
	}
	if g := r.funcs[n]; g != nil && g.Synthetic == "" && f.Synthetic != "" {
		return
	}
	r.funcs[n] = f
	r.names[f] = n
	for _, a := range f.AnonFuncs {
		r.addFn(a)
	}
}

// fnName gives a stable display name: scanner.(*Scanner).next, (*parser).parseSet, Parse.
func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/scanner.", "scanner.")
	s = strings.ReplaceAll(s, modPath+".", "")
	s = strings.TrimPrefix(s, "unicode/")
	if strings.HasPrefix(s, "(*scanner.") {
		s = "scanner.(*" + s[len("(*scanner."):]
	} else if strings.HasPrefix(s, "(scanner.") {
		s = "scanner.(" + s[len("(scanner."):]
	}
	return s
}

// typeName is a stable short name for a type.
func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		switch p.Path() {
		case modPath:
			return ""
		}
		return p.Name()
	})
	return strings.NewReplacer(" ", "_", "(", "<", ")", ">").Replace(s)
}

func (r *Repo) pos(p token.Pos) string {
	q := r.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
