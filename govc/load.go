package main

// Loads and type-checks the package under verification from source.

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Func struct {
	Name string // "Type.Method" or "Func"
	Decl *ast.FuncDecl
	Obj  *types.Func
	Recv string
}

type Prog struct {
	fset    *token.FileSet
	pkg     *types.Package
	info    *types.Info
	funcs   map[string]*Func
	byObj   map[*types.Func]*Func
	tags    map[string]int64
	globals map[types.Object]ast.Expr
	files   []string
}

func recvName(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) == 0 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return "?"
}

func Load(dir string) (*Prog, error) {
	p := &Prog{fset: token.NewFileSet(), funcs: map[string]*Func{}, byObj: map[*types.Func]*Func{}, tags: map[string]int64{}, globals: map[types.Object]ast.Expr{}}
	ms, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(ms)
	var files []*ast.File
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		src, err := os.ReadFile(m)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(p.fset, m, src, 0)
		if err != nil {
			return nil, err
		}
		if f.Name.Name != "linear" {
			continue
		}
		files = append(files, f)
		p.files = append(p.files, m)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "source", nil), Error: func(err error) {}}
	pkg, err := conf.Check("linear", p.fset, files, p.info)
	if err != nil {
		return nil, fmt.Errorf("type check: %v", err)
	}
	p.pkg = pkg
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				fn := &Func{Decl: d, Recv: recvName(d)}
				fn.Name = d.Name.Name
				if fn.Recv != "" {
					fn.Name = fn.Recv + "." + fn.Name
				}
				fn.Obj, _ = p.info.Defs[d.Name].(*types.Func)
				if fn.Obj == nil || d.Body == nil {
					continue
				}
				p.funcs[fn.Name] = fn
				p.byObj[fn.Obj] = fn
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							if i < len(vs.Values) {
								p.globals[p.info.Defs[n]] = vs.Values[i]
							}
						}
					}
				}
			}
		}
	}
	names := pkg.Scope().Names()
	k := int64(10)
	for _, n := range names {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if _, ok := tn.Type().Underlying().(*types.Struct); ok {
				k++
				p.tags[n] = k
			}
		}
	}
	p.tags["Array2DRowRealMatrix"] = 1
	p.tags["BlockRealMatrix"] = 2
	p.tags["DiagonalMatrix"] = 3
	p.tags["ArrayRealVector"] = 4
	p.tags["$ExtVector"] = 5
	return p, nil
}

func (p *Prog) pos(n ast.Node) string {
	ps := p.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func namedOf(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
func isMatType(t types.Type) bool {
	switch namedOf(t) {
	case "RealMatrix", "Matrix", "AnyMatrix":
		return true
	case "Array2DRowRealMatrix", "BlockRealMatrix", "DiagonalMatrix":
		_, ok := t.(*types.Pointer)
		return ok
	}
	return false
}
func isVecType(t types.Type) bool {
	switch namedOf(t) {
	case "RealVector":
		return true
	case "ArrayRealVector":
		_, ok := t.(*types.Pointer)
		return ok
	}
	return false
}
func isErr(t types.Type) bool { return namedOf(t) == "error" }
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func sliceElem(t types.Type) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}
