package main

// Loads /repo's current source with go/parser and go/types.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

type Pkg struct {
	Path  string
	Name  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type FuncSrc struct {
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
	Key  string
	Init bool
}

type World struct {
	instances []instance
	Fset      *token.FileSet
	Pkgs      map[string]*Pkg // by path
	ByName    map[string]*Pkg // by package name (unique in this module)
	Funcs     map[*types.Func]*FuncSrc
	ByKey     map[string]*FuncSrc
	Mutable   map[*types.Var]bool     // package variables assigned outside their declaration
	InitExpr  map[*types.Var]ast.Expr // initialisers of package variables
	VarPkg    map[*types.Var]*Pkg
	Specs     *Specs
	Literals  map[string]bool
	dtypes    map[string]*DType
	dorder    []string
	opaque    map[string]bool
	sfdefs    map[string]*sfDef
	lemstmts  map[string]*Term
	locals    map[string][]localDecl
	strMu     sync.Mutex
	strs      map[string]string // string constants by symbol
}

type DType struct {
	Name   string
	Fields []*types.Var
	Go     types.Type
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOFLAGS=-mod=mod")
}

func LoadWorld(repo, specs string) (*World, error) {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard", "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	w := &World{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, ByName: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncSrc{},
		ByKey: map[string]*FuncSrc{}, Mutable: map[*types.Var]bool{}, InitExpr: map[*types.Var]ast.Expr{}, VarPkg: map[*types.Var]*Pkg{},
		Literals: map[string]bool{}, dtypes: map[string]*DType{}, opaque: map[string]bool{}, sfdefs: map[string]*sfDef{}, lemstmts: map[string]*Term{}, strs: map[string]string{}}
	exports := map[string]string{}
	type lp struct {
		ImportPath, Name, Dir, Export string
		GoFiles                       []string
		Standard                      bool
	}
	var mods []lp
	std := map[string]lp{}
	w.instances = readInstances(specs)
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p lp
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard {
			mods = append(mods, p)
		} else {
			std[p.ImportPath] = p
		}
	}
	gc := importer.ForCompiler(w.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &modImporter{w: w, gc: gc}
	// go list -deps lists dependencies before dependents
	for _, m := range mods {
		p := &Pkg{Path: m.ImportPath, Name: m.Name, Dir: m.Dir}
		for _, f := range m.GoFiles {
			af, err := parser.ParseFile(w.Fset, filepath.Join(m.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		check := func(files []*ast.File) (*types.Package, error) {
			p.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Selections: map[*ast.SelectorExpr]*types.Selection{}, InitOrder: nil, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
			conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
			return conf.Check(m.ImportPath, w.Fset, files, p.Info)
		}
		var more []*ast.File
		for _, in := range w.instances {
			if d, ok := std[in.path]; ok && in.pkg == m.Name {
				fs, err := instanceFiles(w.Fset, in, d.Dir, d.GoFiles)
				if err != nil {
					return nil, err
				}
				more = append(more, fs...)
			}
		}
		tp, err := check(append(append([]*ast.File{}, p.Files...), more...))
		if err == nil {
			p.Files = append(p.Files, more...)
		} else if len(more) > 0 { // the type is gone, or no longer fits
			tp, err = check(p.Files)
		}
		if err != nil {
			return nil, err
		}
		p.Types = tp
		w.Pkgs[p.Path] = p
		w.ByName[p.Name] = p
	}
	for _, p := range w.Pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					obj := p.Info.Defs[d.Name].(*types.Func)
					fs := &FuncSrc{Pkg: p, Decl: d, Obj: obj, Key: funcKey(obj)}
					w.Funcs[obj] = fs
					w.ByKey[fs.Key] = fs
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
							for i, n := range vs.Names {
								v, _ := p.Info.Defs[n].(*types.Var)
								if v == nil {
									continue
								}
								w.VarPkg[v] = p
								if len(vs.Values) == len(vs.Names) {
									w.InitExpr[v] = vs.Values[i]
								}
							}
						}
					}
				}
			}
		}
		w.scanMutable(p)
		w.addInit(p)
	}
	return w, nil
}

// addInit adds the pseudo function PKG.init: the initialisers of the package variables in dependency order,
// then the bodies of the init functions. A contract "func init()" is proved about it.
func (w *World) addInit(p *Pkg) {
	var stmts []ast.Stmt
	for _, in := range p.Info.InitOrder {
		as := &ast.AssignStmt{Tok: token.ASSIGN, TokPos: in.Rhs.Pos(), Rhs: []ast.Expr{in.Rhs}}
		for _, v := range in.Lhs {
			id := &ast.Ident{NamePos: v.Pos(), Name: v.Name()}
			p.Info.Uses[id] = v
			p.Info.Types[id] = types.TypeAndValue{Type: v.Type()}
			as.Lhs = append(as.Lhs, id)
		}
		stmts = append(stmts, as)
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				stmts = append(stmts, &ast.BlockStmt{Lbrace: fd.Pos(), List: fd.Body.List, Rbrace: fd.End()})
			}
		}
	}
	pos := token.NoPos
	if len(p.Files) > 0 {
		pos = p.Files[0].Pos()
	}
	obj := types.NewFunc(pos, p.Types, "init", types.NewSignatureType(nil, nil, nil, nil, nil, false))
	decl := &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Func: pos, Params: &ast.FieldList{}}, Body: &ast.BlockStmt{Lbrace: pos, List: stmts, Rbrace: pos}}
	w.ByKey[p.Name+".init"] = &FuncSrc{Pkg: p, Decl: decl, Obj: obj, Key: p.Name + ".init", Init: true}
}

type modImporter struct {
	w  *World
	gc types.Importer
}

func (m *modImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.w.Pkgs[path]; ok {
		return p.Types, nil
	}
	return m.gc.Import(path)
}

// scanMutable finds package-level variables that some function assigns or whose address is taken,
// and collects literals (hints for the replay search).
func (w *World) scanMutable(p *Pkg) {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if v, ok := p.Info.Uses[x.Sel].(*types.Var); ok && !v.IsField() {
					w.Mutable[v] = true
				}
				return
			case *ast.Ident:
				if v, ok := p.Info.Uses[x].(*types.Var); ok {
					w.Mutable[v] = true
				}
				return
			}
			return
		}
	}
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			case ast.Expr:
				if tv, ok := p.Info.Types[n]; ok && tv.Value != nil {
					switch tv.Value.Kind() {
					case constant.Int, constant.Float:
						w.Literals[tv.Value.ExactString()] = true
					}
				}
			}
			return true
		})
	}
}

func (w *World) LiteralHints() []string {
	var out []string
	for k := range w.Literals {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func recvNamed(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := "?"
	if f.Pkg() != nil {
		pkg = f.Pkg().Name()
	}
	if sig.Recv() != nil {
		if n := recvNamed(sig.Recv().Type()); n != nil {
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pkg + "." + f.Name()
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("p~")
		case r == '[':
			b.WriteString("L")
		case r == ']':
			b.WriteString("~")
		case r == '$':
			b.WriteString("$")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// sortOf maps a Go type to an SMT sort.
func (w *World) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return arrSort(w.sortOf(u.Elem()))
	case *types.Struct:
		return w.structSort(t, u)
	}
	panic(unsupported("type %s", t))
}

func (w *World) inModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	_, ok := w.Pkgs[p.Path()]
	return ok
}

func (w *World) structSort(t types.Type, u *types.Struct) string {
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = "S_" + sanitize(typeKey(t))
		if !w.inModule(n.Obj().Pkg()) {
			name = "Opq_" + sanitize(typeKey(t))
			w.opaque[name] = true
			return name
		}
		if n.Obj().Parent() != n.Obj().Pkg().Scope() {
			name += fmt.Sprintf("_l%d", n.Obj().Pos())
		}
	} else {
		name = "S_anon_" + sanitize(typeKey(t))
	}
	if _, ok := w.dtypes[name]; ok {
		return name
	}
	d := &DType{Name: name, Go: t}
	w.dtypes[name] = d
	for i := 0; i < u.NumFields(); i++ {
		d.Fields = append(d.Fields, u.Field(i))
		w.sortOf(u.Field(i).Type())
	}
	w.dorder = append(w.dorder, name)
	return name
}

// struct value operations
func (w *World) structField(v *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	s := w.sortOf(t)
	f := st.Field(i)
	if v.Op == "mk_"+s {
		return v.Args[i]
	}
	return mk(w.sortOf(f.Type()), s+"!"+f.Name(), v)
}
func (w *World) structWith(v *Term, t types.Type, i int, nv *Term) *Term {
	st := t.Underlying().(*types.Struct)
	s := w.sortOf(t)
	var args []*Term
	for j := 0; j < st.NumFields(); j++ {
		if j == i {
			args = append(args, nv)
		} else {
			args = append(args, w.structField(v, t, j))
		}
	}
	return mk(s, "mk_"+s, args...)
}

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return u.Msg }
func unsupported(f string, a ...interface{}) Unsupported {
	return Unsupported{fmt.Sprintf(f, a...)}
}
