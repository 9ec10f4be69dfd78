package main

// Instances of standard library packages: the functions of a package whose parameters have one of its interface
// types are read from the library's own source and checked as if they had been written for a concrete type of
// the repository (the parameter type replaced, method calls resolved to that type's methods, nothing else changed).
// A call such as heap.Push(&q, x) whose first argument has that type is then checked against the instance's
// contract, and the instance itself against its body.

import (
	"bufio"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type instance struct{ path, iface, ptr, pkg, typ string }

func readInstances(dir string) []instance {
	f, err := os.Open(filepath.Join(dir, "instances.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []instance
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		fs := strings.Fields(l)
		if strings.HasPrefix(l, "#") || len(fs) != 3 {
			continue
		}
		in := instance{path: fs[0], iface: fs[1]}
		t := fs[2]
		if strings.HasPrefix(t, "*") {
			in.ptr, t = "*", t[1:]
		}
		if i := strings.IndexByte(t, '.'); i > 0 {
			in.pkg, in.typ = t[:i], t[i+1:]
			out = append(out, in)
		}
	}
	return out
}

// instanceFiles gives the instantiated source of the library package as further files of the package name.
func instanceFiles(fset *token.FileSet, in instance, dir string, goFiles []string) ([]*ast.File, error) {
	base := in.path[strings.LastIndexByte(in.path, '/')+1:]
	var out []*ast.File
	names := map[string]bool{}
	var files []*ast.File
	for _, f := range goFiles {
		af, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				names[fd.Name.Name] = true
			}
		}
	}
	for _, af := range files {
		n := &ast.File{Package: af.Package, Name: &ast.Ident{NamePos: af.Name.NamePos, Name: in.pkg}, FileStart: af.FileStart, FileEnd: af.FileEnd}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			uses := false
			for _, f := range fd.Type.Params.List {
				if id, ok := f.Type.(*ast.Ident); ok && id.Name == in.iface {
					uses = true
					var t ast.Expr = &ast.Ident{NamePos: id.NamePos, Name: in.typ}
					if in.ptr != "" {
						t = &ast.StarExpr{Star: id.NamePos, X: t}
					}
					f.Type = t
				}
			}
			if !uses {
				continue
			}
			fd.Doc = nil
			fd.Name.Name = base + "__" + fd.Name.Name
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if call, ok := x.(*ast.CallExpr); ok {
					if id, ok := call.Fun.(*ast.Ident); ok && names[id.Name] {
						id.Name = base + "__" + id.Name
					}
				}
				return true
			})
			n.Decls = append(n.Decls, fd)
		}
		if len(n.Decls) > 0 {
			out = append(out, n)
		}
	}
	return out, nil
}

// instanceOf finds the instance of an external function for the type of its first argument.
func (w *World) instanceOf(fn *types.Func, arg types.Type) *FuncSrc {
	if fn.Pkg() == nil {
		return nil
	}
	for _, in := range w.instances {
		if in.path == fn.Pkg().Path() && typeKey(arg) == in.ptr+in.pkg+"."+in.typ {
			return w.ByKey[in.pkg+"."+fn.Pkg().Name()+"__"+fn.Name()]
		}
	}
	return nil
}
