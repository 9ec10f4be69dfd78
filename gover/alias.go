package main

// Renamed locals: contracts/locals.json records the locals of every function under contract (in order of
// declaration, with types) as they were when the contract was written. When a recorded name is gone and
// there are as many new names of its type, the new names stand for the old ones in order.
// The file only decides how a contract's names are resolved; every obligation is proved either way.

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
)

type localDecl struct {
	Name string `json:"n"`
	Type string `json:"t"`
}

func localsOf(f *FuncSrc) []localDecl {
	var vs []*types.Var
	if f.Decl == nil || f.Decl.Body == nil {
		return nil
	}
	ast.Inspect(f.Decl, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := f.Pkg.Info.Defs[id].(*types.Var); ok && !v.IsField() && v.Name() != "_" && id.Pos() > f.Decl.Body.Lbrace {
				vs = append(vs, v)
			}
		}
		return true
	})
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	var out []localDecl
	seen := map[string]bool{}
	for _, v := range vs {
		d := localDecl{v.Name(), types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })}
		if seen[d.Name] {
			continue
		}
		seen[d.Name] = true
		out = append(out, d)
	}
	return out
}

func (w *World) writeLocals(dir string) error {
	m := map[string][]localDecl{}
	for key := range w.Specs.Funcs {
		if f := w.ByKey[key]; f != nil {
			if l := localsOf(f); l != nil {
				m[key] = l
			}
		}
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "locals.json"), append(b, '\n'), 0644)
}

func (w *World) loadLocals(dir string) {
	w.locals = map[string][]localDecl{}
	if b, err := os.ReadFile(filepath.Join(dir, "locals.json")); err == nil {
		json.Unmarshal(b, &w.locals)
	}
}

func (w *World) aliases(key string, f *FuncSrc) map[string]string {
	rec := w.locals[key]
	if rec == nil || f == nil {
		return nil
	}
	now := localsOf(f)
	has := func(l []localDecl, n string) bool {
		for _, d := range l {
			if d.Name == n {
				return true
			}
		}
		return false
	}
	gone, added := map[string][]string{}, map[string][]string{}
	for _, d := range rec {
		if !has(now, d.Name) {
			gone[d.Type] = append(gone[d.Type], d.Name)
		}
	}
	for _, d := range now {
		if !has(rec, d.Name) {
			added[d.Type] = append(added[d.Type], d.Name)
		}
	}
	out := map[string]string{}
	for t, g := range gone {
		if a := added[t]; len(a) == len(g) {
			for i := range g {
				out[g[i]] = a[i]
			}
		}
	}
	return out
}
