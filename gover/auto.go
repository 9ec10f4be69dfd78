package main

// Fallback mode: variants of the contract's loop invariants and hints for rewritten code
// (renamed locals, values kept in other locals, flags). Every variant still has to be proved.

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

func (x *SX) rename(from, to string) *SX {
	if x == nil {
		return nil
	}
	if x.K == "id" && x.S == from {
		y := *x
		y.S = to
		return &y
	}
	y := *x
	y.A = make([]*SX, len(x.A))
	for i, a := range x.A {
		if i == 0 && x.K == "call" && a.K == "id" {
			y.A[i] = a // function name
			continue
		}
		y.A[i] = a.rename(from, to)
	}
	if x.Pats != nil {
		y.Pats = make([][]*SX, len(x.Pats))
		for i, p := range x.Pats {
			for _, t := range p {
				y.Pats[i] = append(y.Pats[i], t.rename(from, to))
			}
		}
	}
	return &y
}

// visible local variables, by name
func (c *FnCtx) visibleLocals(st *State) []*types.Var {
	var out []*types.Var
	for o := range st.vars {
		v, ok := o.(*types.Var)
		if !ok || v.Name() == "" || v.Name() == "_" || strings.HasPrefix(v.Name(), "$") {
			continue
		}
		if _, ok := c.lookupLocal(v.Name(), st); ok {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Name() != out[j].Name() {
			return out[i].Name() < out[j].Name()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// unknownIn evaluates x and returns the message of the failure ("" if it evaluates).
func (c *FnCtx) tryEval(env *Env, x *SX) (msg string) {
	mark := len(c.facts)
	defer func() {
		c.facts = c.facts[:mark:mark]
		if r := recover(); r != nil {
			if s, ok := r.(specEvalErr); ok {
				msg = s.msg
				return
			}
			panic(r)
		}
	}()
	env.boolE(x)
	return ""
}

func unknownName(msg string) string {
	i := strings.Index(msg, "unknown identifier ")
	if i < 0 {
		return ""
	}
	f := strings.Fields(msg[i+len("unknown identifier "):])
	if len(f) == 0 {
		return ""
	}
	return strings.TrimRight(f[0], ":,;)")
}

// renamings returns x itself if it evaluates, and otherwise the versions of it with unknown names replaced by visible locals.
func (c *FnCtx) renamings(env *Env, st *State, x *SX, depth int) []*SX {
	msg := c.tryEval(env, x)
	if msg == "" {
		return []*SX{x}
	}
	n := unknownName(msg)
	if n == "" || depth == 0 {
		return nil
	}
	var out []*SX
	seen := map[string]bool{}
	for _, v := range c.visibleLocals(st) {
		if v.Name() == n || seen[v.Name()] {
			continue
		}
		seen[v.Name()] = true
		out = append(out, c.renamings(env, st, x.rename(n, v.Name()), depth-1)...)
		if len(out) > 24 {
			break
		}
	}
	return out
}

func sxText(x *SX) string {
	var b strings.Builder
	var w func(x *SX)
	w = func(x *SX) {
		b.WriteString(x.K + ":" + x.S + "(")
		for _, a := range x.A {
			w(a)
		}
		b.WriteString(")")
	}
	w(x)
	return b.String()
}

// withLocal replaces the left or right side of an equation at the top of x (below implications and conjunctions) by local v.
func withLocal(x *SX, v string) []*SX {
	id := &SX{K: "id", S: v, Pos: x.Pos}
	if x.K == "bin" && x.S == "==>" {
		var out []*SX
		for _, y := range withLocal(x.A[1], v) {
			out = append(out, &SX{K: "bin", S: "==>", A: []*SX{x.A[0], y}, Pos: x.Pos})
		}
		return out
	}
	if x.K == "bin" && (x.S == "==" || x.S == "<==>") {
		return []*SX{{K: "bin", S: x.S, A: []*SX{id, x.A[1]}, Pos: x.Pos}, {K: "bin", S: x.S, A: []*SX{x.A[0], id}, Pos: x.Pos}}
	}
	return nil
}

// indexedPaths lists the expressions x indexes, without those bound in it.
func indexedPaths(x *SX) []*SX {
	var out []*SX
	seen := map[string]bool{}
	var walk func(x *SX)
	walk = func(x *SX) {
		if x == nil {
			return
		}
		if x.K == "idx" && len(x.A) > 0 && !seen[sxText(x.A[0])] {
			seen[sxText(x.A[0])] = true
			out = append(out, x.A[0])
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(x)
	return out
}

// subst replaces the subexpressions with the given text by y.
func (x *SX) subst(text string, y *SX) *SX {
	if x == nil {
		return nil
	}
	if sxText(x) == text {
		return y
	}
	z := *x
	z.A = make([]*SX, len(x.A))
	for i, a := range x.A {
		z.A[i] = a.subst(text, y)
	}
	if x.Pats != nil {
		z.Pats = make([][]*SX, len(x.Pats))
		for i, p := range x.Pats {
			for _, t := range p {
				z.Pats[i] = append(z.Pats[i], t.subst(text, y))
			}
		}
	}
	return &z
}

// goPath turns a chain of field selections from a variable into a spec expression.
func goPath(e ast.Expr) *SX {
	switch x := e.(type) {
	case *ast.Ident:
		return &SX{K: "id", S: x.Name}
	case *ast.SelectorExpr:
		if b := goPath(x.X); b != nil {
			return &SX{K: "fld", S: x.Sel.Name, A: []*SX{b}}
		}
	case *ast.ParenExpr:
		return goPath(x.X)
	}
	return nil
}

// builtSlices lists the local slices the loop assigns and the fields it appends to.
func (c *FnCtx) builtSlices(st *State, ld *loopDef) []*SX {
	var out []*SX
	for _, v := range c.visibleLocals(st) {
		if _, ok := v.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		for _, o := range ld.assigned {
			if o == v {
				out = append(out, &SX{K: "id", S: v.Name()})
			}
		}
	}
	seen := map[string]bool{}
	ast.Inspect(ld.bodyNode, func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return true
		}
		call, ok := as.Rhs[0].(*ast.CallExpr)
		if !ok {
			return true
		}
		if f, ok := call.Fun.(*ast.Ident); !ok || f.Name != "append" {
			return true
		}
		if _, ok := as.Lhs[0].(*ast.SelectorExpr); !ok {
			return true
		}
		if x := goPath(as.Lhs[0]); x != nil && !seen[sxText(x)] {
			seen[sxText(x)] = true
			out = append(out, x)
		}
		return true
	})
	return out
}

func (c *FnCtx) trySVal(env *Env, x *SX) (v SVal, msg string) {
	mark := len(c.facts)
	defer func() {
		c.facts = c.facts[:mark:mark]
		if r := recover(); r != nil {
			if s, ok := r.(specEvalErr); ok {
				msg = s.msg
				return
			}
			panic(r)
		}
	}()
	return env.eval(x), ""
}

func (c *FnCtx) expandCands(st, pre *State, cand []*Clause, ld *loopDef) []*Clause {
	env := c.invEnv(st, pre)
	var out []*Clause
	seen := map[string]bool{}
	addC := func(base *Clause, x *SX) {
		k := sxText(x)
		if seen[k] || len(out) > 160 {
			return
		}
		seen[k] = true
		cc := *base
		cc.E = x
		cc.Pos = base.Pos + "~" + k
		if c.killed[cc.Pos] {
			return
		}
		if c.tryEval(env, x) != "" {
			return
		}
		out = append(out, &cc)
	}
	var base []*Clause
	for _, cl := range cand {
		for _, x := range c.renamings(env, st, cl.E, 2) {
			cc := *cl
			cc.E = x
			base = append(base, &cc)
		}
	}
	for _, cl := range base {
		addC(cl, cl.E)
	}
	if c.mode == 2 {
		return out
	}
	var vals, flags []string
	for _, o := range ld.assigned {
		n := o.Name()
		if n == "" || n == "_" || strings.HasPrefix(n, "$") {
			continue
		}
		if b, ok := o.Type().Underlying().(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				flags = append(flags, n)
			}
			vals = append(vals, n)
		} else if _, ok := o.Type().Underlying().(*types.Pointer); ok {
			vals = append(vals, n)
		}
	}
	for _, cl := range base {
		for _, v := range vals {
			for _, x := range withLocal(cl.E, v) {
				addC(cl, x)
			}
		}
		for _, f := range flags {
			id := &SX{K: "id", S: f}
			addC(cl, &SX{K: "bin", S: "||", A: []*SX{id, cl.E}})
			addC(cl, &SX{K: "bin", S: "||", A: []*SX{{K: "un", S: "!", A: []*SX{id}}, cl.E}})
		}
	}
	// slices built by the loop in place of the ones the clauses speak of
	for _, id := range c.builtSlices(st, ld) {
		b := &Clause{Pos: "slice " + sxText(id), Text: "slice built by the loop"}
		call := func(f string, x *SX) *SX { return &SX{K: "call", A: []*SX{{K: "id", S: f}, x}} }
		bin := func(op string, x, y *SX) *SX { return &SX{K: "bin", S: op, A: []*SX{x, y}} }
		keeps := func(f string) *SX { return bin("==", call(f, id), call("pre", call(f, id))) }
		addC(b, bin("==", call("len", id), &SX{K: "id", S: "$i"}))
		addC(b, call("fresh", id))
		addC(b, bin("||", call("freshloop", id), bin("==", call("cap", id), &SX{K: "num", S: "0"})))
		addC(b, bin("||", call("freshloop", id), bin("&&", keeps("arr"), bin("&&", keeps("off"), keeps("cap")))))
	}
	for _, v := range c.visibleLocals(st) {
		if _, ok := v.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		id := &SX{K: "id", S: v.Name()}
		for _, cl := range base {
			for _, path := range indexedPaths(cl.E) {
				if sv, msg := c.trySVal(env, path); msg != "" || sv.Ty == nil || sv.Ty.G == nil || !types.Identical(sv.Ty.G.Underlying(), v.Type().Underlying()) {
					continue
				}
				addC(cl, cl.E.subst(sxText(path), id))
			}
		}
	}
	// flags against what the results promise
	if c.spec != nil {
		for k, cl := range c.active(c.spec.Ensures) {
			if cl.E.K != "bin" || cl.E.S != "<==>" || cl.E.A[0].K != "id" {
				continue
			}
			b := &Clause{Pos: "ens" + string(rune('0'+k%10)), Text: cl.Text}
			for _, f := range flags {
				id := &SX{K: "id", S: f}
				no := &SX{K: "un", S: "!", A: []*SX{id}}
				addC(b, &SX{K: "bin", S: "||", A: []*SX{no, cl.E.A[1]}})
				addC(b, &SX{K: "bin", S: "||", A: []*SX{id, cl.E.A[1]}})
			}
		}
	}
	return out
}
