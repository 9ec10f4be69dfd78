package main

// Expressions, lvalues and arithmetic.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// constEval evaluates constant-like expressions, including calls of package math on constants.
func (w *World) constEval(p *Pkg, e ast.Expr) (constant.Value, bool) {
	e = ast.Unparen(e)
	if tv, ok := p.Info.Types[e]; ok && tv.Value != nil {
		return tv.Value, true
	}
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return nil, false
	}
	if tv, ok := p.Info.Types[call.Fun]; ok && tv.IsType() && len(call.Args) == 1 {
		v, ok := w.constEval(p, call.Args[0])
		if !ok {
			return nil, false
		}
		if isIntegerT(tv.Type) {
			f, _ := constant.Float64Val(constant.ToFloat(v))
			if math.IsNaN(f) || math.Abs(f) > 1e15 {
				return nil, false
			}
			return constant.MakeInt64(int64(f)), true
		}
		if isFloatT(tv.Type) {
			return constant.ToFloat(v), true
		}
		return nil, false
	}
	s, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, false
	}
	fn, ok := p.Info.Uses[s.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "math" || len(call.Args) == 0 {
		return nil, false
	}
	var xs []float64
	for _, a := range call.Args {
		v, ok := w.constEval(p, a)
		if !ok {
			return nil, false
		}
		f, _ := constant.Float64Val(constant.ToFloat(v))
		xs = append(xs, f)
	}
	var r float64
	switch fn.Name() {
	case "Floor":
		r = math.Floor(xs[0])
	case "Ceil":
		r = math.Ceil(xs[0])
	case "Log":
		r = math.Log(xs[0])
	case "Log2":
		r = math.Log2(xs[0])
	case "Sqrt":
		r = math.Sqrt(xs[0])
	case "Abs":
		r = math.Abs(xs[0])
	case "Round":
		r = math.Round(xs[0])
	default:
		return nil, false
	}
	if math.IsNaN(r) || math.IsInf(r, 0) {
		return nil, false
	}
	return constant.MakeFloat64(r), true
}

func (c *FnCtx) typeOf(e ast.Expr) types.Type { return c.info().TypeOf(e) }

// exprAs evaluates e and converts it (assignability) to type t.
func (c *FnCtx) exprAs(st *State, e ast.Expr, t types.Type) *Term {
	tv := c.info().Types[ast.Unparen(e)]
	if tv.IsNil() {
		return c.zero(t)
	}
	if tv.Value != nil && !types.IsInterface(t) {
		return c.constTerm(tv.Value, t)
	}
	v := c.expr(st, e)
	return c.convIface(st, v, c.typeOf(e), t)
}

func (c *FnCtx) convIface(st *State, v *Term, from, to types.Type) *Term {
	if to == nil || !types.IsInterface(to) || types.IsInterface(from) {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return intT(0)
	}
	return c.boxFn(from, v)
}

func (c *FnCtx) expr(st *State, e ast.Expr) *Term {
	info := c.info()
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return c.constTerm(tv.Value, tv.Type)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.expr(st, e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			return intT(0)
		}
		o := info.Uses[e]
		if o == nil {
			o = info.Defs[e]
		}
		v, ok := o.(*types.Var)
		if !ok {
			panic(unsupported("identifier %s at %s", e.Name, c.pos(e)))
		}
		if v.Parent() == v.Pkg().Scope() {
			return c.readGlobal(st, v)
		}
		return c.readVar(st, v)
	case *ast.SelectorExpr:
		if s, ok := info.Selections[e]; ok {
			if s.Kind() != types.FieldVal {
				panic(unsupported("method value at %s", c.pos(e)))
			}
			return c.lval(st, e).get(st)
		}
		if v, ok := info.Uses[e.Sel].(*types.Var); ok {
			if !c.w.inModule(v.Pkg()) {
				return c.baseSym("ext_"+v.Pkg().Name()+"."+v.Name(), c.w.sortOf(v.Type()))
			}
			return c.readGlobal(st, v)
		}
	case *ast.IndexExpr, *ast.StarExpr:
		return c.lval(st, e).get(st)
	case *ast.SliceExpr:
		return c.sliceExpr(st, e)
	case *ast.UnaryExpr:
		return c.unary(st, e)
	case *ast.BinaryExpr:
		return c.binaryE(st, e)
	case *ast.CallExpr:
		r := c.callMulti(st, e)
		if len(r) == 0 {
			return nil
		}
		return r[0]
	case *ast.CompositeLit:
		return c.composite(st, e)
	case *ast.TypeAssertExpr:
		x := c.expr(st, e.X)
		t := c.typeOf(e)
		if types.IsInterface(t) {
			panic(unsupported("assertion to interface at %s", c.pos(e)))
		}
		c.oblige(st, "safe.typeassert", "type assertion holds", e, and(not(eq(x, intT(0))), eq(mk("Int", "typetag", x), intT(c.typeTag(t)))))
		return c.unboxFn(t, x)
	case *ast.FuncLit:
		panic(unsupported("function literal at %s", c.pos(e)))
	}
	panic(unsupported("expression %T at %s", e, c.pos(e)))
}

func (c *FnCtx) exprMulti(st *State, e ast.Expr, n int) []*Term {
	e = ast.Unparen(e)
	switch x := e.(type) {
	case *ast.CallExpr:
		r := c.callMulti(st, x)
		if len(r) == n {
			return r
		}
	case *ast.TypeAssertExpr:
		if n == 2 {
			v := c.expr(st, x.X)
			t := x.Type
			ty := c.typeOf(t)
			ok := and(not(eq(v, intT(0))), eq(mk("Int", "typetag", v), intT(c.typeTag(ty))))
			return []*Term{ite(ok, c.unboxFn(ty, v), c.zero(ty)), ok}
		}
	case *ast.IndexExpr:
		if n == 2 {
			if m, ok := c.typeOf(x.X).Underlying().(*types.Map); ok {
				r := c.expr(st, x.X)
				k := c.exprAs(st, x.Index, m.Key())
				return []*Term{c.mapGet(st, m, r, k), sel(c.readMapDom(st, m, r), k)}
			}
		}
	}
	panic(unsupported("multi-value expression at %s", c.pos(e)))
}

func (c *FnCtx) mapGet(st *State, m *types.Map, r, k *Term) *Term {
	dom := and(not(eq(r, intT(0))), sel(c.readMapDom(st, m, r), k))
	return ite(dom, sel(c.readMapVal(st, m, r), k), c.zero(m.Elem()))
}

type lvalue struct {
	t   types.Type
	get func(st *State) *Term
	set func(st *State, v *Term)
}

// pointwise well-formedness of a value read from the heap
func (c *FnCtx) readWF(st *State, t types.Type, v *Term) *Term {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Map, *types.Slice:
		w := c.wf(t, v, c.heap(st, "next"), true)
		c.assume(st, w)
	case *types.Struct:
		if !c.isOpaque(t) {
			c.assume(st, c.wf(t, v, c.heap(st, "next"), true))
		}
	}
	return v
}

func (c *FnCtx) nonNil(st *State, p *Term, n ast.Node, what string) {
	if p.Op == "true" {
		return
	}
	c.oblige(st, "safe.nil", what+" is not nil", n, not(eq(p, intT(0))))
}

func (c *FnCtx) src(e ast.Expr) string { return types.ExprString(e) }

func (c *FnCtx) lval(st *State, e ast.Expr) *lvalue {
	info := c.info()
	e = ast.Unparen(e)
	t := c.typeOf(e)
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return &lvalue{t: nil, set: func(*State, *Term) {}}
		}
		o := info.Uses[x]
		if o == nil {
			o = info.Defs[x]
		}
		v, ok := o.(*types.Var)
		if !ok {
			panic(unsupported("assignment to %s", x.Name))
		}
		if v.Parent() == v.Pkg().Scope() {
			return c.globalLval(v, e)
		}
		return &lvalue{t, func(st *State) *Term { return c.readVar(st, v) }, func(st *State, val *Term) { c.setVar(st, v, val) }}
	case *ast.StarExpr:
		p := c.expr(st, x.X)
		c.nonNil(st, p, e, c.src(x.X))
		return &lvalue{t, func(st *State) *Term { return c.readWF(st, t, c.readCell(st, t, p)) },
			func(st *State, v *Term) { c.writeRef(st, t, p, v, e, c.src(e)) }}
	case *ast.SelectorExpr:
		s, ok := info.Selections[x]
		if !ok {
			if v, ok := info.Uses[x.Sel].(*types.Var); ok {
				return c.globalLval(v, e)
			}
			panic(unsupported("selector at %s", c.pos(e)))
		}
		// walk the (possibly embedded) field path
		cur := c.baseLval(st, x.X)
		for k, i := range s.Index() {
			last := k == len(s.Index())-1
			cur = c.fieldLval(st, cur, i, x, last)
		}
		return cur
	case *ast.IndexExpr:
		bt := c.typeOf(x.X)
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			s := c.expr(st, x.X)
			i := c.exprAs(st, x.Index, types.Typ[types.Int])
			c.oblige(st, "safe.index", c.src(e)+" in bounds", e, and(le(intT(0), i), lt(i, sLen(s))))
			return c.elemLval(u.Elem(), s, i, e)
		case *types.Array:
			b := c.lvalOrValue(st, x.X)
			i := c.exprAs(st, x.Index, types.Typ[types.Int])
			c.oblige(st, "safe.index", c.src(e)+" in bounds", e, and(le(intT(0), i), lt(i, intT(u.Len()))))
			return &lvalue{t, func(st *State) *Term { return c.readWF(st, t, sel(b.get(st), i)) },
				func(st *State, v *Term) { b.set(st, store(b.get(st), i, v)) }}
		case *types.Pointer:
			au, ok := u.Elem().Underlying().(*types.Array)
			if ok {
				p := c.expr(st, x.X)
				c.nonNil(st, p, e, c.src(x.X))
				i := c.exprAs(st, x.Index, types.Typ[types.Int])
				c.oblige(st, "safe.index", c.src(e)+" in bounds", e, and(le(intT(0), i), lt(i, intT(au.Len()))))
				return &lvalue{t, func(st *State) *Term { return sel(c.readCell(st, u.Elem(), p), i) },
					func(st *State, v *Term) {
						c.writeRef(st, u.Elem(), p, store(c.readCell(st, u.Elem(), p), i, v), e, c.src(e))
					}}
			}
		case *types.Map:
			r := c.expr(st, x.X)
			k := c.exprAs(st, x.Index, u.Key())
			return &lvalue{t, func(st *State) *Term { return c.mapGet(st, u, r, k) }, func(st *State, v *Term) {
				c.nonNil(st, r, e, c.src(x.X))
				d, vv, l := c.mapComps(u)
				for _, cm := range []string{d, vv, l} {
					c.checkWrite(st, &WItem{comp: cm, ref: r, text: c.src(e)}, e)
				}
				dom := c.readMapDom(st, u, r)
				had := sel(dom, k)
				st.heap[l] = c.define(l, store(c.heap(st, l), r, ite(had, c.readMapLen(st, u, r), add(c.readMapLen(st, u, r), intT(1)))))
				st.heap[d] = c.define(d, store(c.heap(st, d), r, store(dom, k, tTrue)))
				st.heap[vv] = c.define(vv, store(c.heap(st, vv), r, store(c.readMapVal(st, u, r), k, v)))
			}}
		case *types.Basic: // string
			s := c.expr(st, x.X)
			i := c.exprAs(st, x.Index, types.Typ[types.Int])
			c.oblige(st, "safe.index", c.src(e)+" in bounds", e, and(le(intT(0), i), lt(i, mk("Int", "slen", s))))
			return &lvalue{t: t, get: func(st *State) *Term {
				v := mk("Int", "sat", s, i)
				c.assume(st, and(le(intT(0), v), le(v, intT(255))))
				return v
			}}
		}
	}
	// a value
	v := c.expr(st, e)
	return &lvalue{t: t, get: func(*State) *Term { return v }, set: func(*State, *Term) { panic(unsupported("assignment to value at %s", c.pos(e))) }}
}

func (c *FnCtx) lvalOrValue(st *State, e ast.Expr) *lvalue {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return c.lval(st, x)
	}
	v := c.expr(st, e)
	return &lvalue{t: c.typeOf(e), get: func(*State) *Term { return v }, set: func(*State, *Term) { panic(unsupported("assignment to value at %s", c.pos(e))) }}
}
func (c *FnCtx) baseLval(st *State, e ast.Expr) *lvalue { return c.lvalOrValue(st, e) }

func (c *FnCtx) globalLval(v *types.Var, e ast.Expr) *lvalue {
	return &lvalue{v.Type(), func(st *State) *Term { return c.readWF(st, v.Type(), c.readGlobal(st, v)) }, func(st *State, val *Term) {
		comp := c.globalComp(v)
		c.checkWrite(st, &WItem{comp: comp, ref: intT(0), text: v.Name()}, e)
		st.heap[comp] = c.short(comp, val)
	}}
}

func (c *FnCtx) fieldLval(st *State, b *lvalue, i int, e *ast.SelectorExpr, last bool) *lvalue {
	if p, ok := b.t.Underlying().(*types.Pointer); ok {
		s := p.Elem().Underlying().(*types.Struct)
		f := s.Field(i)
		r := b.get(st)
		c.nonNil(st, r, e, c.src(e.X))
		comp := c.fieldCompV(p.Elem(), f)
		return &lvalue{f.Type(), func(st *State) *Term { return c.readWF(st, f.Type(), sel(c.heap(st, comp), r)) }, func(st *State, v *Term) {
			c.checkWrite(st, &WItem{comp: comp, ref: r, text: c.src(e), silent: silent(sel(c.heap(st, comp), r), v)}, e)
			st.heap[comp] = c.define(comp, store(c.heap(st, comp), r, v))
		}}
	}
	s := b.t.Underlying().(*types.Struct)
	f := s.Field(i)
	return &lvalue{f.Type(), func(st *State) *Term { return c.w.structField(b.get(st), b.t, i) }, func(st *State, v *Term) {
		b.set(st, c.w.structWith(b.get(st), b.t, i, v))
	}}
}

// silent: writing back a reference that is already there is no write.
func silent(was, now *Term) *Term {
	if now.Sort == "F64" || now.Sort == "Bool" {
		return nil
	}
	return eq(was, now)
}

func (c *FnCtx) elemLval(t types.Type, s, i *Term, e ast.Expr) *lvalue {
	comp := c.elemComp(t)
	return &lvalue{t, func(st *State) *Term { return c.readWF(st, t, c.readElem(st, t, sArr(s), ix(sOff(s), i))) }, func(st *State, v *Term) {
		at := ix(sOff(s), i)
		text := "slice element"
		if e != nil {
			text = c.src(e)
		}
		lo := add(sOff(s), i)
		h := c.heap(st, comp)
		c.checkWrite(st, &WItem{comp: comp, ref: sArr(s), lo: lo, hi: add(lo, intT(1)), text: text, silent: silent(sel(sel(h, sArr(s)), at), v)}, e)
		st.heap[comp] = c.define(comp, store(h, sArr(s), store(sel(h, sArr(s)), at, v)))
	}}
}

func (c *FnCtx) sliceExpr(st *State, e *ast.SliceExpr) *Term {
	bt := c.typeOf(e.X)
	if b, ok := bt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := c.expr(st, e.X)
		lo, hi := intT(0), mk("Int", "slen", s)
		if e.Low != nil {
			lo = c.exprAs(st, e.Low, types.Typ[types.Int])
		}
		if e.High != nil {
			hi = c.exprAs(st, e.High, types.Typ[types.Int])
		}
		c.oblige(st, "safe.slice", c.src(e)+" in bounds", e, and(le(intT(0), lo), le(lo, hi), le(hi, mk("Int", "slen", s))))
		r := mk("Str", "ssub", s, lo, hi)
		return r
	}
	if _, ok := bt.Underlying().(*types.Slice); !ok {
		panic(unsupported("slice of %s at %s", bt, c.pos(e)))
	}
	s := c.expr(st, e.X)
	lo, hi, mx := intT(0), sLen(s), sCap(s)
	if e.Low != nil {
		lo = c.exprAs(st, e.Low, types.Typ[types.Int])
	}
	if e.High != nil {
		hi = c.exprAs(st, e.High, types.Typ[types.Int])
	}
	if e.Max != nil {
		mx = c.exprAs(st, e.Max, types.Typ[types.Int])
		c.oblige(st, "safe.slice", c.src(e)+" in bounds", e, and(le(intT(0), lo), le(lo, hi), le(hi, mx), le(mx, sCap(s))))
	} else {
		c.oblige(st, "safe.slice", c.src(e)+" in bounds", e, and(le(intT(0), lo), le(lo, hi), le(hi, sCap(s))))
	}
	if e.Low != nil && lo.String() != "0" { // positions of the part are positions of the whole
		so := c.define("so", add(sOff(s), lo))
		boundCtr++
		i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
		c.fact(forall([]Bind{{i.Op, "Int"}}, eq(ix(so, i), ix(sOff(s), add(lo, i))), []*Term{ix(so, i)}))
		r := mkSlice(sArr(s), so, sub(hi, lo), sub(mx, lo))
		if len(r.String()) > 120 {
			d := c.define("sl", r)
			return mkSlice(sArr(s), so, sLen(d), sCap(d))
		}
		return r
	}
	r := mkSlice(sArr(s), add(sOff(s), lo), sub(hi, lo), sub(mx, lo))
	if len(r.String()) > 120 {
		d := c.define("sl", r)
		// keep the array syntactically visible
		return mkSlice(sArr(s), sOff(d), sLen(d), sCap(d))
	}
	return r
}

func (c *FnCtx) unary(st *State, e *ast.UnaryExpr) *Term {
	switch e.Op {
	case token.AND:
		x := ast.Unparen(e.X)
		switch y := x.(type) {
		case *ast.CompositeLit:
			t := c.typeOf(y)
			v := c.composite(st, y)
			r := c.alloc(st)
			c.initRef(st, t, r, v)
			return r
		case *ast.Ident:
			o := c.info().Uses[y]
			if c.boxed[o] {
				return st.vars[o]
			}
		}
		panic(unsupported("address of expression at %s", c.pos(e)))
	case token.NOT:
		return not(c.expr(st, e.X))
	case token.SUB:
		x := c.expr(st, e.X)
		t := c.typeOf(e)
		if isFloatT(t) {
			if f, ok := floatLitVal(x.Op); ok && f != 0 {
				return floatLit(-f)
			}
			return mk("F64", "fneg", x)
		}
		return c.arith(st, token.SUB, intT(0), x, t, e)
	case token.ADD:
		return c.expr(st, e.X)
	case token.XOR:
		t := c.typeOf(e)
		x := c.expr(st, e.X)
		if !isUnsigned(t) {
			return sub(intT(-1), x)
		}
		_, hi := intRange(t.Underlying().(*types.Basic))
		return sub(bigT(hi), x)
	}
	panic(unsupported("operator %s at %s", e.Op, c.pos(e)))
}

func sameState(a, b *State) bool {
	if len(a.heap) != len(b.heap) || len(a.vars) != len(b.vars) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.vars {
		if b.vars[k] != v {
			return false
		}
	}
	return true
}

func (c *FnCtx) binaryE(st *State, e *ast.BinaryExpr) *Term {
	switch e.Op {
	case token.LAND, token.LOR:
		l := c.short("c", c.expr(st, e.X))
		guard := l
		if e.Op == token.LOR {
			guard = not(l)
		}
		s2 := st.clone()
		c.pushPC(s2, guard)
		var r *Term
		if s2.dead {
			r = tFalse
			if e.Op == token.LOR {
				return l
			}
			return r
		}
		r = c.expr(s2, e.Y)
		if !sameState(st, s2) {
			s3 := st.clone()
			c.pushPC(s3, not(guard))
			c.become(st, c.merge(s2, s3))
		}
		if e.Op == token.LAND {
			return and(l, r)
		}
		return or(l, r)
	case token.SHL, token.SHR:
		t := c.typeOf(e)
		l := c.exprAs(st, e.X, t)
		r := c.expr(st, e.Y)
		return c.shift(st, e.Op, l, r, t, c.typeOf(e.Y), e)
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt_, rt := c.typeOf(e.X), c.typeOf(e.Y)
		var l, r *Term
		switch {
		case c.info().Types[ast.Unparen(e.X)].IsNil():
			r = c.expr(st, e.Y)
			l = intT(0)
			if r.Sort == "Slice" {
				r = sArr(r)
			}
			lt_ = rt
		case c.info().Types[ast.Unparen(e.Y)].IsNil():
			l = c.expr(st, e.X)
			r = intT(0)
			if l.Sort == "Slice" {
				l = sArr(l)
			}
		default:
			t := lt_
			if c.info().Types[ast.Unparen(e.X)].Value != nil && c.info().Types[ast.Unparen(e.Y)].Value == nil {
				t = rt
			}
			if types.IsInterface(lt_) != types.IsInterface(rt) {
				if types.IsInterface(rt) {
					t = rt
				} else {
					t = lt_
				}
			}
			l = c.exprAs(st, e.X, t)
			r = c.exprAs(st, e.Y, t)
			lt_ = t
		}
		return c.compare(e.Op, l, r, lt_, e)
	}
	t := c.typeOf(e)
	if e.Op == token.AND {
		if m, ok := c.maskExpr(st, e.Y); ok {
			return mk("Int", "mod", c.exprAs(st, e.X, t), m)
		}
		if m, ok := c.maskExpr(st, e.X); ok {
			return mk("Int", "mod", c.exprAs(st, e.Y, t), m)
		}
	}
	l := c.exprAs(st, e.X, t)
	r := c.exprAs(st, e.Y, t)
	return c.arith(st, e.Op, l, r, t, e)
}

// maskExpr recognises constant masks 2^k-1.
func (c *FnCtx) maskExpr(st *State, e ast.Expr) (*Term, bool) {
	if tv := c.info().Types[ast.Unparen(e)]; tv.Value != nil && tv.Value.Kind() == constant.Int {
		b, ok := new(big.Int).SetString(tv.Value.ExactString(), 10)
		if ok && b.Sign() > 0 {
			n := new(big.Int).Add(b, big.NewInt(1))
			if new(big.Int).And(n, b).Sign() == 0 {
				return bigT(n), true
			}
		}
	}
	return nil, false
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func isPow2Term(t *Term) (*Term, bool) {
	if n, ok := intLit(t); ok && n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0 {
		return t, true
	}
	if t.Op == "pow2" {
		return t, true
	}
	if t.Op == "mod" && len(t.Args) == 2 {
		if n, ok := intLit(t.Args[1]); ok && n.Cmp(two64) == 0 {
			if p, ok := isPow2Term(t.Args[0]); ok {
				return p, true
			}
		}
	}
	return nil, false
}

// asMask recognises terms denoting 2^x-1 and returns 2^x.
func asMask(t *Term) (*Term, bool) {
	if n, ok := intLit(t); ok && n.Sign() > 0 {
		m := new(big.Int).Add(n, big.NewInt(1))
		if new(big.Int).And(n, m).Sign() == 0 {
			return bigT(m), true
		}
		return nil, false
	}
	if t.Op == "mod" && len(t.Args) == 2 {
		if n, ok := intLit(t.Args[1]); ok && n.Cmp(two64) == 0 {
			return asMask(t.Args[0])
		}
	}
	if t.Op == "-" && len(t.Args) == 2 {
		if n, ok := intLit(t.Args[1]); ok && n.IsInt64() && n.Int64() == 1 {
			return isPow2Term(t.Args[0])
		}
	}
	return nil, false
}

func (c *FnCtx) compare(op token.Token, l, r *Term, t types.Type, n ast.Node) *Term {
	if isFloatT(t) {
		switch op {
		case token.EQL:
			return mk("Bool", "feq", l, r)
		case token.NEQ:
			return not(mk("Bool", "feq", l, r))
		case token.LSS:
			return mk("Bool", "flt", l, r)
		case token.LEQ:
			return mk("Bool", "fle", l, r)
		case token.GTR:
			return mk("Bool", "flt", r, l)
		case token.GEQ:
			return mk("Bool", "fle", r, l)
		}
	}
	switch op {
	case token.EQL:
		return eq(l, r)
	case token.NEQ:
		return not(eq(l, r))
	}
	if l.Sort != "Int" {
		panic(unsupported("ordering of %s at %s", t, c.pos(n)))
	}
	switch op {
	case token.LSS:
		return cmp("<", l, r)
	case token.LEQ:
		return cmp("<=", l, r)
	case token.GTR:
		return cmp(">", l, r)
	default:
		return cmp(">=", l, r)
	}
}

func (c *FnCtx) wrapU(t types.Type, v *Term) *Term {
	_, hi := intRange(t.Underlying().(*types.Basic))
	m := new(big.Int).Add(hi, big.NewInt(1))
	if n, ok := intLit(v); ok {
		return bigT(new(big.Int).Mod(n, m))
	}
	return mk("Int", "mod", v, bigT(m))
}

func (c *FnCtx) inRange(st *State, v *Term, t types.Type, n ast.Node, what string) {
	lo, hi := intRange(t.Underlying().(*types.Basic))
	if x, ok := intLit(v); ok && x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
		return
	}
	c.oblige(st, "safe.overflow", what+" does not overflow", n, and(le(bigT(lo), v), le(v, bigT(hi))))
}

func nodeText(n ast.Node) string {
	switch x := n.(type) {
	case ast.Expr:
		return types.ExprString(x)
	case *ast.IncDecStmt:
		return types.ExprString(x.X) + x.Tok.String()
	case *ast.AssignStmt:
		return types.ExprString(x.Lhs[0]) + x.Tok.String() + types.ExprString(x.Rhs[0])
	}
	return "expression"
}

func (c *FnCtx) arith(st *State, op token.Token, l, r *Term, t types.Type, n ast.Node) *Term {
	if isFloatT(t) {
		f := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[op]
		if f == "" {
			panic(unsupported("float operator %s", op))
		}
		return mk("F64", f, l, r)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && op == token.ADD {
		return mk("Str", "sconcat", l, r)
	}
	if !isIntegerT(t) {
		panic(unsupported("operator %s on %s at %s", op, t, c.pos(n)))
	}
	uns := isUnsigned(t)
	fin := func(v *Term) *Term {
		if uns {
			return c.wrapU(t, v)
		}
		c.inRange(st, v, t, n, nodeText(n))
		return v
	}
	switch op {
	case token.ADD:
		return fin(add(l, r))
	case token.SUB:
		return fin(sub(l, r))
	case token.MUL:
		return fin(mul(l, r))
	case token.QUO, token.REM:
		c.oblige(st, "safe.divzero", nodeText(n)+" divisor is not zero", n, not(eq(r, intT(0))))
		var q *Term
		smt := "div"
		if op == token.REM {
			smt = "mod"
		}
		if x, ok := intLit(l); ok {
			if y, ok := intLit(r); ok && y.Sign() != 0 {
				if op == token.QUO {
					return bigT(new(big.Int).Quo(x, y))
				}
				return bigT(new(big.Int).Rem(x, y))
			}
		}
		if uns {
			return mk("Int", smt, l, r)
		}
		q = mk("Int", "t"+smt, l, r)
		if y, ok := intLit(r); !ok || y.Cmp(big.NewInt(-1)) == 0 {
			if op == token.QUO {
				c.oblige(st, "safe.overflow", nodeText(n)+" does not overflow", n, not(and(eq(l, bigT(minInt64)), eq(r, intT(-1)))))
			}
		}
		return q
	case token.AND:
		if m, ok := asMask(r); ok {
			return mk("Int", "mod", l, m)
		}
		if m, ok := asMask(l); ok {
			return mk("Int", "mod", r, m)
		}
		return c.bitop(st, "band", l, r, t)
	case token.OR:
		return c.bitop(st, "bor", l, r, t)
	case token.XOR:
		return c.bitop(st, "bxor", l, r, t)
	}
	panic(unsupported("operator %s at %s", op, c.pos(n)))
}

func (c *FnCtx) bitop(st *State, f string, l, r *Term, t types.Type) *Term {
	v := mk("Int", f, l, r)
	lo, hi := intRange(t.Underlying().(*types.Basic))
	c.assume(st, and(le(bigT(lo), v), le(v, bigT(hi))))
	return v
}

func (c *FnCtx) shift(st *State, op token.Token, l, r *Term, t, rt types.Type, n ast.Node) *Term {
	if !isUnsigned(rt) {
		c.oblige(st, "safe.shift", nodeText(n)+" shift count is not negative", n, le(intT(0), r))
	}
	if op == token.SHL {
		v := mul(l, pow2T(r))
		if isUnsigned(t) {
			return c.wrapU(t, v)
		}
		c.inRange(st, v, t, n, nodeText(n))
		return v
	}
	// >> : floor division, also for negative operands
	return mk("Int", "div", l, pow2T(r))
}

func (c *FnCtx) composite(st *State, e *ast.CompositeLit) *Term {
	t := c.typeOf(e)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if c.isOpaque(t) {
			if len(e.Elts) == 0 {
				return c.zero(t)
			}
			panic(unsupported("composite literal of %s", t))
		}
		vals := make([]*Term, u.NumFields())
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						vals[j] = c.exprAs(st, kv.Value, u.Field(j).Type())
					}
				}
			} else {
				vals[i] = c.exprAs(st, el, u.Field(i).Type())
			}
		}
		for j := range vals {
			if vals[j] == nil {
				vals[j] = c.zero(u.Field(j).Type())
			}
		}
		s := c.w.sortOf(t)
		return mk(s, "mk_"+s, vals...)
	case *types.Array:
		v := c.zeroRow(u.Elem())
		for i, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed array literal"))
			}
			v = store(v, intT(int64(i)), c.exprAs(st, el, u.Elem()))
		}
		return v
	case *types.Slice:
		n := int64(len(e.Elts))
		var vals []*Term
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed slice literal"))
			}
			if cl, ok := el.(*ast.CompositeLit); ok && cl.Type == nil {
				if _, isP := u.Elem().Underlying().(*types.Pointer); isP {
					panic(unsupported("elided pointer literal"))
				}
			}
			vals = append(vals, c.exprAs(st, el, u.Elem()))
		}
		r := c.alloc(st)
		comp := c.elemComp(u.Elem())
		row := c.zeroRow(u.Elem())
		for i, v := range vals {
			row = store(row, ix(intT(0), intT(int64(i))), v)
		}
		c.assume(st, eq(sel(c.heap(st, comp), r), row))
		return mkSlice(r, intT(0), intT(n), intT(n))
	case *types.Map:
		if len(e.Elts) == 0 {
			return c.makeMap(st, u)
		}
	}
	panic(unsupported("composite literal of %s at %s", t, c.pos(e)))
}

func (c *FnCtx) makeMap(st *State, m *types.Map) *Term {
	r := c.alloc(st)
	d, _, l := c.mapComps(m)
	boundCtr++
	dom := sel(c.heap(st, d), r)
	c.assume(st, eq(dom, c.falseRow()))
	c.assume(st, eq(sel(c.heap(st, l), r), intT(0)))
	return r
}

func (c *FnCtx) falseRow() *Term {
	name := "zrow_Bool"
	if _, ok := c.decls[name]; !ok {
		c.zeroRow(types.Typ[types.Bool])
	}
	return sym(name, arrSort("Bool"))
}

// makeSlice allocates a zeroed slice.
func (c *FnCtx) makeSlice(st *State, elem types.Type, n, cp *Term) *Term {
	r := c.alloc(st)
	comp := c.elemComp(elem)
	c.assume(st, eq(sel(c.heap(st, comp), r), c.zeroRow(elem)))
	return mkSlice(r, intT(0), n, cp)
}
