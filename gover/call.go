package main

// Calls: builtins, conversions, closures, contracts, inlining.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (c *FnCtx) callMulti(st *State, call *ast.CallExpr) []*Term {
	info := c.info()
	fun := ast.Unparen(call.Fun)
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		return []*Term{c.convert(st, call.Args[0], tv.Type, call)}
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := info.Uses[f].(type) {
		case *types.Builtin:
			return c.builtin(st, o.Name(), call)
		case *types.Func:
			return c.callFunc(st, o, nil, nil, call)
		case *types.Var:
			if cl, ok := c.closures[o]; ok {
				return c.callClosure(st, cl, call)
			}
		}
	case *ast.SelectorExpr:
		if s, ok := info.Selections[f]; ok && s.Kind() == types.MethodVal {
			fn := s.Obj().(*types.Func)
			return c.callMethod(st, fn, s, f, call)
		}
		if fn, ok := info.Uses[f.Sel].(*types.Func); ok {
			return c.callFunc(st, fn, nil, nil, call)
		}
	case *ast.FuncLit:
		return c.callClosure(st, &closure{f, c.fr}, call)
	}
	panic(unsupported("call of %s at %s", c.src(call.Fun), c.pos(call)))
}

func (c *FnCtx) convert(st *State, e ast.Expr, t types.Type, n ast.Node) *Term {
	from := c.typeOf(e)
	if tv := c.info().Types[ast.Unparen(e)]; tv.IsNil() {
		return c.zero(t)
	}
	v := c.expr(st, e)
	return c.convTerm(st, v, from, t, n)
}

func (c *FnCtx) convTerm(st *State, v *Term, from, t types.Type, n ast.Node) *Term {
	switch {
	case types.IsInterface(t):
		return c.convIface(st, v, from, t)
	case isIntegerT(from) && isIntegerT(t):
		lo, hi := intRange(t.Underlying().(*types.Basic))
		flo, fhi := intRange(from.Underlying().(*types.Basic))
		if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return v
		}
		if x, ok := intLit(v); ok && x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
			return v
		}
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		if lo.Sign() == 0 { // to unsigned
			if flo.Sign() < 0 && fhi.Cmp(hi) <= 0 { // same or larger width
				return mk("Int", "mod", v, bigT(m))
			}
			return mk("Int", "mod", v, bigT(m))
		}
		if flo.Sign() == 0 && fhi.Cmp(new(big.Int).Sub(m, big.NewInt(1))) <= 0 { // unsigned of the same width
			return ite(le(v, bigT(hi)), v, sub(v, bigT(m)))
		}
		w := mk("Int", "mod", v, bigT(m))
		w = c.short("conv", w)
		return ite(le(w, bigT(hi)), w, sub(w, bigT(m)))
	case isIntegerT(from) && isFloatT(t):
		return c.i2f(v)
	case isFloatT(from) && isIntegerT(t):
		if f, ok := floatLitVal(v.Op); ok && f > -1e15 && f < 1e15 {
			return intT(int64(f))
		}
		lo, hi := intRange(t.Underlying().(*types.Basic))
		var r *Term
		if lo.Cmp(minInt64) == 0 {
			r = c.define("f2i", mk("Int", "f2i", v))
		} else {
			r = c.fresh("f2u", "Int")
		}
		c.assume(st, and(le(bigT(lo), r), le(r, bigT(hi))))
		return r
	case isFloatT(from) && isFloatT(t):
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			return mk("F64", "f32", v)
		}
		return v
	}
	if c.w.sortOf(from) == c.w.sortOf(t) {
		return v
	}
	panic(unsupported("conversion from %s to %s at %s", from, t, c.pos(n)))
}

func (c *FnCtx) builtin(st *State, name string, call *ast.CallExpr) []*Term {
	info := c.info()
	switch name {
	case "len", "cap":
		t := c.typeOf(call.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := c.expr(st, call.Args[0])
			if name == "len" {
				return []*Term{sLen(s)}
			}
			return []*Term{sCap(s)}
		case *types.Array:
			return []*Term{intT(u.Len())}
		case *types.Map:
			r := c.expr(st, call.Args[0])
			return []*Term{ite(eq(r, intT(0)), intT(0), c.readMapLen(st, u, r))}
		case *types.Basic:
			return []*Term{mk("Int", "slen", c.expr(st, call.Args[0]))}
		}
	case "make":
		t := info.TypeOf(call.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := c.exprAs(st, call.Args[1], types.Typ[types.Int])
			cp := n
			if len(call.Args) > 2 {
				cp = c.exprAs(st, call.Args[2], types.Typ[types.Int])
			}
			n = c.short("n", n)
			c.oblige(st, "safe.make", c.src(call)+" length is valid", call, and(le(intT(0), n), le(n, cp)))
			return []*Term{c.makeSlice(st, u.Elem(), n, cp)}
		case *types.Map:
			return []*Term{c.makeMap(st, u)}
		}
	case "new":
		t := info.TypeOf(call.Args[0])
		r := c.alloc(st)
		c.initRef(st, t, r, c.zero(t))
		return []*Term{r}
	case "append":
		return []*Term{c.appendCall(st, call)}
	case "copy":
		return []*Term{c.copyCall(st, call)}
	case "panic":
		if len(call.Args) > 0 {
			// evaluate for side conditions only when simple
			if _, ok := ast.Unparen(call.Args[0]).(*ast.CallExpr); !ok {
				func() {
					defer func() { recover() }()
					c.expr(st.clone(), call.Args[0])
				}()
			}
		}
		c.doPanic(st, call)
		return nil
	case "delete":
		m := c.typeOf(call.Args[0]).Underlying().(*types.Map)
		r := c.expr(st, call.Args[0])
		k := c.exprAs(st, call.Args[1], m.Key())
		d, _, l := c.mapComps(m)
		for _, cm := range []string{d, l} {
			c.checkWrite(st, &WItem{comp: cm, ref: r, text: c.src(call)}, call)
		}
		dom := c.readMapDom(st, m, r)
		st.heap[l] = c.define(l, store(c.heap(st, l), r, ite(sel(dom, k), sub(c.readMapLen(st, m, r), intT(1)), c.readMapLen(st, m, r))))
		st.heap[d] = c.define(d, store(c.heap(st, d), r, store(dom, k, tFalse)))
		return nil
	case "min", "max":
		t := c.typeOf(call)
		if isIntegerT(t) {
			a := c.exprAs(st, call.Args[0], t)
			for _, x := range call.Args[1:] {
				b := c.exprAs(st, x, t)
				if name == "min" {
					a = ite(le(a, b), a, b)
				} else {
					a = ite(le(a, b), b, a)
				}
			}
			return []*Term{a}
		}
	}
	panic(unsupported("builtin %s at %s", name, c.pos(call)))
}

func (c *FnCtx) doPanic(st *State, n ast.Node) {
	goal := tFalse
	for _, cl := range c.active(c.spec.Panics) {
		e := c.entryEnv()
		goal = or(goal, e.boolE(cl.E))
	}
	c.oblige(st, "safe.panic", "explicit panic is unreachable", n, goal)
	st.dead = true
}

func (c *FnCtx) appendCall(st *State, call *ast.CallExpr) *Term {
	t := c.typeOf(call)
	el := t.Underlying().(*types.Slice).Elem()
	s := c.exprAs(st, call.Args[0], t)
	comp := c.elemComp(el)
	var vals []*Term
	var src *Term
	if call.Ellipsis != token.NoPos {
		src = c.exprAs(st, call.Args[1], t)
		if src.Sort == "Str" {
			panic(unsupported("append of string"))
		}
	} else {
		for _, a := range call.Args[1:] {
			vals = append(vals, c.exprAs(st, a, el))
		}
	}
	var k *Term
	if src != nil {
		k = sLen(src)
	} else {
		k = intT(int64(len(vals)))
		if len(vals) == 0 {
			return s
		}
	}
	nl := c.short("alen", add(sLen(s), k))
	fits := c.short("fits", le(nl, sCap(s)))
	write := func(row, off *Term, x *State) *Term { // new row
		if src == nil {
			for i, v := range vals {
				row = store(row, ix(off, add(sLen(s), intT(int64(i)))), v)
			}
			return row
		}
		nr := c.fresh("row", row.Sort)
		boundCtr++
		i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
		base := ix(off, sLen(s))
		h := c.heap(st, comp)
		c.fact(forall([]Bind{{i.Op, "Int"}}, implies(or(lt(i, base), le(add(base, k), i)), eq(sel(nr, i), sel(row, i))), []*Term{sel(nr, i)}))
		c.fact(forall([]Bind{{i.Op, "Int"}}, implies(and(le(intT(0), i), lt(i, k)), eq(sel(nr, ix(off, add(sLen(s), i))), sel(sel(h, sArr(src)), ix(sOff(src), i)))), []*Term{sel(nr, ix(off, add(sLen(s), i)))}))
		// same fact, absolute index
		c.fact(forall([]Bind{{i.Op, "Int"}}, implies(and(le(base, i), lt(i, add(base, k))), eq(sel(nr, i), sel(sel(h, sArr(src)), ix(sOff(src), sub(i, base))))), []*Term{sel(nr, i)}))
		return nr
	}
	a := st.clone()
	c.pushPC(a, fits)
	b := st.clone()
	c.pushPC(b, not(fits))
	var ra, rb *Term
	if !a.dead {
		lo := add(sOff(s), sLen(s))
		c.checkWrite(a, &WItem{comp: comp, ref: sArr(s), lo: lo, hi: add(lo, k), text: "append to " + c.src(call.Args[0])}, call)
		h := c.heap(a, comp)
		a.heap[comp] = c.define(comp, store(h, sArr(s), write(sel(h, sArr(s)), sOff(s), a)))
		ra = mkSlice(sArr(s), sOff(s), nl, sCap(s))
	}
	if !b.dead {
		// a new array: old contents, then the new values; unspecified larger capacity
		r := c.alloc(b)
		cp := c.fresh("cap", "Int")
		c.assume(b, and(le(nl, cp), le(cp, bigT(maxInt64))))
		h := c.heap(b, comp)
		row := c.fresh("row", arrSort(c.w.sortOf(el)))
		boundCtr++
		i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
		c.fact(forall([]Bind{{i.Op, "Int"}}, implies(and(le(intT(0), i), lt(i, sLen(s))), eq(sel(row, ix(intT(0), i)), sel(sel(h, sArr(s)), ix(sOff(s), i)))), []*Term{sel(row, ix(intT(0), i))}))
		w := c.wf(el, sel(row, i), c.heap(b, "next"), true)
		if w.Op != "true" {
			c.fact(forall([]Bind{{i.Op, "Int"}}, w, []*Term{sel(row, i)}))
		}
		c.assume(b, eq(sel(h, r), write(row, intT(0), b)))
		// growing past the maximum size panics ("cap out of range"): no successor state
		rb = mkSlice(r, intT(0), nl, cp)
	}
	if a.dead {
		*st = *b
		return rb
	}
	if b.dead {
		*st = *a
		return ra
	}
	v := c.fresh("app", "Slice")
	c.fact(implies(a.PC(), eq(v, ra)))
	c.fact(implies(b.PC(), eq(v, rb)))
	c.become(st, c.merge(a, b))
	return v
}

func (c *FnCtx) copyCall(st *State, call *ast.CallExpr) *Term {
	t := c.typeOf(call.Args[0])
	el := t.Underlying().(*types.Slice).Elem()
	d := c.expr(st, call.Args[0])
	s := c.expr(st, call.Args[1])
	if s.Sort == "Str" {
		panic(unsupported("copy from string"))
	}
	n := c.define("ncopy", ite(le(sLen(d), sLen(s)), sLen(d), sLen(s)))
	comp := c.elemComp(el)
	lo := sOff(d)
	c.checkWrite(st, &WItem{comp: comp, ref: sArr(d), lo: lo, hi: add(lo, n), text: "copy to " + c.src(call.Args[0])}, call)
	h := c.heap(st, comp)
	nr := c.fresh("row", arrSort(c.w.sortOf(el)))
	boundCtr++
	i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
	old := sel(h, sArr(d))
	src := sel(h, sArr(s))
	c.fact(forall([]Bind{{i.Op, "Int"}}, implies(or(lt(i, lo), le(add(lo, n), i)), eq(sel(nr, i), sel(old, i))), []*Term{sel(nr, i)}))
	c.fact(forall([]Bind{{i.Op, "Int"}}, implies(and(le(intT(0), i), lt(i, n)), eq(sel(nr, ix(sOff(d), i)), sel(src, ix(sOff(s), i)))), []*Term{sel(nr, ix(sOff(d), i))}))
	c.fact(forall([]Bind{{i.Op, "Int"}}, implies(and(le(lo, i), lt(i, add(lo, n))), eq(sel(nr, i), sel(src, ix(sOff(s), sub(i, lo))))), []*Term{sel(nr, i)}))
	st.heap[comp] = c.define(comp, store(h, sArr(d), nr))
	return n
}

func (c *FnCtx) callMethod(st *State, fn *types.Func, s *types.Selection, f *ast.SelectorExpr, call *ast.CallExpr) []*Term {
	sig := fn.Type().(*types.Signature)
	if types.IsInterface(s.Recv()) {
		// interface method: trusted contract keyed by interface type
		r := c.expr(st, f.X)
		return c.callFunc(st, fn, r, s.Recv(), call)
	}
	recvT := sig.Recv().Type()
	_, wantPtr := recvT.Underlying().(*types.Pointer)
	xt := c.typeOf(f.X)
	_, havePtr := xt.Underlying().(*types.Pointer)
	var r *Term
	switch {
	case wantPtr && havePtr:
		r = c.expr(st, f.X)
	case wantPtr && !havePtr:
		id, ok := ast.Unparen(f.X).(*ast.Ident)
		if !ok {
			panic(unsupported("address of %s at %s", c.src(f.X), c.pos(f)))
		}
		o := c.info().Uses[id]
		if !c.boxed[o] {
			panic(unsupported("address of unboxed %s", id.Name))
		}
		r = st.vars[o]
	case !wantPtr && havePtr:
		p := c.expr(st, f.X)
		c.nonNil(st, p, f, c.src(f.X))
		r = c.readCell(st, recvT, p)
	default:
		r = c.expr(st, f.X)
	}
	return c.callFunc(st, fn, r, recvT, call)
}

var mathFns = map[string]string{"Exp": "fexp", "Sqrt": "fsqrt", "Floor": "ffloor", "Ceil": "fceil", "Log": "flog", "Log2": "flog2", "Pow": "fpow", "Abs": "fabs"}

func (c *FnCtx) callFunc(st *State, fn *types.Func, recv *Term, recvT types.Type, call *ast.CallExpr) []*Term {
	sig := fn.Type().(*types.Signature)
	key := funcKey(fn)
	src := c.w.Funcs[fn]
	if src == nil && fn.Pkg() != nil && fn.Pkg().Path() == "math" {
		if v, ok := c.w.constEval(c.fr.pkg, call); ok {
			return []*Term{c.constTerm(v, sig.Results().At(0).Type())}
		}
		if smt, ok := mathFns[fn.Name()]; ok {
			var args []*Term
			for _, a := range call.Args {
				args = append(args, c.exprAs(st, a, types.Typ[types.Float64]))
			}
			return []*Term{mk("F64", smt, args...)}
		}
	}
	if key == "rand.Shuffle" {
		c.shuffle(st, call)
		return nil
	}
	if src == nil && len(call.Args) > 0 { // library function checked at a concrete type
		if in := c.w.instanceOf(fn, c.typeOf(call.Args[0])); in != nil {
			fn, src = in.Obj, in
			sig, key = fn.Type().(*types.Signature), in.Key
		}
	}
	if src == nil { // external
		spec := c.w.Specs.Funcs[key]
		special := false
		if len(call.Args) > 0 {
			if s2 := c.w.Specs.Funcs[key+"["+typeKey(c.typeOf(call.Args[0]))+"]"]; s2 != nil {
				spec, special = s2, true
			}
		}
		if spec == nil {
			panic(unsupported("call of %s, which has no contract, at %s", key, c.pos(call)))
		}
		var args []SVal
		if recv != nil {
			args = append(args, SVal{recv, &STy{G: recvT}})
		}
		np := sig.Params().Len()
		for i, a := range call.Args {
			if sig.Variadic() && i >= np-1 {
				if _, isLit := ast.Unparen(a).(*ast.CompositeLit); !isLit || true {
					if tv := c.info().Types[ast.Unparen(a)]; tv.Value == nil && !tv.IsNil() {
						c.expr(st, a)
					}
				}
				continue
			}
			pt := sig.Params().At(i).Type()
			if special && i == 0 || types.IsInterface(pt) && c.info().Types[ast.Unparen(a)].Value != nil {
				at := c.typeOf(a)
				if special && i == 0 {
					args = append(args, SVal{c.expr(st, a), &STy{G: at}})
				} else {
					args = append(args, SVal{c.fresh("iface", "Int"), &STy{G: pt}})
				}
				continue
			}
			args = append(args, SVal{c.exprAs(st, a, pt), &STy{G: pt}})
		}
		return c.contractCall(st, spec, nil, sig, args, call)
	}
	var args []SVal
	if recv != nil {
		args = append(args, SVal{recv, &STy{G: recvT}})
	}
	if sig.Variadic() {
		panic(unsupported("variadic call at %s", c.pos(call)))
	}
	if len(call.Args) == 1 && sig.Params().Len() > 1 {
		vs := c.exprMulti(st, call.Args[0], sig.Params().Len())
		for i, v := range vs {
			args = append(args, SVal{v, &STy{G: sig.Params().At(i).Type()}})
		}
	} else {
		for i, a := range call.Args {
			pt := sig.Params().At(i).Type()
			v := c.exprAs(st, a, pt)
			args = append(args, SVal{c.short("arg", v), &STy{G: pt}})
		}
	}
	if spec := c.w.Specs.Funcs[key]; spec != nil {
		return c.contractCall(st, spec, src, sig, args, call)
	}
	return c.inline(st, src, args, call)
}

// active filters clauses by property tag.
func (c *FnCtx) active(cs []*Clause) []*Clause {
	var out []*Clause
	for _, x := range cs {
		if tagActive(x.Tag, c.prop) {
			out = append(out, x)
		}
	}
	return out
}

func tagActive(tag, prop string) bool {
	if tag == "" {
		return true
	}
	for _, t := range strings.Split(tag, "_") {
		if t == prop {
			return true
		}
	}
	return false
}

func (c *FnCtx) evalItem(e *Env, m *ModItem) []*WItem {
	var binds []Bind
	var cond *Term
	for _, v := range m.Vars {
		ty := c.w.resolveTy(v.Ty, e.pkg)
		boundCtr++
		name := fmt.Sprintf("%s?%d", v.Name, boundCtr)
		s := c.w.sort(ty)
		binds = append(binds, Bind{name, s})
		e = e.with(v.Name, SVal{sym(name, s), ty})
	}
	if m.Cond != nil {
		cond = e.boolE(m.Cond)
	}
	x := m.E
	switch m.Kind {
	case "field":
		b := e.eval(x.A[0])
		pt, ok := b.Ty.G.Underlying().(*types.Pointer)
		if !ok {
			sfail(x, "modifies: not a pointer field")
		}
		comp, _, ok := c.fieldComp(pt.Elem(), x.S)
		if !ok {
			sfail(x, "modifies: no field %s", x.S)
		}
		return []*WItem{{comp: comp, ref: b.T, binds: binds, cond: cond, text: m.Text}}
	case "elems", "elemscap":
		b := e.eval(x)
		switch u := b.Ty.G.Underlying().(type) {
		case *types.Slice:
			hi := add(sOff(b.T), sLen(b.T))
			if m.Kind == "elemscap" {
				hi = add(sOff(b.T), sCap(b.T))
			}
			return []*WItem{{comp: c.elemComp(u.Elem()), ref: sArr(b.T), lo: sOff(b.T), hi: hi, binds: binds, cond: cond, text: m.Text}}
		case *types.Map:
			d, v, l := c.mapComps(u)
			var out []*WItem
			for _, cm := range []string{d, v, l} {
				out = append(out, &WItem{comp: cm, ref: b.T, binds: binds, cond: cond, text: m.Text})
			}
			return out
		}
		sfail(x, "modifies: not a slice")
	case "elem":
		b := e.eval(x.A[0])
		i := e.intE(x.A[1])
		u, ok := b.Ty.G.Underlying().(*types.Slice)
		if !ok {
			sfail(x, "modifies: not a slice")
		}
		lo := add(sOff(b.T), i)
		return []*WItem{{comp: c.elemComp(u.Elem()), ref: sArr(b.T), lo: lo, hi: add(lo, intT(1)), binds: binds, cond: cond, text: m.Text}}
	case "deref":
		b := e.eval(x)
		pt := b.Ty.G.Underlying().(*types.Pointer)
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok && !c.isOpaque(pt.Elem()) {
			var out []*WItem
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, &WItem{comp: c.fieldCompV(pt.Elem(), s.Field(i)), ref: b.T, binds: binds, cond: cond, text: m.Text})
			}
			return out
		}
		return []*WItem{{comp: c.cellComp(pt.Elem()), ref: b.T, binds: binds, cond: cond, text: m.Text}}
	case "allfield":
		if x.K == "fld" && x.A[0].K == "id" && x.A[0].S == "elems" { // every element of every slice of that basic type
			if t, ok := types.Universe.Lookup(x.S).(*types.TypeName); ok {
				return []*WItem{{comp: c.elemComp(t.Type()), ref: intT(0), whole: true, text: m.Text}}
			}
			sfail(x, "modifies: no basic type %s", x.S)
		}
		if x.K == "fld" {
			ty := c.w.resolveTy(tyOfExpr(x.A[0]), e.pkg)
			comp, _, ok := c.fieldComp(ty.G, x.S)
			if !ok {
				sfail(x, "modifies: no field %s", x.S)
			}
			return []*WItem{{comp: comp, ref: intT(0), whole: true, text: m.Text}}
		}
	case "global":
		p := c.w.ByName[e.pkg]
		if v, ok := p.Types.Scope().Lookup(x.S).(*types.Var); ok {
			return []*WItem{{comp: c.globalComp(v), ref: intT(0), text: m.Text}}
		}
	}
	sfail(x, "bad modifies item %s", m.Text)
	return nil
}

func bindParams(spec *FuncSpec, sig *types.Signature, args []SVal) map[string]SVal {
	m := map[string]SVal{}
	names := spec.Params
	i := 0
	if sig.Recv() != nil && len(args) > 0 {
		if spec.Recv != "" {
			m[spec.Recv] = args[0]
			i = 1
		} else if len(args) == len(spec.Params)+1 {
			i = 1
		}
	}
	for k, n := range names {
		if i+k < len(args) {
			m[n] = args[i+k]
		}
	}
	return m
}

func (c *FnCtx) contractCall(st *State, spec *FuncSpec, src *FuncSrc, sig *types.Signature, args []SVal, n ast.Node) []*Term {
	c.calls[spec.Key] = true
	vars := bindParams(spec, sig, args)
	c.callVars = map[string]SVal{}
	for k, v := range vars {
		c.callVars["$"+k] = v
	}
	c.hints(st, "call:"+spec.Key+":before")
	pre := st.clone()
	env := &Env{c: c, pkg: spec.Pkg, st: pre, old: nil, vars: vars}
	if src != nil && sig.Recv() != nil && len(args) > 0 {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok && !spec.Trusted {
			c.nonNil(st, args[0].T, n, "receiver of "+spec.Key)
		}
	}
	for _, cl := range c.active(spec.Requires) {
		c.oblige(st, "requires", "precondition of "+spec.Key+": "+cl.Text, n, env.boolE(cl.E))
	}
	var notPanic []*Term
	for _, cl := range c.active(spec.Panics) {
		p := env.boolE(cl.E)
		goal := not(p)
		for _, own := range c.active(c.spec.Panics) {
			goal = or(goal, c.entryEnv().boolE(own.E))
		}
		c.oblige(st, "safe.panic", "call of "+spec.Key+" does not panic", n, goal)
		notPanic = append(notPanic, not(p))
	}
	c.assume(st, and(notPanic...))
	// effects
	byComp := map[string][]*WItem{}
	var order []string
	for _, m := range spec.Mods {
		for _, it := range c.evalItem(env, m) {
			it.text = spec.Key + " modifies " + it.text
			c.checkWrite(st, it, n)
			if byComp[it.comp] == nil {
				order = append(order, it.comp)
			}
			byComp[it.comp] = append(byComp[it.comp], it)
		}
	}
	// a function without effects may still return new memory
	allocs := true
	if spec.Pure {
		allocs = false
		for i := 0; i < sig.Results().Len(); i++ {
			if refType(sig.Results().At(i).Type()) {
				allocs = true
			}
		}
	}
	if allocs {
		nn := c.fresh("next", "Int")
		c.fact(le(c.heap(pre, "next"), nn))
		st.heap["next"] = nn
	}
	next := c.heap(st, "next")
	full := map[string]bool{}
	for _, comp := range order {
		full[comp] = c.havoc(st, comp, byComp[comp], next)
	}
	if allocs {
		c.reWF(st, next, func(comp string) bool { return full[comp] })
	}
	var res []*Term
	post := &Env{c: c, pkg: spec.Pkg, st: st, old: pre, vars: map[string]SVal{}}
	for k, v := range vars {
		post.vars[k] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := c.fresh("res", c.w.sortOf(t))
		c.fact(c.wf(t, r, next, true))
		res = append(res, r)
		if i < len(spec.Results) {
			post.vars[spec.Results[i]] = SVal{r, &STy{G: t}}
		}
	}
	for _, cl := range c.active(spec.Ensures) {
		c.assume(st, post.boolE(cl.E))
	}
	for k, v := range post.vars {
		c.callVars["$"+k] = v
	}
	c.hints(st, "call:"+spec.Key+":after")
	c.callVars = nil
	return res
}

// inline executes the body of a function that has no contract.
func (c *FnCtx) inline(st *State, src *FuncSrc, args []SVal, n ast.Node) []*Term {
	if src.Decl.Body == nil {
		panic(unsupported("function %s has no body", src.Key))
	}
	for f := c.fr; f != nil; f = f.parent {
		if f.fn == src && f.lit == nil {
			panic(unsupported("recursive call of %s without contract", src.Key))
		}
	}
	if strings.Count(c.fr.path, ">") > 8 {
		panic(unsupported("inlining too deep at %s", src.Key))
	}
	c.inlined[src.Key] = true
	c.scanBoxed(src.Pkg, src.Decl.Body, src.Decl.Type, src.Decl.Recv)
	var params []types.Object
	sig := src.Obj.Type().(*types.Signature)
	if sig.Recv() != nil {
		params = append(params, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	if from := c.fr; n != nil { // while inside, the caller's names are those visible at the call
		at := from.node
		from.node = n
		defer func() { from.node = at }()
	}
	fr := &frameCtx{fn: src, pkg: src.Pkg, path: c.fr.path + ">" + src.Key + "@" + fmt.Sprint(n.Pos()), parent: c.fr, node: src.Decl.Type}
	return c.runFrame(st, fr, params, args, sig, src.Decl.Body)
}

func (c *FnCtx) callClosure(st *State, cl *closure, call *ast.CallExpr) []*Term {
	sig := c.typeOf(call.Fun).Underlying().(*types.Signature)
	var args []SVal
	for i, a := range call.Args {
		pt := sig.Params().At(i).Type()
		args = append(args, SVal{c.short("arg", c.exprAs(st, a, pt)), &STy{G: pt}})
	}
	return c.runClosure(st, cl, args, call)
}

func (c *FnCtx) runClosure(st *State, cl *closure, args []SVal, n ast.Node) []*Term {
	sig := cl.fr.pkg.Info.TypeOf(cl.lit).Underlying().(*types.Signature)
	var params []types.Object
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	for f := c.fr; f != nil; f = f.parent {
		if f.lit == cl.lit {
			panic(unsupported("recursive closure"))
		}
	}
	fr := &frameCtx{fn: cl.fr.fn, pkg: cl.fr.pkg, lit: cl.lit, path: c.fr.path + ">lit@" + fmt.Sprint(n.Pos()), parent: c.fr, node: cl.lit.Type}
	return c.runFrame(st, fr, params, args, sig, cl.lit.Body)
}

func (c *FnCtx) runFrame(st *State, fr *frameCtx, params []types.Object, args []SVal, sig *types.Signature, body *ast.BlockStmt) []*Term {
	saved := c.fr
	defer func() { c.fr = saved }()
	c.fr = fr
	for i, p := range params {
		c.declare(st, p, args[i].T)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		var o types.Object = r
		if r.Name() == "" || r.Name() == "_" {
			o = types.NewVar(token.Pos(-(1 + len(c.fr.path)*100 + i)), nil, fmt.Sprintf("$res%d", i), r.Type())
		}
		fr.results = append(fr.results, o)
		c.declare(st, o, c.zero(r.Type()))
	}
	var rets []*State
	fr.rets = &rets
	c.block(st, body.List)
	if !st.dead {
		rets = append(rets, st.clone())
	}
	var m *State
	for i := len(rets) - 1; i >= 0; i-- {
		if rets[i].dead {
			continue
		}
		if m == nil {
			m = rets[i]
		} else {
			m = c.merge(rets[i], m)
		}
	}
	if m == nil {
		st.dead = true
		var out []*Term
		for _, r := range fr.results {
			out = append(out, c.zero(r.Type()))
		}
		return out
	}
	c.become(st, m)
	var out []*Term
	for _, r := range fr.results {
		out = append(out, c.readVar(st, r))
		delete(st.vars, r)
	}
	return out
}

func (c *FnCtx) deferCall(st *State, call *ast.CallExpr) {
	panic(unsupported("defer at %s", c.pos(call)))
}

// scanBoxed finds local variables whose address is taken or that closures assign.
func (c *FnCtx) scanBoxed(p *Pkg, body ast.Node, ft *ast.FuncType, recv *ast.FieldList) {
	info := p.Info
	mark := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			o := info.Uses[id]
			if o == nil {
				o = info.Defs[id]
			}
			if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != p.Types.Scope() {
				c.boxed[v] = true
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.CallExpr:
			if s, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if sl, ok := info.Selections[s]; ok && sl.Kind() == types.MethodVal {
					fn := sl.Obj().(*types.Func)
					sig := fn.Type().(*types.Signature)
					if sig.Recv() != nil {
						_, want := sig.Recv().Type().Underlying().(*types.Pointer)
						_, have := info.TypeOf(s.X).Underlying().(*types.Pointer)
						if want && !have && !types.IsInterface(info.TypeOf(s.X)) {
							mark(s.X)
						}
					}
				}
			}
		case *ast.FuncLit:
			assigned := func(e ast.Expr) {
				for {
					switch x := ast.Unparen(e).(type) {
					case *ast.SelectorExpr:
						if _, isPtr := info.TypeOf(x.X).Underlying().(*types.Pointer); isPtr {
							return
						}
						e = x.X
						continue
					case *ast.IndexExpr:
						if _, isArr := info.TypeOf(x.X).Underlying().(*types.Array); isArr {
							e = x.X
							continue
						}
						return
					case *ast.Ident:
						o := info.Uses[x]
						if o != nil && (o.Pos() < n.Pos() || o.Pos() > n.End()) {
							mark(x)
						}
						return
					default:
						return
					}
				}
			}
			ast.Inspect(n.Body, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.AssignStmt:
					for _, l := range m.Lhs {
						assigned(l)
					}
				case *ast.IncDecStmt:
					assigned(m.X)
				}
				return true
			})
		}
		return true
	})
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType(u.Elem())
	}
	return true
}
