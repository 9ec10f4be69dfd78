package main

// Loops, invariants, hints, function entry and exit.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type loopDef struct {
	ord      int
	label    string
	stmt     ast.Node
	bodyNode ast.Node
	idx      types.Object // $i
	vis      types.Object // visited keys of a map range
	visT     *STy
	assigned []types.Object
	cond     func(st *State) *Term
	body     func(st *State)
	post     func(st *State)
	auto     func(st *State) *Term // facts that hold at the head by construction
	after    func(st *State)
	ghostW0  int
	ghostW   map[string]bool // ghost variables the body assigns (found by the dry runs)
}

func (c *FnCtx) ordinal(n ast.Node) int {
	k := c.fr.path + "#" + strconv.Itoa(int(n.Pos()))
	if o, ok := c.ordinals[k]; ok {
		return o
	}
	o := c.nloops
	c.nloops++
	c.ordinals[k] = o
	return o
}

// assignedVars collects local variables assigned within n.
func (c *FnCtx) assignedVars(st *State, ns ...ast.Node) []types.Object {
	info := c.info()
	seen := map[types.Object]bool{}
	add := func(e ast.Expr) {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.Ident:
				o := info.Uses[x]
				if o == nil {
					o = info.Defs[x]
				}
				if o != nil {
					seen[o] = true
				}
				return
			case *ast.SelectorExpr:
				t := info.TypeOf(x.X)
				if t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return
					}
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				}
				return
			default:
				return
			}
		}
	}
	for _, n := range ns {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					add(l)
				}
			case *ast.IncDecStmt:
				add(m.X)
			case *ast.RangeStmt:
				if m.Key != nil {
					add(m.Key)
				}
				if m.Value != nil {
					add(m.Value)
				}
			}
			return true
		})
	}
	// a return inside an inlined function sets its result variables
	for f := c.fr; f != nil; f = f.parent {
		for _, o := range f.results {
			seen[o] = true
		}
	}
	var out []types.Object
	for o := range seen {
		if _, ok := st.vars[o]; ok && !c.boxed[o] {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

func (c *FnCtx) hiddenVar(ord int, name string, t types.Type) types.Object {
	k := fmt.Sprintf("%s%d", name, ord)
	_ = k
	if o, ok := c.loopIdx[ord]; ok && name == "$i" {
		return o
	}
	if o, ok := c.visited[ord]; ok && name == "$visited" {
		return o
	}
	o := types.NewVar(token.Pos(1000000000+ord), nil, name, t)
	if name == "$i" {
		c.loopIdx[ord] = o
	} else {
		c.visited[ord] = o
	}
	return o
}

func (c *FnCtx) forStmt(st *State, s *ast.ForStmt, label string) {
	if s.Init != nil {
		c.stmt(st, s.Init, "")
		if st.dead {
			return
		}
	}
	ord := c.ordinal(s)
	ld := &loopDef{ord: ord, label: label, stmt: s, bodyNode: s.Body}
	var post ast.Node
	if s.Post != nil {
		post = s.Post
	}
	ld.assigned = c.assignedVars(st, s.Body, post, exprNode(s.Cond))
	ld.cond = func(st *State) *Term {
		if s.Cond == nil {
			return tTrue
		}
		return c.expr(st, s.Cond)
	}
	ld.body = func(st *State) { c.block(st, s.Body.List) }
	ld.post = func(st *State) {
		if s.Post != nil {
			c.stmt(st, s.Post, "")
		}
	}
	// index variable of "for i := a; i < b; i++"
	if as, ok := s.Init.(*ast.AssignStmt); ok && len(as.Lhs) >= 1 {
		if id, ok := as.Lhs[0].(*ast.Ident); ok {
			if o := c.info().Defs[id]; o != nil && !c.boxed[o] {
				ld.idx = o
				if isIntegerT(o.Type()) {
					c.simpleCount(st, s, o, ld)
				}
			}
		}
	}
	if ld.idx != nil {
		c.loopIdx[ord] = ld.idx
	}
	c.execLoop(st, ld)
}

func exprNode(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

// simpleCount recognises counting loops whose bounds follow from their shape.
func (c *FnCtx) simpleCount(st *State, s *ast.ForStmt, o types.Object, ld *loopDef) {
	pi, ok := s.Post.(*ast.IncDecStmt)
	if !ok {
		return
	}
	if id, ok := pi.X.(*ast.Ident); !ok || c.info().Uses[id] != o {
		return
	}
	bodyAssigns := false
	for _, x := range c.assignedVars(st, s.Body, exprNode(s.Cond)) {
		if x == o {
			bodyAssigns = true
		}
	}
	if bodyAssigns {
		return
	}
	start := st.vars[o]
	var bound ast.Expr
	var op token.Token
	var conj func(e ast.Expr)
	conj = func(e ast.Expr) {
		if b, ok := ast.Unparen(e).(*ast.BinaryExpr); ok {
			if b.Op == token.LAND {
				conj(b.X)
				conj(b.Y)
				return
			}
			if id, ok := ast.Unparen(b.X).(*ast.Ident); ok && c.info().Uses[id] == o && bound == nil {
				switch b.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					bound, op = b.Y, b.Op
				}
			}
		}
	}
	if s.Cond != nil {
		conj(s.Cond)
	}
	pure := bound != nil
	if bound != nil {
		ast.Inspect(bound, func(n ast.Node) bool {
			if call, ok := n.(*ast.CallExpr); ok {
				if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "len" {
					pure = false
				}
			}
			return true
		})
	}
	ld.auto = func(h *State) *Term {
		i := h.vars[o]
		if pi.Tok == token.INC {
			r := le(start, i)
			if pure && (op == token.LSS || op == token.LEQ) {
				c.dry++
				b0, b1 := c.tryExpr(st, bound), c.tryExpr(h, bound)
				c.dry--
				if b0 != nil && b1 != nil && same(b0, b1) {
					if op == token.LEQ {
						b0 = add(b0, intT(1))
					}
					r = and(r, or(le(i, b0), eq(i, start)))
				}
			}
			return r
		}
		r := le(i, start)
		if pure && (op == token.GTR || op == token.GEQ) {
			c.dry++
			b0, b1 := c.tryExpr(st, bound), c.tryExpr(h, bound)
			c.dry--
			if b0 != nil && b1 != nil && same(b0, b1) {
				if op == token.GEQ {
					b0 = sub(b0, intT(1))
				}
				r = and(r, or(le(b0, i), eq(i, start)))
			}
		}
		return r
	}
}

func (c *FnCtx) tryExpr(st *State, e ast.Expr) (r *Term) {
	mark := len(c.facts)
	defer func() {
		c.facts = c.facts[:mark:mark]
		if x := recover(); x != nil {
			r = nil
		}
	}()
	return c.expr(st.clone(), e)
}

func (c *FnCtx) rangeStmt(st *State, s *ast.RangeStmt, label string) {
	ord := c.ordinal(s)
	xt := c.typeOf(s.X)
	if m, ok := xt.Underlying().(*types.Map); ok {
		c.rangeMap(st, s, m, ord, label)
		return
	}
	var n *Term
	var get func(st *State, i *Term) *Term
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		x := c.expr(st, s.X)
		n = sLen(x)
		get = func(st *State, i *Term) *Term { return c.elemLval(u.Elem(), x, i, nil).get(st) }
	case *types.Array:
		x := c.expr(st, s.X)
		n = intT(u.Len())
		get = func(st *State, i *Term) *Term { return sel(x, i) }
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n = c.expr(st, s.X)
			break
		}
		panic(unsupported("range over %s at %s", xt, c.pos(s)))
	default:
		panic(unsupported("range over %s at %s", xt, c.pos(s)))
	}
	n = c.short("rlen", n)
	idx := c.hiddenVar(ord, "$i", types.Typ[types.Int])
	st.vars[idx] = intT(0)
	ld := &loopDef{ord: ord, label: label, stmt: s, bodyNode: s.Body, idx: idx}
	ld.assigned = append(c.assignedVars(st, s.Body, exprNode(s.Key), exprNode(s.Value)), idx)
	ld.cond = func(st *State) *Term { return lt(st.vars[idx], n) }
	ld.auto = func(st *State) *Term {
		i := st.vars[idx]
		return and(le(intT(0), i), or(le(i, n), eq(i, intT(0))))
	}
	ld.body = func(st *State) {
		i := st.vars[idx]
		c.bindRange(st, s.Key, i, s.Tok)
		if s.Value != nil && get != nil {
			if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
				c.bindRange(st, s.Value, get(st, i), s.Tok)
			}
		}
		c.block(st, s.Body.List)
	}
	ld.post = func(st *State) { st.vars[idx] = add(st.vars[idx], intT(1)) }
	c.execLoop(st, ld)
	delete(st.vars, idx)
}

func (c *FnCtx) bindRange(st *State, e ast.Expr, v *Term, tok token.Token) {
	if e == nil {
		return
	}
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if tok == token.DEFINE {
			if o := c.info().Defs[id]; o != nil {
				c.declare(st, o, v)
			}
			return
		}
	}
	c.lval(st, e).set(st, v)
}

func (c *FnCtx) rangeMap(st *State, s *ast.RangeStmt, m *types.Map, ord int, label string) {
	r := c.short("m", c.expr(st, s.X))
	rowT := types.NewArray(types.Typ[types.Bool], 1)
	vis := c.hiddenVar(ord, "$visited", rowT)
	idx := c.hiddenVar(ord, "$i", types.Typ[types.Int])
	st.vars[vis] = c.falseRow()
	st.vars[idx] = intT(0)
	ld := &loopDef{ord: ord, label: label, stmt: s, bodyNode: s.Body, vis: vis, idx: idx}
	ld.assigned = append(c.assignedVars(st, s.Body, exprNode(s.Key), exprNode(s.Value)), vis, idx)
	var key *Term
	ld.cond = func(st *State) *Term {
		key = c.fresh("key", "Int")
		c.fact(c.wf(m.Key(), key, c.heap(st, "next"), true))
		more := c.fresh("more", "Bool")
		dom := c.readMapDom(st, m, r)
		v := st.vars[vis]
		c.assume(st, implies(more, and(not(eq(r, intT(0))), sel(dom, key), not(sel(v, key)))))
		boundCtr++
		k := sym(fmt.Sprintf("k?%d", boundCtr), "Int")
		c.assume(st, implies(not(more), forall([]Bind{{k.Op, "Int"}}, implies(and(not(eq(r, intT(0))), sel(dom, k)), sel(v, k)), []*Term{sel(dom, k)}, []*Term{sel(v, k)})))
		return more
	}
	ld.auto = func(st *State) *Term { return le(intT(0), st.vars[idx]) }
	ld.body = func(st *State) {
		k := key
		c.bindRange(st, s.Key, k, s.Tok)
		if s.Value != nil {
			if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
				c.bindRange(st, s.Value, sel(c.readMapVal(st, m, r), k), s.Tok)
			}
		}
		st.vars[vis] = store(st.vars[vis], k, tTrue)
		c.block(st, s.Body.List)
	}
	ld.post = func(st *State) { st.vars[idx] = add(st.vars[idx], intT(1)) }
	c.execLoop(st, ld)
	delete(st.vars, vis)
	delete(st.vars, idx)
}

// shuffle models rand.Shuffle(n, f): an arbitrary number of calls f(i, j) with 0 <= j <= i < n.
func (c *FnCtx) shuffle(st *State, call *ast.CallExpr) {
	n := c.short("n", c.exprAs(st, call.Args[0], types.Typ[types.Int]))
	c.oblige(st, "safe.shuffle", "rand.Shuffle count is not negative", call, le(intT(0), n))
	var cl *closure
	switch f := ast.Unparen(call.Args[1]).(type) {
	case *ast.FuncLit:
		cl = &closure{f, c.fr}
	case *ast.Ident:
		o := c.info().Uses[f]
		cl = c.closures[o]
	}
	if cl == nil {
		panic(unsupported("rand.Shuffle argument at %s", c.pos(call)))
	}
	ord := c.ordinal(call)
	ld := &loopDef{ord: ord, stmt: call, bodyNode: call}
	ld.assigned = c.assignedVars(st, cl.lit.Body)
	ld.cond = func(st *State) *Term { return c.fresh("more", "Bool") }
	ld.body = func(st *State) {
		i, j := c.fresh("i", "Int"), c.fresh("j", "Int")
		c.assume(st, and(le(intT(0), j), le(j, i), lt(i, n)))
		c.runClosure(st, cl, []SVal{{i, tyInt}, {j, tyInt}}, call)
		st.ghosts["swapI"], st.ghosts["swapJ"] = SVal{i, tyInt}, SVal{j, tyInt} // for hints at the tail
	}
	ld.post = func(st *State) {
		delete(st.ghosts, "swapI")
		delete(st.ghosts, "swapJ")
	}
	c.execLoop(st, ld)
}

func (c *FnCtx) loopSpec(ord int) *LoopSpec {
	if c.spec == nil {
		return nil
	}
	return c.spec.Loops[ord]
}

// invariants of a loop: the contract's clauses for this ordinal, or (fallback mode) every clause of the function as a candidate.
func (c *FnCtx) invariants(ord int) (must []*Clause, cand []*Clause) {
	if c.spec == nil {
		return
	}
	if c.mode == 0 {
		if ls := c.loopSpec(ord); ls != nil {
			must = c.active(ls.Invs)
		}
		return
	}
	var ords []int
	for o := range c.spec.Loops {
		if c.mode == 1 || o == ord {
			ords = append(ords, o)
		}
	}
	sort.Ints(ords)
	for _, o := range ords {
		for k, cl := range c.active(c.spec.Loops[o].Invs) {
			cc := *cl
			cc.Pos = fmt.Sprintf("%d/%d/%d", ord, o, k)
			cand = append(cand, &cc)
		}
	}
	return
}

func (c *FnCtx) execLoop(st *State, ld *loopDef) {
	if st.dead {
		return
	}
	savedNode := c.fr.node
	c.fr.node = ld.stmt
	c.curLoop = append(c.curLoop, ld.ord)
	savedPre, hadPre := c.loopPre[ld.ord]
	defer func() {
		c.fr.node = savedNode
		c.curLoop = c.curLoop[:len(c.curLoop)-1]
		if hadPre {
			c.loopPre[ld.ord] = savedPre
		} else {
			delete(c.loopPre, ld.ord)
		}
	}()
	c.hints(st, fmt.Sprintf("loop:%d:entry", ld.ord))
	pre := st.clone()
	c.loopPre[ld.ord] = pre
	mark := c.nserial

	// 1. invariants hold on entry
	must, cand := c.invariants(ld.ord)
	for _, cl := range must {
		for _, g := range conjuncts(c.invEnv(st, pre).boolE(cl.E)) {
			c.oblige(st, "inv.init", fmt.Sprintf("loop %d invariant holds on entry: %s", ld.ord, cl.Text), ld.stmt, g)
		}
	}
	if c.mode > 0 {
		cand = c.expandCands(st, pre, cand, ld)
	}
	cand = c.evalCands(st, pre, cand, ld, "inv.init")

	// 2. dry runs: which heap components change, and where
	written := map[string]bool{}
	var targets []*WItem
	allocs := false
	for iter := 0; ; iter++ {
		if iter > 12 {
			panic(unsupported("loop effects do not stabilise at %s", c.pos(ld.stmt)))
		}
		targets = nil
		h, ends, _ := c.dryBody(st, ld, written, &targets, must, pre)
		n, ng := len(written), ld.ghostW0
		ld.ghostW0 = len(ld.ghostW)
		for _, e := range ends {
			for comp := range e.heap {
				if comp == "next" {
					if !same(c.heap(e, comp), c.heap(h, comp)) {
						allocs = true
					}
					continue
				}
				if !same(c.heap(e, comp), c.heap(h, comp)) {
					written[comp] = true
				}
			}
		}
		for _, t := range targets {
			written[t.comp] = true
		}
		if allocs {
			if !written["next"] {
				written["next"] = true
			}
		}
		if len(written) == n && ng == len(ld.ghostW) {
			break
		}
	}

	// 3. frame of the loop
	frame := &WFrame{loop: true, next: c.heap(pre, "next"), name: fmt.Sprintf("loop %d", ld.ord)}
	quant := map[string]bool{}
	asGiven := c.mode == 0
	if ls := c.loopSpec(ld.ord); ls != nil && c.mode == 0 {
		env := c.invEnv(pre, pre)
		for _, m := range ls.Mods {
			frame.items = append(frame.items, c.evalItem(env, m)...)
		}
	} else if ls != nil && c.mode == 2 && c.evalMods(pre, ls, frame) {
		asGiven = true
	} else if c.mode > 0 && c.spec != nil {
		for _, l := range c.spec.Loops {
			for _, m := range l.Mods {
				func() {
					defer func() { recover() }()
					frame.items = append(frame.items, c.evalItem(c.invEnv(pre, pre), m)...)
				}()
			}
		}
		for _, x := range c.builtSlices(pre, ld) {
			func() {
				defer func() { recover() }()
				frame.items = append(frame.items, c.evalItem(c.invEnv(pre, pre), &ModItem{E: x, Kind: "elemscap", Text: sxText(x) + "[*]cap"})...)
			}()
		}
	}
	seen := map[string]bool{}
	// components the contract frames explicitly: no inferred targets (writes are checked against the loop frame)
	explicit := map[string]bool{}
	if asGiven {
		for _, it := range frame.items {
			explicit[it.comp] = true
		}
	}
	for _, t := range targets {
		if explicit[t.comp] {
			continue
		}
		if t.whole {
			if !seen["whole"+t.comp] {
				seen["whole"+t.comp] = true
				frame.items = append(frame.items, t)
			}
			continue
		}
		inv := len(t.binds) == 0 && t.cond == nil && c.olderThan(t.ref, mark)
		if !inv {
			// a bound-variable item that only mentions loop-entry symbols is loop-invariant as a set
			if len(t.binds) > 0 && c.olderThan(t.ref, mark) && (t.cond == nil || c.olderThan(t.cond, mark)) && (t.lo == nil || c.olderThan(t.lo, mark) && c.olderThan(t.hi, mark)) {
				k := t.comp + t.ref.String()
				if !seen[k] {
					seen[k] = true
					frame.items = append(frame.items, t)
				}
				continue
			}
			quant[t.comp] = true
			continue
		}
		it := &WItem{comp: t.comp, ref: t.ref, text: t.text}
		if t.lo != nil && c.olderThan(t.lo, mark) && c.olderThan(t.hi, mark) {
			it.lo, it.hi = t.lo, t.hi
		}
		k := t.comp + "|" + t.ref.String()
		if it.lo == nil {
			k += "|*"
		} else {
			k += "|" + it.lo.String() + "|" + it.hi.String()
		}
		if seen[k] || seen[t.comp+"|"+t.ref.String()+"|*"] {
			continue
		}
		if it.lo == nil && !covered(frame.items, it) {
			// drop narrower items of the same row
			var keep []*WItem
			for _, x := range frame.items {
				if !(x.comp == it.comp && len(x.binds) == 0 && x.cond == nil && !x.whole && same(x.ref, it.ref)) {
					keep = append(keep, x)
				}
			}
			frame.items = keep
		} else if it.lo == nil {
			continue
		}
		seen[k] = true
		frame.items = append(frame.items, it)
	}

	// where the written places cannot be named at loop entry, the enclosing frame bounds them
	if ls := c.loopSpec(ld.ord); ls == nil || !ls.HasMods || !asGiven {
		for i := len(c.frames) - 1; i >= 0; i-- {
			f := c.frames[i]
			if f.rec != nil {
				continue
			}
			for _, it := range f.items {
				if quant[it.comp] && !(len(it.binds) == 0 && it.cond == nil && covered(frame.items, it)) {
					frame.items = append(frame.items, it)
				}
			}
			break
		}
	}

	// 4. arbitrary iteration
	h := st.clone()
	if written["next"] {
		nn := c.fresh("next", "Int")
		c.fact(le(c.heap(pre, "next"), nn))
		h.heap["next"] = nn
	}
	next := c.heap(h, "next")
	for _, o := range ld.assigned {
		t := o.Type()
		var v *Term
		if o.Name() == "$visited" {
			v = c.fresh(o.Name(), arrSort("Bool"))
		} else {
			v = c.fresh(o.Name(), c.w.sortOf(t))
			c.fact(c.wf(t, v, next, true))
		}
		h.vars[o] = v
	}
	for name, g := range h.ghosts {
		if ld.ghostW[name] {
			h.ghosts[name] = SVal{c.fresh(name, g.T.Sort), g.Ty}
		}
	}
	full := map[string]bool{}
	for _, comp := range sortedKeys(written) {
		if comp == "next" {
			continue
		}
		var items []*WItem
		simple := !quant[comp]
		for _, it := range frame.items {
			if it.comp == comp {
				items = append(items, it)
				if len(it.binds) > 0 || it.cond != nil {
					simple = false
				}
			}
		}
		if simple || hasWhole(items) || c.compKind[comp] == "global" {
			if len(items) == 0 {
				// only rows of unreachable iterations: nothing of the pre-state changes
				items = nil
				nh := c.fresh(comp, c.compSort[comp])
				c.frameFacts(comp, c.heap(pre, comp), nh, nil, c.heap(pre, "next"))
				for _, f := range c.wfComp(comp, nh, next) {
					c.fact(f)
				}
				h.heap[comp] = nh
				full[comp] = true
				continue
			}
			full[comp] = c.havoc(h, comp, items, next)
			continue
		}
		nh := c.fresh(comp, c.compSort[comp])
		c.frameFacts(comp, c.heap(pre, comp), nh, items, c.heap(pre, "next"))
		for _, f := range c.wfComp(comp, nh, next) {
			c.fact(f)
		}
		h.heap[comp] = nh
		full[comp] = true
	}
	if written["next"] {
		c.reWF(h, next, func(comp string) bool { return full[comp] })
	}
	c.frames = append(c.frames, frame)
	factMark := len(c.facts)
	if ld.auto != nil {
		c.assume(h, ld.auto(h))
	}
	for _, cl := range must {
		c.assume(h, c.invEnv(h, pre).boolE(cl.E))
	}
	var kept []*Clause
	for _, cl := range cand { // candidates are judged in every state they are read in
		if c.tryEval(c.invEnv(h, pre), cl.E) != "" {
			c.killed[cl.Pos] = true
			continue
		}
		kept = append(kept, cl)
		c.assume(h, c.invEnv(h, pre).boolE(cl.E))
	}
	cand = kept
	headFacts := len(c.facts)
	_ = factMark
	cond := ld.cond(h)
	cond = c.short("lc", cond)
	exit := h.clone()
	c.pushPC(exit, not(cond))
	condFacts := len(c.facts)
	b := h.clone()
	c.pushPC(b, cond)
	lc := &loopCtx{label: ld.label}
	c.fr.loops = append(c.fr.loops, lc)
	var retsBefore int
	if c.fr.rets != nil {
		retsBefore = len(*c.fr.rets)
	}
	outer := c.countRets()
	if !b.dead {
		if c.dry == 0 {
			c.cover(b, fmt.Sprintf("loop %d body is reachable", ld.ord))
		}
		c.fr.node = ld.bodyNode
		c.hints(b, fmt.Sprintf("loop:%d:head", ld.ord))
		ld.body(b)
		b2 := c.mergeAll(append([]*State{b}, lc.continues...))
		if b2 != nil && !b2.dead {
			c.hints(b2, fmt.Sprintf("loop:%d:tail", ld.ord))
			c.fr.node = ld.stmt
			if ld.post != nil {
				ld.post(b2)
			}
			for _, cl := range must {
				for _, g := range conjuncts(c.invEnv(b2, pre).boolE(cl.E)) {
					c.oblige(b2, "inv.keep", fmt.Sprintf("loop %d invariant is preserved: %s", ld.ord, cl.Text), ld.stmt, g)
				}
			}
			c.evalCands(b2, pre, cand, ld, "inv.keep")
		}
		c.fr.node = ld.stmt
	}
	c.fr.loops = c.fr.loops[:len(c.fr.loops)-1]
	c.frames = c.frames[:len(c.frames)-1]
	survive := len(lc.breaks) > 0 || c.countRets() > outer
	_ = retsBefore
	_ = headFacts
	if !survive {
		c.facts = c.facts[:condFacts:condFacts]
	}
	if ld.after != nil && !exit.dead {
		ld.after(exit)
	}
	c.become(st, c.mergeAll(append([]*State{exit}, lc.breaks...)))
	if !st.dead {
		c.hints(st, fmt.Sprintf("loop:%d:after", ld.ord))
	}
}

func hasWhole(items []*WItem) bool {
	for _, it := range items {
		if it.whole {
			return true
		}
	}
	return false
}

func covered(items []*WItem, t *WItem) bool {
	for _, it := range items {
		if it.comp == t.comp && (it.whole || it.lo == nil && len(it.binds) == 0 && it.cond == nil && same(it.ref, t.ref)) {
			return true
		}
	}
	return false
}

func (c *FnCtx) countRets() int {
	n := 0
	for f := c.fr; f != nil; f = f.parent {
		if f.rets != nil {
			n += len(*f.rets)
		}
		for _, l := range f.loops {
			n += len(l.breaks) + len(l.continues)
		}
	}
	return n
}

func (c *FnCtx) dryBody(st *State, ld *loopDef, written map[string]bool, targets *[]*WItem, must []*Clause, pre *State) (*State, []*State, bool) {
	facts := c.facts
	obls := c.obls
	c.dry++
	saved := c.frames
	frs := []struct {
		f *frameCtx
		r int
		l []*loopCtx
	}{}
	for f := c.fr; f != nil; f = f.parent {
		r := 0
		if f.rets != nil {
			r = len(*f.rets)
		}
		var ls []*loopCtx
		for _, l := range f.loops {
			cp := *l
			ls = append(ls, &cp)
		}
		frs = append(frs, struct {
			f *frameCtx
			r int
			l []*loopCtx
		}{f, r, ls})
	}
	defer func() {
		c.dry--
		c.facts = facts[:len(facts):len(facts)]
		c.obls = obls
		c.frames = saved
		for _, x := range frs {
			if x.f.rets != nil {
				*x.f.rets = (*x.f.rets)[:x.r]
			}
			for i, l := range x.l {
				*x.f.loops[i] = *l
			}
		}
	}()
	c.facts = facts[:len(facts):len(facts)]
	c.frames = []*WFrame{{loop: true, rec: targets}}
	h := st.clone()
	if written["next"] {
		h.heap["next"] = c.fresh("next", "Int")
	}
	for _, o := range ld.assigned {
		if o.Name() == "$visited" {
			h.vars[o] = c.fresh("vis", arrSort("Bool"))
		} else {
			h.vars[o] = c.fresh(o.Name(), c.w.sortOf(o.Type()))
		}
	}
	for comp := range written {
		if comp != "next" {
			h.heap[comp] = c.fresh(comp, c.compSort[comp])
		}
	}
	b := h.clone()
	cond := ld.cond(b)
	c.pushPC(b, c.short("lc", cond))
	lc := &loopCtx{label: ld.label}
	c.fr.loops = append(c.fr.loops, lc)
	defer func() { c.fr.loops = c.fr.loops[:len(c.fr.loops)-1] }()
	var ends []*State
	b.dead = false
	ghosts0 := map[string]*Term{}
	for name, g := range b.ghosts {
		if ld.ghostW[name] {
			b.ghosts[name] = SVal{c.fresh(name, g.T.Sort), g.Ty}
		}
		ghosts0[name] = b.ghosts[name].T
	}
	defer func() {
		for _, e := range ends {
			for name, t := range ghosts0 {
				if g, ok := e.ghosts[name]; ok && !same(g.T, t) {
					if ld.ghostW == nil {
						ld.ghostW = map[string]bool{}
					}
					ld.ghostW[name] = true
				}
			}
		}
	}()
	c.hints(b, fmt.Sprintf("loop:%d:head", ld.ord))
	ld.body(b)
	all := append([]*State{b}, lc.continues...)
	m := c.mergeAll(all)
	if m != nil && !m.dead {
		c.hints(m, fmt.Sprintf("loop:%d:tail", ld.ord))
		if ld.post != nil {
			ld.post(m)
		}
		ends = append(ends, m)
	}
	ends = append(ends, lc.breaks...)
	return h, ends, true
}

// evalMods adds the frame of the loop's contract; false if it does not fit the code.
func (c *FnCtx) evalMods(pre *State, ls *LoopSpec, frame *WFrame) (ok bool) {
	n := len(frame.items)
	mark := len(c.facts)
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specEvalErr); !is {
				panic(r)
			}
			frame.items = frame.items[:n]
			c.facts = c.facts[:mark:mark]
			ok = false
		}
	}()
	for _, m := range ls.Mods {
		frame.items = append(frame.items, c.evalItem(c.invEnv(pre, pre), m)...)
	}
	return true
}

// evalCands checks candidate invariants (fallback mode): those that cannot be evaluated here are dropped.
func (c *FnCtx) evalCands(st, pre *State, cand []*Clause, ld *loopDef, kind string) []*Clause {
	var out []*Clause
	for _, cl := range cand {
		var g *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specEvalErr); ok {
						g = nil
						return
					}
					panic(r)
				}
			}()
			g = c.invEnv(st, pre).boolE(cl.E)
		}()
		if g == nil {
			if kind == "inv.init" {
				c.killed[cl.Pos] = true
			}
			continue
		}
		out = append(out, cl)
		if c.dry == 0 && !st.dead {
			parts := []*Term{g}
			if c.mode == 2 {
				parts = conjuncts(g)
			}
			for _, g := range parts {
				o := c.addObl(st, "cand", cl.Pos, ld.stmt, g)
				o.Name = "cand:" + cl.Pos + ":" + kind
			}
		}
		if kind == "inv.init" {
			c.assume(st, g)
		}
	}
	return out
}

// ---- environments ----

func (c *FnCtx) entryEnv() *Env {
	return &Env{c: c, pkg: c.specPkg(), st: c.entry, old: c.entry, vars: c.params}
}
func (c *FnCtx) specPkg() string {
	if c.spec != nil {
		return c.spec.Pkg
	}
	return c.fn.Pkg.Name
}

func (c *FnCtx) invEnv(st, pre *State) *Env {
	e := &Env{c: c, pkg: c.specPkg(), st: st, old: c.entry, pre: pre, vars: map[string]SVal{}, oldvars: c.params}
	e.locals = c.lookupLocal
	return e
}

func (c *FnCtx) lookupLocal(name string, st *State) (SVal, bool) {
	if strings.HasPrefix(name, "$i") || strings.HasPrefix(name, "$visited") {
		base := "$i"
		if strings.HasPrefix(name, "$visited") {
			base = "$visited"
		}
		ord := -1
		if name == base {
			if len(c.curLoop) > 0 {
				ord = c.curLoop[len(c.curLoop)-1]
			}
		} else {
			ord, _ = strconv.Atoi(name[len(base):])
		}
		var o types.Object
		if base == "$i" {
			o = c.loopIdx[ord]
		} else {
			o = c.visited[ord]
		}
		if o != nil {
			if v, ok := st.vars[o]; ok {
				if base == "$visited" {
					return SVal{v, &STy{Row: tyBool}}, true
				}
				return SVal{v, &STy{G: o.Type()}}, true
			}
		}
		return SVal{}, false
	}
	if g, ok := st.ghosts[name]; ok {
		return g, true
	}
	for fr := c.fr; fr != nil; fr = fr.parent {
		var sc *types.Scope
		if fr.node != nil {
			sc = fr.pkg.Info.Scopes[fr.node]
			if sc == nil {
				sc = fr.pkg.Types.Scope().Innermost(fr.node.Pos())
			}
		}
		for sc != nil && sc != fr.pkg.Types.Scope() {
			if o, ok := sc.Lookup(name).(*types.Var); ok {
				if _, in := st.vars[o]; in {
					return c.localVal(st, o), true
				}
			}
			sc = sc.Parent()
		}
		for _, o := range fr.results {
			if o.Name() == name {
				if _, in := st.vars[o]; in {
					return c.localVal(st, o), true
				}
			}
		}
	}
	if a, ok := c.alias[name]; ok {
		return c.lookupLocal(a, st)
	}
	// parameters by contract name (positional binding survives renaming)
	if o, ok := c.paramObj[name]; ok {
		if _, in := st.vars[o]; in {
			return c.localVal(st, o), true
		}
	}
	return SVal{}, false
}

// localVal is the value of a local variable, or its address within addr(x).
func (c *FnCtx) localVal(st *State, o types.Object) SVal {
	if c.wantAddr {
		if !c.boxed[o] {
			panic(specEvalErr{"addr: " + o.Name() + " has no address"})
		}
		return SVal{st.vars[o], &STy{G: types.NewPointer(o.Type())}}
	}
	return SVal{c.readVar(st, o), &STy{G: o.Type()}}
}

// ---- hints ----

func (c *FnCtx) hints(st *State, at string) {
	if c.spec == nil || st.dead {
		return
	}
	for _, h := range c.spec.Hints {
		if h.At != at || !tagActive(h.Tag, c.prop) {
			continue
		}
		if c.mode > 0 { // a hint that does not fit rewritten code is left out
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specEvalErr); !ok {
							panic(r)
						}
						if h.Kind == "check" {
							c.oblige(st, "check", h.Text, nil, tFalse)
						}
					}
				}()
				c.hint(st, h)
			}()
			continue
		}
		c.hint(st, h)
	}
}

func (c *FnCtx) hint(st *State, h *Hint) {
	pre := c.entry
	if len(c.curLoop) > 0 {
		if p := c.loopPre[c.curLoop[len(c.curLoop)-1]]; p != nil {
			pre = p
		}
	}
	env := c.invEnv(st, pre)
	if h.At == "exit" {
		env.vars = c.exitVars(st)
	}
	if strings.HasPrefix(h.At, "call:") {
		for k, v := range c.callVars {
			env.vars[k] = v
		}
	}
	switch h.Kind {
	case "assert":
		if c.mode > 0 { // a step of the recorded proof: keep it only if it still holds
			id := "assert/" + h.At + "/" + h.Text
			if c.killed[id] {
				return
			}
			g := env.boolE(h.E)
			if c.dry == 0 && !st.dead {
				parts := []*Term{g}
				if c.mode == 2 {
					parts = conjuncts(g)
				}
				for _, g := range parts {
					o := c.addObl(st, "cand", id, nil, g)
					o.Name = "cand:" + id
				}
			}
			c.assume(st, g)
			return
		}
		for _, g := range conjuncts(env.boolE(h.E)) {
			c.oblige(st, "assert", h.Text, nil, g)
		}
	case "check": // part of what is to be proved, not a step of the proof
		for _, g := range conjuncts(env.boolE(h.E)) {
			c.oblige(st, "check", h.Text, nil, g)
		}
	case "assume":
		c.assume(st, env.boolE(h.E))
	case "apply":
		c.applyLemma(st, env, h.E)
	case "ghostvar":
		v := env.eval(h.E)
		ty := c.w.resolveTy(h.Ty, env.pkg)
		st.ghosts[h.Name] = SVal{v.T, ty}
	case "ghost":
		v := env.eval(h.E)
		if h.L.K == "id" {
			g, ok := st.ghosts[h.L.S]
			if !ok {
				sfail(h.L, "unknown ghost variable %s", h.L.S)
			}
			st.ghosts[h.L.S] = SVal{v.T, g.Ty}
			return
		}
		if h.L.K == "fld" {
			b := env.eval(h.L.A[0])
			pt := b.Ty.G.Underlying().(*types.Pointer)
			if _, isG := c.w.Specs.Ghosts[typeKey(pt.Elem())+"."+h.L.S]; !isG {
				sfail(h.L, "not a ghost field")
			}
			comp, _, _ := c.fieldComp(pt.Elem(), h.L.S)
			// writing back the current value is no write
			w := st.clone()
			c.pushPC(w, not(eq(sel(c.heap(st, comp), b.T), v.T)))
			c.checkWrite(w, &WItem{comp: comp, ref: b.T, text: h.Text}, nil)
			st.heap[comp] = c.define(comp, store(c.heap(st, comp), b.T, v.T))
			return
		}
		sfail(h.L, "bad ghost assignment")
	}
}

func (c *FnCtx) applyLemma(st *State, env *Env, x *SX) {
	if x.K == "all" { // forall-introduced application: apply under binders
		panic(specEvalErr{"apply under quantifier not supported"})
	}
	if x.K == "bin" && x.S == "==>" { // conditional application
		s2 := st.clone()
		c.pushPC(s2, env.boolE(x.A[0]))
		c.applyLemma(s2, env, x.A[1])
		return
	}
	if x.K != "call" {
		sfail(x, "apply needs lemma(args)")
	}
	pkg, name := env.pkg, x.A[0].S
	if x.A[0].K == "fld" {
		pkg = x.A[0].A[0].S
	}
	l, ok := c.w.lookupLemma(pkg, name)
	if !ok {
		sfail(x, "unknown lemma %s", name)
	}
	if len(l.Params) != len(x.A)-1 {
		sfail(x, "lemma %s: %d arguments expected", name, len(l.Params))
	}
	if c.lemmaSelf >= 0 && c.w.lemmaIndex(l.Pkg+"."+l.Name) >= c.lemmaSelf {
		sfail(x, "lemma %s is not declared before its use", name)
	}
	c.used["lemma:"+l.Pkg+"."+l.Name] = true
	vars := map[string]SVal{}
	for i, p := range l.Params {
		ty := c.w.resolveTy(p.Ty, l.Pkg)
		v := env.eval(x.A[i+1])
		if isFloat(ty) && v.T.Sort == "Int" {
			tmp := SVal{floatLit(0), tyF64}
			env.coerce(&tmp, &v, x)
		}
		if v.T.Sort != c.w.sort(ty) {
			sfail(x, "lemma %s: argument %d has type %s", name, i, v.Ty)
		}
		vars[p.Name] = SVal{v.T, ty}
	}
	le := &Env{c: c, pkg: l.Pkg, vars: vars, st: st, old: c.entry}
	if c.mode > 0 {
		id := "apply/" + l.Name + "/" + sxText(x)
		if c.killed[id] {
			return
		}
		for _, r := range l.Requires {
			if g := le.boolE(r); c.dry == 0 && !st.dead {
				o := c.addObl(st, "cand", id, nil, g)
				o.Name = "cand:" + id
			}
		}
	} else {
		for _, r := range l.Requires {
			c.oblige(st, "assert", "requires of lemma "+l.Name, nil, le.boolE(r))
		}
	}
	for _, r := range l.Ensures {
		c.assume(st, le.boolE(r))
	}
}

// ---- function entry / exit ----

func (c *FnCtx) exitVars(st *State) map[string]SVal {
	m := map[string]SVal{}
	for k, v := range c.params {
		m[k] = v
	}
	for i, o := range c.fr.results {
		v := SVal{c.readVar(st, o), &STy{G: o.Type()}}
		if c.spec != nil && i < len(c.spec.Results) {
			m[c.spec.Results[i]] = v
		}
	}
	return m
}

func (c *FnCtx) checkExit(st *State, n ast.Node) {
	if c.dry > 0 {
		return
	}
	saved := c.curLoop
	c.hints(st, "exit")
	_ = saved
	env := &Env{c: c, pkg: c.specPkg(), st: st, old: c.entry, vars: c.exitVars(st), oldvars: c.params}
	c.cover(st, "return is reachable")
	for _, cl := range c.active(c.spec.Panics) {
		c.oblige(st, "ensures", "normal return only if not: "+cl.Text, n, not(c.entryEnv().boolE(cl.E)))
	}
	for _, cl := range c.active(c.spec.Ensures) {
		g := env.boolE(cl.E)
		if c.dry == 0 && g.Op != "true" {
			for _, part := range conjuncts(g) {
				c.oblige(st, "ensures", cl.Text, n, part)
			}
		} else if g.Op == "true" {
			c.trivial++
		}
	}
}

// conjuncts splits a goal into separately proved parts.
func conjuncts(t *Term) []*Term {
	switch {
	case t.Op == "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case t.Op == "=>":
		ps := conjuncts(t.Args[1])
		if len(ps) == 1 {
			return []*Term{t}
		}
		var out []*Term
		for _, a := range ps {
			out = append(out, implies(t.Args[0], a))
		}
		return out
	case t.Op == "forall":
		ps := conjuncts(t.Args[0])
		if len(ps) == 1 {
			return []*Term{t}
		}
		var out []*Term
		for _, a := range ps {
			out = append(out, &Term{Op: "forall", Binds: t.Binds, Args: []*Term{a}, Pats: t.Pats, Sort: "Bool"})
		}
		return out
	}
	return []*Term{t}
}

// Run generates the obligations of one function.
func (c *FnCtx) Run() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				err = fmt.Errorf("%s: unsupported: %s", c.fn.Key, x.Msg)
			case specEvalErr:
				err = fmt.Errorf("%s: contract does not apply: %s", c.fn.Key, x.msg)
			default:
				panic(r)
			}
		}
	}()
	fn := c.fn
	sig := fn.Obj.Type().(*types.Signature)
	c.scanBoxed(fn.Pkg, fn.Decl.Body, fn.Decl.Type, fn.Decl.Recv)
	c.paramObj = map[string]types.Object{}
	fr := &frameCtx{fn: fn, pkg: fn.Pkg, path: fn.Key, node: fn.Decl.Type, top: true}
	c.fr = fr
	st := &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, ghosts: map[string]SVal{}}
	next0 := c.heap(st, "next")
	var objs []*types.Var
	var names []string
	if sig.Recv() != nil {
		objs = append(objs, sig.Recv())
		names = append(names, c.spec.Recv)
	}
	if len(c.spec.Params) != sig.Params().Len() {
		return fmt.Errorf("%s: contract has %d parameters, function has %d", fn.Key, len(c.spec.Params), sig.Params().Len())
	}
	if len(c.spec.Results) > sig.Results().Len() {
		return fmt.Errorf("%s: contract has %d results, function has %d", fn.Key, len(c.spec.Results), sig.Results().Len())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		objs = append(objs, sig.Params().At(i))
		names = append(names, c.spec.Params[i])
	}
	type pv struct {
		o *types.Var
		v *Term
	}
	var pvs []pv
	for i, o := range objs {
		n := names[i]
		if n == "" {
			n = o.Name()
		}
		v := c.baseSym("p_"+n, c.w.sortOf(o.Type()))
		c.base = append(c.base, c.wf(o.Type(), v, next0, true))
		c.params[n] = SVal{v, &STy{G: o.Type()}}
		c.paramObj[n] = o
		pvs = append(pvs, pv{o, v})
	}
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			c.base = append(c.base, not(eq(pvs[0].v, intT(0))))
		}
	}
	c.entry = st.clone()
	for _, g := range c.spec.GhostIn {
		ty := c.w.resolveTy(g.Ty, c.spec.Pkg)
		c.params[g.Name] = SVal{c.baseSym("g_"+g.Name, c.w.sort(ty)), ty}
		st.ghosts[g.Name] = c.params[g.Name]
	}
	// frame
	env := c.entryEnv()
	frame := &WFrame{next: next0, name: fn.Key}
	for _, m := range c.spec.Mods {
		frame.items = append(frame.items, c.evalItem(env, m)...)
	}
	c.frames = []*WFrame{frame}
	if fn.Init {
		c.frames = nil
	}
	for _, cl := range c.active(c.spec.Requires) {
		c.fact(env.boolE(cl.E))
	}
	for _, p := range pvs {
		if c.boxed[p.o] {
			c.declare(st, p.o, p.v)
		} else {
			st.vars[p.o] = p.v
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		var o types.Object = r
		if r.Name() == "" || r.Name() == "_" {
			o = types.NewVar(token.Pos(-(1 + i)), nil, fmt.Sprintf("$res%d", i), r.Type())
		}
		fr.results = append(fr.results, o)
		c.declare(st, o, c.zero(r.Type()))
	}
	for _, u := range c.spec.Uses {
		l, ok := c.w.lookupLemma(c.spec.Pkg, u)
		if !ok {
			return fmt.Errorf("%s: unknown lemma %s", fn.Key, u)
		}
		s, err := c.w.lemmaStmt(l)
		if err != nil {
			return err
		}
		c.used["lemma:"+l.Pkg+"."+l.Name] = true
		c.fact(s)
	}
	c.cover(st, "precondition is satisfiable")
	c.hints(st, "entry")
	c.block(st, fn.Decl.Body.List)
	if !st.dead {
		c.doReturn(st, fn.Decl.Body)
	}
	return nil
}
