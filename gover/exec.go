package main

// Symbolic execution of function bodies: state, heap, statements.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

var (
	maxInt64  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	minInt64  = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	maxUint64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
)

type State struct {
	pc     []*Term
	dead   bool
	vars   map[types.Object]*Term
	heap   map[string]*Term
	ghosts map[string]SVal
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], dead: s.dead, vars: make(map[types.Object]*Term, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), ghosts: map[string]SVal{}}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	return n
}
func (s *State) PC() *Term { return and(s.pc...) }

type Obl struct {
	Name   string
	Func   string
	Kind   string // safe | requires | ensures | frame | inv.init | inv.keep | assert | lemma | cover
	Text   string
	Pos    string
	Facts  []*Term
	Goal   *Term
	Ctx    *FnCtx
	Cover  bool // must NOT be provable
	Lemmas []string
	// results
	Status  string // proved | failed | unknown
	Backend string
	Seconds float64
	Detail  string
	Skip    bool
}

type WItem struct {
	comp   string
	ref    *Term
	lo, hi *Term // absolute element range (nil: whole row / not applicable)
	binds  []Bind
	cond   *Term
	whole  bool
	text   string
	silent *Term // the value written is the one already there: no write
}

type WFrame struct {
	loop  bool
	next  *Term
	items []*WItem
	rec   *[]*WItem // recording (dry run)
	name  string
}

type frameCtx struct { // one (possibly inlined) function activation
	fn      *FuncSrc
	pkg     *Pkg
	lit     *ast.FuncLit
	results []types.Object
	rets    *[]*State // inlined: collected return states (with results in vars)
	top     bool
	path    string
	callPos token.Pos
	parent  *frameCtx
	loops   []*loopCtx
	scope   *types.Scope
	node    ast.Node // innermost scope node for name lookup
}

type loopCtx struct {
	label     string
	breaks    []*State
	continues []*State
	isSwitch  bool
}

type closure struct {
	lit *ast.FuncLit
	fr  *frameCtx
}

type FnCtx struct {
	wantAddr  bool // evaluating addr(x)
	w         *World
	fn        *FuncSrc
	spec      *FuncSpec
	prop      string
	facts     []*Term
	base      []*Term // facts about base symbols, always included
	obls      []*Obl
	decls     map[string]string // symbol -> sort
	serial    map[string]int
	nserial   int
	compSort  map[string]string
	compTy    map[string]types.Type // leaf Go type (for well-formedness)
	compKind  map[string]string
	entry     *State
	frames    []*WFrame
	fr        *frameCtx
	dry       int
	ordinals  map[string]int
	loopIdx   map[int]types.Object
	loopPre   map[int]*State
	visited   map[int]types.Object
	nloops    int
	curLoop   []int // stack of ordinals
	boxed     map[types.Object]bool
	closures  map[types.Object]*closure
	params    map[string]SVal // entry values by spec name
	names     map[string]int
	used      map[string]bool // lemmas/spec functions/axioms used
	callVars  map[string]SVal // arguments and results ($name) for hints at a call
	calls     map[string]bool // contracts used
	inlined   map[string]bool
	strs      map[string]string
	errs      []string
	mode      int             // fallback mode (0 normal)
	killed    map[string]bool // Houdini: dropped candidate invariants
	covers    bool
	nHouCand  int
	oblNames  map[string]int
	tags      map[string]int64
	paramObj  map[string]types.Object
	trivial   int
	nexts     []*Term           // allocation counters after calls and loops that may allocate
	alias     map[string]string // renamed locals
	lemmaSelf int               // index of the lemma being proved (-1: none)
}

func NewFnCtx(w *World, fn *FuncSrc, spec *FuncSpec, prop string) *FnCtx {
	var alias map[string]string
	if fn != nil {
		alias = w.aliases(fn.Key, fn)
	}
	return &FnCtx{alias: alias, lemmaSelf: -1, w: w, fn: fn, spec: spec, prop: prop, decls: map[string]string{}, serial: map[string]int{}, compSort: map[string]string{}, compTy: map[string]types.Type{},
		compKind: map[string]string{}, ordinals: map[string]int{}, loopIdx: map[int]types.Object{}, loopPre: map[int]*State{}, visited: map[int]types.Object{},
		boxed: map[types.Object]bool{}, closures: map[types.Object]*closure{}, params: map[string]SVal{}, names: map[string]int{}, used: map[string]bool{},
		calls: map[string]bool{}, inlined: map[string]bool{}, strs: map[string]string{}, killed: map[string]bool{}, oblNames: map[string]int{}, tags: map[string]int64{}}
}

// ---- symbols, facts, obligations ----

func (c *FnCtx) fresh(prefix, sort string) *Term {
	c.nserial++
	n := fmt.Sprintf("%s!%d", sanitize(prefix), c.nserial)
	c.decls[n] = sort
	c.serial[n] = c.nserial
	return sym(n, sort)
}

func (c *FnCtx) baseSym(name, sort string) *Term {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = sort
		c.serial[name] = 0
	}
	return sym(name, sort)
}

func (c *FnCtx) olderThan(t *Term, mark int) bool {
	for s := range t.Syms() {
		if n, ok := c.serial[s]; ok && n > mark {
			return false
		}
	}
	return true
}

func (c *FnCtx) fact(t *Term) {
	if t.Op == "true" {
		return
	}
	c.facts = append(c.facts, t)
}
func (c *FnCtx) assume(st *State, t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			c.assume(st, a)
		}
		return
	}
	c.fact(implies(st.PC(), t))
}

// define names a term, to keep terms small.
func (c *FnCtx) define(prefix string, t *Term) *Term {
	if len(t.Args) == 0 && t.Binds == nil {
		return t
	}
	s := c.fresh(prefix, t.Sort)
	c.fact(eq(s, t))
	return s
}
func (c *FnCtx) short(prefix string, t *Term) *Term {
	if len(t.String()) > 160 {
		return c.define(prefix, t)
	}
	return t
}

func (c *FnCtx) pushPC(st *State, t *Term) {
	if t.Op == "true" {
		return
	}
	if t.Op == "false" {
		st.dead = true
	}
	t = c.short("pc", t)
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
}

func (c *FnCtx) pos(n ast.Node) string {
	if n == nil {
		return ""
	}
	p := c.w.Fset.Position(n.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// oblige adds a proof obligation and then assumes it.
func (c *FnCtx) oblige(st *State, kind, text string, n ast.Node, goal *Term) {
	if goal.Op == "true" {
		return
	}
	if c.dry == 0 && !st.dead {
		c.addObl(st, kind, text, n, goal)
	}
	c.assume(st, goal)
}

func (c *FnCtx) addObl(st *State, kind, text string, n ast.Node, goal *Term) *Obl {
	key := c.fn.Key + "/" + kind + ": " + text
	c.oblNames[key]++
	name := key
	if c.oblNames[key] > 1 {
		name = fmt.Sprintf("%s (#%d)", key, c.oblNames[key])
	}
	o := &Obl{Name: name, Func: c.fn.Key, Kind: kind, Text: text, Pos: c.pos(n), Facts: c.facts[:len(c.facts):len(c.facts)], Goal: implies(st.PC(), goal), Ctx: c}
	c.obls = append(c.obls, o)
	return o
}

// cover adds a reachability check: "false" must not be provable here.
func (c *FnCtx) cover(st *State, where string) {
	if c.dry > 0 || st.dead {
		return
	}
	o := c.addObl(st, "cover", where, nil, tFalse)
	o.Cover = true
}

// ---- heap ----

func (c *FnCtx) comp(name, sort string, t types.Type, kind string) string {
	if _, ok := c.compSort[name]; !ok {
		c.compSort[name] = sort
		if t != nil {
			c.compTy[name] = t
		}
		c.compKind[name] = kind
	}
	return name
}

func (c *FnCtx) heap(st *State, comp string) *Term {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	s, ok := c.compSort[comp]
	if !ok {
		if comp == "next" {
			s = "Int"
			c.compSort["next"] = "Int"
		} else {
			panic("unknown comp " + comp)
		}
	}
	name := comp + "@0"
	_, known := c.decls[name]
	b := c.baseSym(name, s)
	if !known {
		if comp == "next" {
			c.base = append(c.base, lt(intT(0), b))
		} else {
			c.base = append(c.base, c.wfComp(comp, b, c.heap0("next"))...)
			if t := c.compTy[comp]; t == nil || !flat(t) {
				for _, n := range c.nexts {
					c.base = append(c.base, c.wfComp(comp, b, n)...)
				}
			}
		}
	}
	return b
}

// reWF: after an allocating call or loop, the components it did not replace are well-formed for the
// objects allocated meanwhile as well.
func (c *FnCtx) reWF(st *State, next *Term, changed func(string) bool) {
	if c.dry > 0 {
		return
	}
	c.nexts = append(c.nexts, next)
	for _, comp := range sortedKeys(c.compSort) {
		if comp == "next" || changed(comp) {
			continue
		}
		if _, known := c.decls[comp+"@0"]; !known && st.heap[comp] == nil {
			continue // not mentioned yet: heap adds it with the base facts
		}
		if t := c.compTy[comp]; t != nil && flat(t) {
			continue // nothing new
		}
		for _, f := range c.wfComp(comp, c.heap(st, comp), next) {
			c.fact(f)
		}
	}
}
func (c *FnCtx) heap0(comp string) *Term { return c.heap(&State{heap: map[string]*Term{}}, comp) }

// wf: well-formedness of a value of Go type t (references below next; integer ranges; slice shape).
func (c *FnCtx) wf(t types.Type, v, next *Term, ints bool) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if ints && u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u)
			return and(le(bigT(lo), v), le(v, bigT(hi)))
		}
	case *types.Pointer, *types.Map:
		return and(le(intT(0), v), lt(v, next))
	case *types.Slice:
		a, o, l, cp := sArr(v), sOff(v), sLen(v), sCap(v)
		return and(le(intT(0), a), lt(a, next), le(intT(0), o), le(intT(0), l), le(l, cp), le(add(o, cp), bigT(maxInt64)),
			implies(eq(a, intT(0)), and(eq(cp, intT(0)), eq(o, intT(0)))))
	case *types.Struct:
		if c.isOpaque(t) {
			return tTrue
		}
		var ts []*Term
		for i := 0; i < u.NumFields(); i++ {
			ts = append(ts, c.wf(u.Field(i).Type(), c.w.structField(v, t, i), next, ints))
		}
		return and(ts...)
	case *types.Array:
		x := c.wf(u.Elem(), intT(0), next, ints)
		if x.Op == "true" {
			return tTrue
		}
		boundCtr++
		i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
		return forall([]Bind{{i.Op, "Int"}}, c.wf(u.Elem(), sel(v, i), next, ints), []*Term{sel(v, i)})
	}
	return tTrue
}

func (c *FnCtx) isOpaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return !c.w.inModule(n.Obj().Pkg())
}

// flat: well-formedness does not depend on what is allocated. Such components are assumed well-formed
// everywhere, also where nothing is allocated yet (and the content is arbitrary).
func flat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !flat(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return flat(u.Elem())
	}
	return false
}

// wfComp gives quantified well-formedness of a heap component.
func (c *FnCtx) wfComp(comp string, h, next *Term) []*Term {
	t := c.compTy[comp]
	if t == nil {
		return nil
	}
	ints := true
	below := func(r *Term) *Term {
		if flat(t) {
			return tTrue
		}
		return lt(r, next)
	}
	switch c.compKind[comp] {
	case "global":
		w := c.wf(t, h, next, ints)
		if w.Op == "true" {
			return nil
		}
		return []*Term{w}
	case "field", "cell":
		boundCtr++
		r := sym(fmt.Sprintf("r?%d", boundCtr), "Int")
		w := c.wf(t, sel(h, r), next, ints)
		if w.Op == "true" {
			return nil
		}
		return []*Term{forall([]Bind{{r.Op, "Int"}}, implies(below(r), w), []*Term{sel(h, r)})}
	case "elem":
		boundCtr++
		r := sym(fmt.Sprintf("r?%d", boundCtr), "Int")
		i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
		w := c.wf(t, sel(sel(h, r), i), next, ints)
		if w.Op == "true" {
			return nil
		}
		return []*Term{forall([]Bind{{r.Op, "Int"}, {i.Op, "Int"}}, implies(below(r), w), []*Term{sel(sel(h, r), i)})}
	case "maplen":
		boundCtr++
		r := sym(fmt.Sprintf("r?%d", boundCtr), "Int")
		return []*Term{forall([]Bind{{r.Op, "Int"}}, implies(lt(r, next), le(intT(0), sel(h, r))), []*Term{sel(h, r)})}
	}
	return nil
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Int8:
		return new(big.Int).Neg(sh(7)), new(big.Int).Sub(sh(7), one)
	case types.Int16:
		return new(big.Int).Neg(sh(15)), new(big.Int).Sub(sh(15), one)
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(sh(31)), new(big.Int).Sub(sh(31), one)
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(sh(8), one)
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(sh(16), one)
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(sh(32), one)
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), maxUint64
	}
	return minInt64, maxInt64
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isIntegerT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (c *FnCtx) fieldCompV(st types.Type, f *types.Var) string {
	name := "H!" + sanitize(typeKey(st)) + "!" + f.Name()
	return c.comp(name, arrSort(c.w.sortOf(f.Type())), f.Type(), "field")
}

// fieldComp resolves a (possibly ghost) field of a struct type.
func (c *FnCtx) fieldComp(t types.Type, name string) (string, *STy, bool) {
	if s, ok := t.Underlying().(*types.Struct); ok && !c.isOpaque(t) {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return c.fieldCompV(t, s.Field(i)), &STy{G: s.Field(i).Type()}, true
			}
		}
	}
	if g, ok := c.w.Specs.Ghosts[typeKey(t)+"."+name]; ok {
		ty := c.w.resolveTy(g.Ty, g.Pkg)
		var gt types.Type
		if ty.Row == nil {
			gt = ty.G
		}
		kind := "field"
		if gt != nil && isIntegerT(gt) {
			gt = nil // ghost integers are mathematical
		}
		return c.comp("H!"+sanitize(typeKey(t))+"!"+name, arrSort(c.w.sort(ty)), gt, kind), ty, true
	}
	return "", nil, false
}

func (c *FnCtx) elemComp(t types.Type) string {
	return c.comp("E!"+sanitize(typeKey(t)), arrSort(arrSort(c.w.sortOf(t))), t, "elem")
}
func (c *FnCtx) cellComp(t types.Type) string {
	return c.comp("C!"+sanitize(typeKey(t)), arrSort(c.w.sortOf(t)), t, "cell")
}
func (c *FnCtx) globalComp(v *types.Var) string {
	return c.comp("G!"+v.Pkg().Name()+"."+v.Name(), c.w.sortOf(v.Type()), v.Type(), "global")
}
func (c *FnCtx) mapComps(m *types.Map) (d, v, l string) {
	k := sanitize(typeKey(m))
	ks := c.w.sortOf(m.Key())
	if ks != "Int" {
		panic(unsupported("map with key type %s", m.Key()))
	}
	return c.comp("MD!"+k, arrSort(arrSort("Bool")), nil, "mapdom"), c.comp("MV!"+k, arrSort(arrSort(c.w.sortOf(m.Elem()))), m.Elem(), "elem"), c.comp("ML!"+k, arrSort("Int"), nil, "maplen")
}

func (c *FnCtx) readElem(st *State, t types.Type, arr, idx *Term) *Term {
	return sel(sel(c.heap(st, c.elemComp(t)), arr), idx)
}
func (c *FnCtx) readRow(st *State, t types.Type, arr *Term) *Term {
	return sel(c.heap(st, c.elemComp(t)), arr)
}
func (c *FnCtx) readMapVal(st *State, m *types.Map, r *Term) *Term {
	_, v, _ := c.mapComps(m)
	return sel(c.heap(st, v), r)
}
func (c *FnCtx) readMapDom(st *State, m *types.Map, r *Term) *Term {
	d, _, _ := c.mapComps(m)
	return sel(c.heap(st, d), r)
}
func (c *FnCtx) readMapLen(st *State, m *types.Map, r *Term) *Term {
	_, _, l := c.mapComps(m)
	return sel(c.heap(st, l), r)
}
func (c *FnCtx) readCell(st *State, t types.Type, r *Term) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok && !c.isOpaque(t) {
		srt := c.w.sortOf(t)
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			args = append(args, sel(c.heap(st, c.fieldCompV(t, s.Field(i))), r))
		}
		return mk(srt, "mk_"+srt, args...)
	}
	return sel(c.heap(st, c.cellComp(t)), r)
}
func (c *FnCtx) readGlobal(st *State, v *types.Var) *Term {
	if !c.w.Mutable[v] && !(c.fn != nil && c.fn.Init && c.fn.Pkg == c.w.VarPkg[v]) {
		if t, ok := c.immutableGlobal(v); ok {
			return t
		}
		name := c.globalComp(v) + "@0"
		_, known := c.decls[name]
		t := c.heap0(c.globalComp(v))
		if !known {
			c.globalInit(v, t)
		}
		return t
	}
	return c.heap(st, c.globalComp(v))
}

// immutableGlobal evaluates package variables that are never assigned and whose initialiser is constant-like.
func (c *FnCtx) immutableGlobal(v *types.Var) (*Term, bool) {
	e, ok := c.w.InitExpr[v]
	if !ok || c.w.VarPkg[v] == nil {
		return nil, false
	}
	p := c.w.VarPkg[v]
	if cv, ok := c.w.constEval(p, e); ok {
		return c.constTerm(cv, v.Type()), true
	}
	return nil, false
}

func (c *FnCtx) globalInit(v *types.Var, t *Term) {
	e, ok := c.w.InitExpr[v]
	if !ok {
		return
	}
	p := c.w.VarPkg[v]
	// errors.New values: distinct and non-nil
	if call, ok := e.(*ast.CallExpr); ok {
		if s, ok := call.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "New" {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "errors" {
				c.base = append(c.base, eq(t, intT(c.typeTag2("global:"+p.Name+"."+v.Name()))))
				return
			}
		}
		if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "make" && len(call.Args) == 2 {
			if cv, ok := c.w.constEval(p, call.Args[1]); ok {
				n := c.constTerm(cv, types.Typ[types.Int])
				c.base = append(c.base, eq(sLen(t), n), lt(intT(0), sArr(t)))
				return
			}
		}
	}
	if u, ok := v.Type().Underlying().(*types.Array); ok {
		if cl, ok := e.(*ast.CompositeLit); ok {
			for i, x := range cl.Elts {
				if cv, ok := c.w.constEval(p, x); ok {
					c.base = append(c.base, eq(sel(t, intT(int64(i))), c.constTerm(cv, u.Elem())))
				}
			}
		}
	}
}

func (c *FnCtx) typeTag2(s string) int64 {
	// stable positive tags
	var h int64 = 7
	for _, r := range s {
		h = (h*131 + int64(r)) % 1000000007
	}
	return 1000 + h
}
func (c *FnCtx) typeTag(t types.Type) int64 { return c.typeTag2("type:" + typeKey(t)) }
func (c *FnCtx) boxFn(t types.Type, v *Term) *Term {
	b := mk("Int", "box_"+sanitize(typeKey(t)), v)
	srt := c.w.sortOf(t)
	c.used["box:"+sanitize(typeKey(t))+":"+srt+":"+fmt.Sprint(c.typeTag(t))] = true
	return b
}
func (c *FnCtx) unboxFn(t types.Type, v *Term) *Term {
	srt := c.w.sortOf(t)
	c.used["box:"+sanitize(typeKey(t))+":"+srt+":"+fmt.Sprint(c.typeTag(t))] = true
	return mk(srt, "unbox_"+sanitize(typeKey(t)), v)
}
func (c *FnCtx) strConst(s string) *Term {
	n := "str_" + fmt.Sprint(c.typeTag2("s:"+s)) + "_" + fmt.Sprint(len(s))
	if _, ok := c.decls[n]; !ok {
		c.baseSym(n, "Str")
		c.strs[n] = s
		c.w.strMu.Lock()
		c.w.strs[n] = s
		c.w.strMu.Unlock()
		t := sym(n, "Str")
		c.base = append(c.base, eq(mk("Int", "slen", t), intT(int64(len(s)))))
	}
	return sym(n, "Str")
}
func (c *FnCtx) i2f(t *Term) *Term {
	if n, ok := intLit(t); ok {
		f, _ := new(big.Float).SetInt(n).Float64()
		return floatLit(f)
	}
	return mk("F64", "i2f", t)
}

func (c *FnCtx) constTerm(v constant.Value, t types.Type) *Term {
	switch {
	case isIntegerT(t):
		iv := constant.ToInt(v)
		b, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic(unsupported("constant %s", v))
		}
		return bigT(b)
	case isFloatT(t):
		f, _ := constant.Float64Val(constant.ToFloat(v))
		return floatLit(f)
	}
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return c.strConst(constant.StringVal(v))
	case constant.Int:
		if types.IsInterface(t) {
			panic(unsupported("constant boxed in interface"))
		}
	}
	panic(unsupported("constant %s of type %s", v, t))
}

// zero value of a type
func (c *FnCtx) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return intT(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsFloat != 0:
			return floatLit(0)
		case u.Info()&types.IsString != 0:
			return c.strConst("")
		}
		return intT(0)
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return intT(0)
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		s := c.w.sortOf(t)
		if c.isOpaque(t) {
			return c.baseSym("zero_"+s, s)
		}
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, c.zero(u.Field(i).Type()))
		}
		return mk(s, "mk_"+s, args...)
	case *types.Array:
		return c.zeroRow(u.Elem())
	}
	panic(unsupported("zero value of %s", t))
}

// zeroRow: an array whose every entry is the zero value.
func (c *FnCtx) zeroRow(t types.Type) *Term {
	s := c.w.sortOf(t)
	name := "zrow_" + sanitize(s)
	if _, ok := c.decls[name]; !ok {
		r := c.baseSym(name, arrSort(s))
		boundCtr++
		i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
		c.base = append(c.base, forall([]Bind{{i.Op, "Int"}}, eq(sel(r, i), c.zero(t)), []*Term{sel(r, i)}))
	}
	return sym(name, arrSort(s))
}

// alloc returns a new reference.
func (c *FnCtx) alloc(st *State) *Term {
	r := c.heap(st, "next")
	r2 := c.define("next", add(r, intT(1)))
	st.heap["next"] = r2
	return r
}

// ---- writes and frames ----

func (c *FnCtx) inItems(t *WItem, f *WFrame) *Term {
	var alts []*Term
	alts = append(alts, le(f.next, t.ref))
	if t.lo != nil {
		alts = append(alts, le(t.hi, t.lo))
	}
	for _, it := range f.items {
		if it.comp != t.comp {
			continue
		}
		if it.whole {
			return tTrue
		}
		x := eq(t.ref, it.ref)
		if it.lo != nil {
			if t.lo == nil {
				continue
			}
			x = and(x, le(it.lo, t.lo), le(t.hi, it.hi))
		}
		if it.cond != nil {
			x = and(it.cond, x)
		}
		if len(it.binds) > 0 {
			x = &Term{Op: "exists", Binds: it.binds, Args: []*Term{x}, Sort: "Bool"}
		}
		if x.Op == "true" {
			return tTrue
		}
		alts = append(alts, x)
	}
	if t.silent != nil {
		alts = append(alts, t.silent)
	}
	g := or(alts...)
	if len(t.binds) > 0 {
		cd := tTrue
		if t.cond != nil {
			cd = t.cond
		}
		return forall(t.binds, implies(cd, g))
	}
	if t.cond != nil {
		return implies(t.cond, g)
	}
	return g
}

func (c *FnCtx) checkWrite(st *State, t *WItem, n ast.Node) {
	for i := len(c.frames) - 1; i >= 0; i-- {
		f := c.frames[i]
		if f.rec != nil {
			*f.rec = append(*f.rec, t)
			continue
		}
		if t.whole {
			ok := false
			for _, it := range f.items {
				if it.comp == t.comp && it.whole {
					ok = true
				}
			}
			if !ok {
				c.oblige(st, "frame", f.name+" may not modify all of "+t.comp, n, tFalse)
			}
			continue
		}
		c.oblige(st, "frame", f.name+" write to "+t.text, n, c.inItems(t, f))
	}
}

// havoc replaces the contents of comp at the given items.
// havoc forgets the items of comp; full: the new component is known to be well-formed below next.
func (c *FnCtx) havoc(st *State, comp string, items []*WItem, next *Term) (full bool) {
	h := c.heap(st, comp)
	srt := c.compSort[comp]
	kind := c.compKind[comp]
	simple := true
	for _, it := range items {
		if it.whole {
			nh := c.fresh(comp, srt)
			st.heap[comp] = nh
			for _, f := range c.wfComp(comp, nh, next) {
				c.fact(f)
			}
			return true
		}
		if len(it.binds) > 0 {
			simple = false
		}
	}
	if kind == "global" {
		nh := c.fresh(comp, srt)
		st.heap[comp] = nh
		for _, f := range c.wfComp(comp, nh, next) {
			c.fact(f)
		}
		return true
	}
	isElem := kind == "elem" || kind == "mapdom"
	if simple {
		done := map[string]bool{}
		for _, it := range items {
			k := it.ref.String()
			if it.lo != nil {
				k += "|" + it.lo.String() + "|" + it.hi.String()
			}
			if done[k] || done[it.ref.String()] {
				continue
			}
			if it.cond == nil {
				done[k] = true
			}
			v := c.fresh(comp+"'", elemSort(srt))
			if isElem {
				if it.lo != nil {
					boundCtr++
					i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
					old := sel(h, it.ref)
					c.fact(forall([]Bind{{i.Op, "Int"}}, implies(or(lt(i, it.lo), le(it.hi, i)), eq(sel(v, i), sel(old, i))), []*Term{sel(v, i)}))
				}
				if t := c.compTy[comp]; t != nil {
					boundCtr++
					i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
					w := c.wf(t, sel(v, i), next, true)
					if w.Op != "true" {
						c.fact(forall([]Bind{{i.Op, "Int"}}, w, []*Term{sel(v, i)}))
					}
				}
			} else if t := c.compTy[comp]; t != nil {
				c.fact(c.wf(t, v, next, true))
			} else if kind == "maplen" {
				c.fact(le(intT(0), v))
			}
			if it.cond != nil {
				v = ite(it.cond, v, sel(h, it.ref))
			}
			h = store(h, it.ref, v)
		}
		st.heap[comp] = c.define(comp, h)
		return false
	}
	nh := c.fresh(comp, srt)
	c.frameFacts(comp, h, nh, items, nil)
	for _, f := range c.wfComp(comp, nh, next) {
		c.fact(f)
	}
	st.heap[comp] = nh
	return true
}

// frameFacts: nh agrees with h outside of items (and, if limit != nil, only for references below limit).
func (c *FnCtx) frameFacts(comp string, h, nh *Term, items []*WItem, limit *Term) {
	boundCtr++
	r := sym(fmt.Sprintf("r?%d", boundCtr), "Int")
	i := sym(fmt.Sprintf("i?%d", boundCtr), "Int")
	var out, outR []*Term
	ranged := false
	for _, it := range items {
		hit := eq(r, it.ref)
		if it.cond != nil {
			hit = and(it.cond, hit)
		}
		hitR := hit
		if it.lo != nil {
			ranged = true
			hitR = and(hit, le(it.lo, i), lt(i, it.hi))
		}
		if len(it.binds) > 0 {
			hit = &Term{Op: "exists", Binds: it.binds, Args: []*Term{hit}, Sort: "Bool"}
			hitR = &Term{Op: "exists", Binds: it.binds, Args: []*Term{hitR}, Sort: "Bool"}
		}
		out = append(out, not(hit))
		outR = append(outR, not(hitR))
	}
	if limit != nil {
		out = append(out, lt(r, limit))
		outR = append(outR, lt(r, limit))
	}
	c.fact(forall([]Bind{{r.Op, "Int"}}, implies(and(out...), eq(sel(nh, r), sel(h, r))), []*Term{sel(nh, r)}))
	if ranged {
		c.fact(forall([]Bind{{r.Op, "Int"}, {i.Op, "Int"}}, implies(and(outR...), eq(sel(sel(nh, r), i), sel(sel(h, r), i))), []*Term{sel(sel(nh, r), i)}))
	}
}

// ---- merging ----

func (c *FnCtx) merge(a, b *State) *State {
	if a == nil || a.dead {
		return b
	}
	if b == nil || b.dead {
		return a
	}
	k := 0
	for k < len(a.pc) && k < len(b.pc) && same(a.pc[k], b.pc[k]) {
		k++
	}
	A, B := and(a.pc[k:]...), and(b.pc[k:]...)
	n := &State{pc: a.pc[:k:k], vars: map[types.Object]*Term{}, heap: map[string]*Term{}, ghosts: map[string]SVal{}}
	if !(len(a.pc) == k+1 && len(b.pc) == k+1 && same(not(a.pc[k]), b.pc[k])) {
		j := c.short("pc", or(A, B))
		if j.Op != "true" {
			n.pc = append(n.pc, j)
		}
	}
	A = c.short("br", A)
	join := func(name string, x, y *Term) *Term {
		if same(x, y) {
			return x
		}
		if strings.HasPrefix(x.Sort, "(Array") || x.Sort == "Slice" {
			s := c.fresh(name, x.Sort)
			c.fact(implies(a.PC(), eq(s, x)))
			c.fact(implies(b.PC(), eq(s, y)))
			return s
		}
		return c.short(name, ite(A, x, y))
	}
	objs := make([]types.Object, 0, len(a.vars))
	for o := range a.vars {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool {
		if objs[i].Pos() != objs[j].Pos() {
			return objs[i].Pos() < objs[j].Pos()
		}
		return objs[i].Name() < objs[j].Name()
	})
	for _, o := range objs {
		if y, ok := b.vars[o]; ok {
			n.vars[o] = join(o.Name(), a.vars[o], y)
		}
	}
	comps := map[string]bool{}
	for h := range a.heap {
		comps[h] = true
	}
	for h := range b.heap {
		comps[h] = true
	}
	for _, h := range sortedKeys(comps) {
		n.heap[h] = join(h, c.heap(a, h), c.heap(b, h))
	}
	for g, x := range a.ghosts {
		if y, ok := b.ghosts[g]; ok {
			n.ghosts[g] = SVal{join(g, x.T, y.T), x.Ty}
		}
	}
	return n
}

func (c *FnCtx) mergeAll(ss []*State) *State {
	var r *State
	for _, s := range ss {
		if s == nil || s.dead {
			continue
		}
		if r == nil {
			r = s
		} else {
			r = c.merge(r, s)
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *FnCtx) become(st *State, n *State) {
	if n == nil {
		st.dead = true
		return
	}
	*st = *n
}

// ---- statements ----

func (c *FnCtx) info() *types.Info { return c.fr.pkg.Info }

func (c *FnCtx) block(st *State, list []ast.Stmt) {
	for _, s := range list {
		if st.dead {
			return
		}
		c.stmt(st, s, "")
	}
}

func (c *FnCtx) declare(st *State, o types.Object, v *Term) {
	if o == nil {
		return
	}
	if c.boxed[o] {
		r := c.alloc(st)
		c.initRef(st, o.Type(), r, v)
		st.vars[o] = r
		return
	}
	if v.Sort != "F64" {
		v = c.short(o.Name(), v)
	}
	st.vars[o] = v
}

// initRef assumes the initial contents of a freshly allocated cell or struct.
func (c *FnCtx) initRef(st *State, t types.Type, r, v *Term) {
	if s, ok := t.Underlying().(*types.Struct); ok && !c.isOpaque(t) {
		for i := 0; i < s.NumFields(); i++ {
			c.assume(st, eq(sel(c.heap(st, c.fieldCompV(t, s.Field(i))), r), c.w.structField(v, t, i)))
		}
		return
	}
	c.assume(st, eq(sel(c.heap(st, c.cellComp(t)), r), v))
}

func (c *FnCtx) readVar(st *State, o types.Object) *Term {
	v, ok := st.vars[o]
	if !ok {
		panic(unsupported("variable %s not in scope", o.Name()))
	}
	if c.boxed[o] {
		return c.readCell(st, o.Type(), v)
	}
	return v
}

func (c *FnCtx) stmt(st *State, s ast.Stmt, label string) {
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.ExprStmt:
		if call, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			c.callMulti(st, call)
			return
		}
		c.expr(st, s.X)
	case *ast.LabeledStmt:
		c.stmt(st, s.Stmt, s.Label.Name)
	case *ast.BlockStmt:
		c.block(st, s.List)
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok != token.VAR {
			return
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := c.info().Defs[n]
					if o != nil {
						c.declare(st, o, c.zero(o.Type()))
					}
				}
				continue
			}
			if len(vs.Values) == len(vs.Names) {
				var vals []*Term
				for i, n := range vs.Names {
					o := c.info().Defs[n]
					if o != nil {
						if fl, ok := ast.Unparen(vs.Values[i]).(*ast.FuncLit); ok {
							c.closures[o] = &closure{fl, c.fr}
							vals = append(vals, intT(0))
							continue
						}
						vals = append(vals, c.exprAs(st, vs.Values[i], o.Type()))
					} else {
						vals = append(vals, c.expr(st, vs.Values[i]))
					}
				}
				for i, n := range vs.Names {
					if o := c.info().Defs[n]; o != nil {
						if _, isF := c.closures[o]; isF {
							continue
						}
						c.declare(st, o, vals[i])
					}
				}
			} else {
				vals := c.exprMulti(st, vs.Values[0], len(vs.Names))
				for i, n := range vs.Names {
					if o := c.info().Defs[n]; o != nil {
						c.declare(st, o, vals[i])
					}
				}
			}
		}
	case *ast.AssignStmt:
		c.assign(st, s)
	case *ast.IncDecStmt:
		lv := c.lval(st, s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		t := c.info().TypeOf(s.X)
		one := intT(1)
		if isFloatT(t) {
			one = floatLit(1)
		}
		lv.set(st, c.arith(st, op, lv.get(st), one, t, s))
	case *ast.IfStmt:
		if s.Init != nil {
			c.stmt(st, s.Init, "")
		}
		cond := c.expr(st, s.Cond)
		cond = c.short("if", cond)
		a := st.clone()
		b := st.clone()
		c.pushPC(a, cond)
		c.pushPC(b, not(cond))
		if !a.dead {
			c.block(a, s.Body.List)
		}
		if s.Else != nil && !b.dead {
			c.stmt(b, s.Else, "")
		}
		c.become(st, c.mergeD(a, b))
	case *ast.SwitchStmt:
		c.switchStmt(st, s, label)
	case *ast.ForStmt:
		c.forStmt(st, s, label)
	case *ast.RangeStmt:
		c.rangeStmt(st, s, label)
	case *ast.ReturnStmt:
		c.returnStmt(st, s)
	case *ast.BranchStmt:
		c.branch(st, s)
	case *ast.DeferStmt:
		// the deferred call runs at function exit; only calls without effect on modelled state are supported
		c.deferCall(st, s.Call)
	default:
		panic(unsupported("statement %T at %s", s, c.pos(s)))
	}
}

func (c *FnCtx) mergeD(a, b *State) *State {
	if a.dead && b.dead {
		return nil
	}
	return c.merge(a, b)
}

func (c *FnCtx) branch(st *State, s *ast.BranchStmt) {
	loops := c.fr.loops
	for i := len(loops) - 1; i >= 0; i-- {
		l := loops[i]
		if s.Label != nil && l.label != s.Label.Name {
			continue
		}
		switch s.Tok {
		case token.BREAK:
			l.breaks = append(l.breaks, st.clone())
			st.dead = true
			return
		case token.CONTINUE:
			if l.isSwitch {
				continue
			}
			l.continues = append(l.continues, st.clone())
			st.dead = true
			return
		}
	}
	panic(unsupported("%s statement at %s", s.Tok, c.pos(s)))
}

func (c *FnCtx) switchStmt(st *State, s *ast.SwitchStmt, label string) {
	if s.Init != nil {
		c.stmt(st, s.Init, "")
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag = c.short("sw", c.expr(st, s.Tag))
		tagT = c.info().TypeOf(s.Tag)
	}
	lc := &loopCtx{label: label, isSwitch: true}
	c.fr.loops = append(c.fr.loops, lc)
	cur := st.clone()
	var outs []*State
	var def *ast.CaseClause
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CaseClause)
		for _, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				panic(unsupported("fallthrough at %s", c.pos(br)))
			}
		}
		if cc.List == nil {
			def = cc
			continue
		}
		if cur.dead {
			break
		}
		var conds []*Term
		for _, e := range cc.List {
			if tag != nil {
				v := c.exprAs(cur, e, tagT)
				conds = append(conds, eq(tag, v))
			} else {
				conds = append(conds, c.expr(cur, e))
			}
		}
		cond := c.short("case", or(conds...))
		x := cur.clone()
		c.pushPC(x, cond)
		if !x.dead {
			c.block(x, cc.Body)
			outs = append(outs, x)
		}
		c.pushPC(cur, not(cond))
	}
	if !cur.dead {
		if def != nil {
			c.block(cur, def.Body)
		}
		outs = append(outs, cur)
	}
	c.fr.loops = c.fr.loops[:len(c.fr.loops)-1]
	outs = append(outs, lc.breaks...)
	// merge from the last case backwards, so path conditions nest
	var r *State
	for i := len(outs) - 1; i >= 0; i-- {
		if outs[i].dead {
			continue
		}
		if r == nil {
			r = outs[i]
		} else {
			r = c.merge(outs[i], r)
		}
	}
	c.become(st, r)
}

func (c *FnCtx) returnStmt(st *State, s *ast.ReturnStmt) {
	fr := c.fr
	if len(s.Results) > 0 {
		var vals []*Term
		if len(s.Results) == len(fr.results) {
			for i, e := range s.Results {
				vals = append(vals, c.exprAs(st, e, fr.results[i].Type()))
			}
		} else {
			vals = c.exprMulti(st, s.Results[0], len(fr.results))
		}
		for i, o := range fr.results {
			c.setVar(st, o, vals[i])
		}
	}
	c.doReturn(st, s)
}

func (c *FnCtx) setVar(st *State, o types.Object, v *Term) {
	if c.boxed[o] {
		c.writeRef(st, o.Type(), st.vars[o], v, nil, o.Name())
		return
	}
	if v.Sort != "F64" {
		v = c.short(o.Name(), v)
	}
	st.vars[o] = v
}

func (c *FnCtx) doReturn(st *State, n ast.Node) {
	fr := c.fr
	if fr.rets != nil {
		*fr.rets = append(*fr.rets, st.clone())
		st.dead = true
		return
	}
	c.checkExit(st, n)
	st.dead = true
}

// writeRef writes a whole value through a pointer.
func (c *FnCtx) writeRef(st *State, t types.Type, r, v *Term, n ast.Node, text string) {
	if s, ok := t.Underlying().(*types.Struct); ok && !c.isOpaque(t) {
		for i := 0; i < s.NumFields(); i++ {
			comp := c.fieldCompV(t, s.Field(i))
			c.checkWrite(st, &WItem{comp: comp, ref: r, text: text + "." + s.Field(i).Name()}, n)
			st.heap[comp] = c.define(comp, store(c.heap(st, comp), r, c.w.structField(v, t, i)))
		}
		return
	}
	comp := c.cellComp(t)
	c.checkWrite(st, &WItem{comp: comp, ref: r, text: text}, n)
	st.heap[comp] = c.define(comp, store(c.heap(st, comp), r, v))
}

func (c *FnCtx) assign(st *State, s *ast.AssignStmt) {
	info := c.info()
	if s.Tok == token.DEFINE || s.Tok == token.ASSIGN {
		// closures
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
			if fl, ok := ast.Unparen(s.Rhs[0]).(*ast.FuncLit); ok {
				if id, ok := s.Lhs[0].(*ast.Ident); ok {
					o := info.Defs[id]
					if o == nil {
						o = info.Uses[id]
					}
					c.closures[o] = &closure{fl, c.fr}
					return
				}
				panic(unsupported("function literal stored at %s", c.pos(s)))
			}
		}
		type target struct {
			lv  *lvalue
			def types.Object
		}
		var ts []target
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok {
				if id.Name == "_" {
					ts = append(ts, target{})
					continue
				}
				if o := info.Defs[id]; o != nil && s.Tok == token.DEFINE {
					ts = append(ts, target{def: o})
					continue
				}
			}
			ts = append(ts, target{lv: c.lval(st, l)})
		}
		var vals []*Term
		if len(s.Rhs) == len(s.Lhs) {
			for i, e := range s.Rhs {
				var t types.Type
				switch {
				case ts[i].def != nil:
					t = ts[i].def.Type()
				case ts[i].lv != nil:
					t = ts[i].lv.t
				default:
					t = info.TypeOf(e)
				}
				v := c.exprAs(st, e, t)
				if len(s.Rhs) > 1 {
					v = c.short("t", v)
				}
				vals = append(vals, v)
			}
		} else {
			vals = c.exprMulti(st, s.Rhs[0], len(s.Lhs))
		}
		for i, t := range ts {
			switch {
			case t.def != nil:
				c.declare(st, t.def, vals[i])
			case t.lv != nil:
				t.lv.set(st, vals[i])
			}
		}
		return
	}
	ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
		token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
	op := ops[s.Tok]
	lv := c.lval(st, s.Lhs[0])
	t := info.TypeOf(s.Lhs[0])
	if op == token.SHL || op == token.SHR {
		r := c.expr(st, s.Rhs[0])
		lv.set(st, c.shift(st, op, lv.get(st), r, t, info.TypeOf(s.Rhs[0]), s))
		return
	}
	if op == token.AND {
		if m, ok := c.maskExpr(st, s.Rhs[0]); ok {
			lv.set(st, mk("Int", "mod", lv.get(st), m))
			return
		}
	}
	r := c.exprAs(st, s.Rhs[0], t)
	lv.set(st, c.arith(st, op, lv.get(st), r, t, s))
}
