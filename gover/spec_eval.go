package main

// Evaluation of contract expressions to terms, in a symbolic state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

type STy struct {
	G   types.Type // Go type
	Row *STy       // mathematical total array Int -> Row
}

var tyInt = &STy{G: types.Typ[types.Int]}
var tyUint = &STy{G: types.Typ[types.Uint]}
var tyBool = &STy{G: types.Typ[types.Bool]}
var tyF64 = &STy{G: types.Typ[types.Float64]}
var tyStr = &STy{G: types.Typ[types.String]}
var tyNil = &STy{G: types.Typ[types.UntypedNil]}

func (w *World) sort(t *STy) string {
	if t.Row != nil {
		return arrSort(w.sort(t.Row))
	}
	return w.sortOf(t.G)
}
func (t *STy) String() string {
	if t.Row != nil {
		return "row[" + t.Row.String() + "]"
	}
	return typeKey(t.G)
}

type SVal struct {
	T  *Term
	Ty *STy
}

type Env struct {
	c    *FnCtx
	pkg  string
	st   *State
	old  *State
	pre  *State
	vars map[string]SVal
	// locals resolves program variables (invariants and hints); nil in contracts seen from outside
	locals    func(name string, st *State) (SVal, bool)
	oldvars   map[string]SVal
	bound     []Bind
	oldLocals bool
}

func (e *Env) with(name string, v SVal) *Env {
	n := *e
	n.vars = map[string]SVal{}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

type specEvalErr struct{ msg string }

func sfail(x *SX, f string, a ...interface{}) {
	pos := ""
	if x != nil {
		pos = x.Pos
	}
	panic(specEvalErr{pos + ": " + fmt.Sprintf(f, a...)})
}

func (w *World) resolveTy(x *TyX, pkg string) *STy {
	switch x.K {
	case "ptr":
		return &STy{G: types.NewPointer(w.resolveTy(x.Elem, pkg).G)}
	case "slice":
		return &STy{G: types.NewSlice(w.resolveTy(x.Elem, pkg).G)}
	case "arr":
		return &STy{G: types.NewArray(w.resolveTy(x.Elem, pkg).G, x.N)}
	case "map":
		return &STy{G: types.NewMap(w.resolveTy(x.Key, pkg).G, w.resolveTy(x.Elem, pkg).G)}
	case "row":
		return &STy{Row: w.resolveTy(x.Elem, pkg)}
	}
	if x.Pkg == "" {
		switch x.Name {
		case "int", "ref":
			return tyInt
		case "uint":
			return tyUint
		case "bool":
			return tyBool
		case "float64":
			return tyF64
		case "string":
			return tyStr
		case "error":
			return &STy{G: types.Universe.Lookup("error").Type()}
		}
	}
	pn := x.Pkg
	if pn == "" {
		pn = pkg
	}
	var tp *types.Package
	if p := w.ByName[pn]; p != nil {
		tp = p.Types
	} else {
		for _, p := range w.Pkgs {
			for _, i := range p.Types.Imports() {
				if i.Name() == pn && (tp == nil || i.Path() < tp.Path()) {
					tp = i
				}
			}
		}
	}
	if tp == nil {
		panic(specEvalErr{"unknown package " + pn})
	}
	o := tp.Scope().Lookup(x.Name)
	if tn, ok := o.(*types.TypeName); ok {
		return &STy{G: tn.Type()}
	}
	panic(specEvalErr{"unknown type " + pn + "." + x.Name})
}

func isFloat(t *STy) bool {
	if t.Row != nil || t.G == nil {
		return false
	}
	b, ok := t.G.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntTy(t *STy) bool {
	if t.Row != nil || t.G == nil {
		return false
	}
	b, ok := t.G.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func parseFloatLit(s string) *Term {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(specEvalErr{"bad float " + s})
	}
	return floatLit(f)
}

func (e *Env) boolE(x *SX) *Term {
	v := e.eval(x)
	if v.T.Sort != "Bool" {
		sfail(x, "boolean expected, got %s", v.Ty)
	}
	return v.T
}

func (e *Env) intE(x *SX) *Term {
	v := e.eval(x)
	if v.T.Sort != "Int" {
		sfail(x, "integer expected, got %s", v.Ty)
	}
	return v.T
}

func (e *Env) coerce(a, b *SVal, x *SX) {
	if isFloat(a.Ty) && b.T.Sort == "Int" {
		if n, ok := intLit(b.T); ok {
			f, _ := new(big.Float).SetInt(n).Float64()
			*b = SVal{floatLit(f), tyF64}
		}
	}
	if isFloat(b.Ty) && a.T.Sort == "Int" {
		if n, ok := intLit(a.T); ok {
			f, _ := new(big.Float).SetInt(n).Float64()
			*a = SVal{floatLit(f), tyF64}
		}
	}
	if b.Ty == tyNil && a.T.Sort == "Slice" {
		*b = SVal{intT(0), tyInt}
		*a = SVal{sArr(a.T), tyInt}
	}
	if a.Ty == tyNil && b.T.Sort == "Slice" {
		*a = SVal{intT(0), tyInt}
		*b = SVal{sArr(b.T), tyInt}
	}
	if a.T.Sort != b.T.Sort {
		sfail(x, "operands of different sorts: %s and %s", a.Ty, b.Ty)
	}
}

var boundCtr int

func (e *Env) eval(x *SX) SVal {
	w := e.c.w
	switch x.K {
	case "num":
		b, ok := new(big.Int).SetString(x.S, 0)
		if !ok {
			sfail(x, "bad number %s", x.S)
		}
		return SVal{bigT(b), tyInt}
	case "float":
		return SVal{parseFloatLit(x.S), tyF64}
	case "str":
		return SVal{e.c.strConst(x.S), tyStr}
	case "id":
		return e.ident(x)
	case "un":
		v := e.eval(x.A[0])
		if x.S == "!" {
			return SVal{not(v.T), tyBool}
		}
		if isFloat(v.Ty) {
			if f, ok := floatLitVal(v.T.Op); ok {
				return SVal{floatLit(-f), tyF64}
			}
			return SVal{mk("F64", "fneg", v.T), tyF64}
		}
		return SVal{sub(intT(0), v.T), v.Ty}
	case "bin":
		return e.binary(x)
	case "ite":
		c := e.boolE(x.A[0])
		a, b := e.eval(x.A[1]), e.eval(x.A[2])
		e.coerce(&a, &b, x)
		return SVal{ite(c, a.T, b.T), a.Ty}
	case "let":
		return e.with(x.S, e.eval(x.A[0])).eval(x.A[1])
	case "all", "ex":
		n := e
		var bs []Bind
		var guards []*Term
		for _, v := range x.Vars {
			ty := w.resolveTy(v.Ty, e.pkg)
			boundCtr++
			name := fmt.Sprintf("%s?%d", v.Name, boundCtr)
			s := w.sort(ty)
			bs = append(bs, Bind{name, s})
			t := sym(name, s)
			n = n.with(v.Name, SVal{t, ty})
			_ = guards
		}
		body := n.boolE(x.A[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var q []*Term
			for _, y := range p {
				q = append(q, e.c.patTerm(n.eval(y).T))
			}
			pats = append(pats, q)
		}
		if x.K == "all" {
			return SVal{forall(bs, body, pats...), tyBool}
		}
		return SVal{&Term{Op: "exists", Binds: bs, Args: []*Term{body}, Pats: pats, Sort: "Bool"}, tyBool}
	case "deref":
		v := e.eval(x.A[0])
		pt, ok := v.Ty.G.Underlying().(*types.Pointer)
		if !ok {
			sfail(x, "cannot dereference %s", v.Ty)
		}
		return SVal{e.c.readCell(e.st, pt.Elem(), v.T), &STy{G: pt.Elem()}}
	case "fld":
		return e.field(x)
	case "idx":
		b := e.eval(x.A[0])
		i := e.eval(x.A[1])
		return e.index(b, i, x)
	case "call":
		return e.call(x)
	}
	sfail(x, "unsupported expression %s", x.K)
	return SVal{}
}

// patTerm names the ground conditionals in a trigger (conditionals are not allowed there).
func (c *FnCtx) patTerm(t *Term) *Term {
	if t.Op == "ite" {
		for s := range t.Syms() {
			if strings.Contains(s, "?") {
				return t
			}
		}
		return c.define("sel", t)
	}
	if len(t.Args) == 0 || t.Binds != nil {
		return t
	}
	args := make([]*Term, len(t.Args))
	diff := false
	for i, a := range t.Args {
		args[i] = c.patTerm(a)
		diff = diff || args[i] != a
	}
	if !diff {
		return t
	}
	return &Term{Op: t.Op, Args: args, Sort: t.Sort}
}

func (e *Env) index(b, i SVal, x *SX) SVal {
	if b.Ty.Row != nil {
		return SVal{sel(b.T, i.T), b.Ty.Row}
	}
	switch u := b.Ty.G.Underlying().(type) {
	case *types.Slice:
		return SVal{e.c.readElem(e.st, u.Elem(), sArr(b.T), ix(sOff(b.T), i.T)), &STy{G: u.Elem()}}
	case *types.Array:
		return SVal{sel(b.T, i.T), &STy{G: u.Elem()}}
	case *types.Map:
		return SVal{sel(e.c.readMapVal(e.st, u, b.T), i.T), &STy{G: u.Elem()}}
	}
	sfail(x, "cannot index %s", b.Ty)
	return SVal{}
}

func (e *Env) ident(x *SX) SVal {
	if v, ok := e.vars[x.S]; ok {
		return v
	}
	switch x.S {
	case "true":
		return SVal{tTrue, tyBool}
	case "false":
		return SVal{tFalse, tyBool}
	case "nil":
		return SVal{intT(0), tyNil}
	case "maxint":
		return SVal{bigT(maxInt64), tyInt}
	case "minint":
		return SVal{bigT(minInt64), tyInt}
	case "maxuint":
		return SVal{bigT(maxUint64), tyInt}
	}
	if e.locals != nil {
		if v, ok := e.locals(x.S, e.st); ok {
			return v
		}
	}
	if v, ok := e.pkgMember(e.pkg, x.S); ok {
		return v
	}
	// zero-argument predicate
	sfail(x, "unknown identifier %s", x.S)
	return SVal{}
}

func (e *Env) pkgMember(pkg, name string) (SVal, bool) {
	p := e.c.w.ByName[pkg]
	if p == nil {
		return SVal{}, false
	}
	switch o := p.Types.Scope().Lookup(name).(type) {
	case *types.Const:
		return e.constVal(o.Val(), o.Type()), true
	case *types.Var:
		return SVal{e.c.readGlobal(e.st, o), &STy{G: o.Type()}}, true
	}
	return SVal{}, false
}

func (e *Env) constVal(v constant.Value, t types.Type) SVal {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedFloat {
		t = types.Typ[types.Float64]
	}
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune) {
		t = types.Typ[types.Int]
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedBool {
		t = types.Typ[types.Bool]
	}
	return SVal{e.c.constTerm(v, t), &STy{G: t}}
}

func (e *Env) field(x *SX) SVal {
	if x.A[0].K == "id" {
		if _, isVar := e.vars[x.A[0].S]; !isVar {
			shadow := false
			if e.locals != nil {
				_, shadow = e.locals(x.A[0].S, e.st)
			}
			if !shadow {
				if v, ok := e.pkgMember(x.A[0].S, x.S); ok {
					return v
				}
			}
		}
	}
	b := e.eval(x.A[0])
	if b.Ty.Row != nil {
		sfail(x, "field %s of %s", x.S, b.Ty)
	}
	t := b.Ty.G
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		st := pt.Elem()
		if comp, ty, ok := e.c.fieldComp(st, x.S); ok {
			return SVal{sel(e.c.heap(e.st, comp), b.T), ty}
		}
		sfail(x, "no field %s in %s", x.S, typeKey(st))
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x.S {
				return SVal{e.c.w.structField(b.T, t, i), &STy{G: st.Field(i).Type()}}
			}
		}
	}
	sfail(x, "no field %s in %s", x.S, b.Ty)
	return SVal{}
}

func (e *Env) binary(x *SX) SVal {
	switch x.S {
	case "&&":
		return SVal{and(e.boolE(x.A[0]), e.boolE(x.A[1])), tyBool}
	case "||":
		return SVal{or(e.boolE(x.A[0]), e.boolE(x.A[1])), tyBool}
	case "==>":
		return SVal{implies(e.boolE(x.A[0]), e.boolE(x.A[1])), tyBool}
	case "<==>":
		return SVal{eq(e.boolE(x.A[0]), e.boolE(x.A[1])), tyBool}
	}
	a, b := e.eval(x.A[0]), e.eval(x.A[1])
	e.coerce(&a, &b, x)
	switch x.S {
	case "==":
		return SVal{eq(a.T, b.T), tyBool}
	case "!=":
		return SVal{not(eq(a.T, b.T)), tyBool}
	}
	if isFloat(a.Ty) {
		switch x.S {
		case "<":
			return SVal{mk("Bool", "flt", a.T, b.T), tyBool}
		case "<=":
			return SVal{mk("Bool", "fle", a.T, b.T), tyBool}
		case ">":
			return SVal{mk("Bool", "flt", b.T, a.T), tyBool}
		case ">=":
			return SVal{mk("Bool", "fle", b.T, a.T), tyBool}
		case "+":
			return SVal{mk("F64", "fadd", a.T, b.T), tyF64}
		case "-":
			return SVal{mk("F64", "fsub", a.T, b.T), tyF64}
		case "*":
			return SVal{mk("F64", "fmul", a.T, b.T), tyF64}
		case "/":
			return SVal{mk("F64", "fdiv", a.T, b.T), tyF64}
		}
	}
	if a.T.Sort != "Int" {
		sfail(x, "operator %s on %s", x.S, a.Ty)
	}
	switch x.S {
	case "<", "<=", ">", ">=":
		return SVal{cmp(x.S, a.T, b.T), tyBool}
	case "+":
		return SVal{add(a.T, b.T), tyInt}
	case "-":
		return SVal{sub(a.T, b.T), tyInt}
	case "*":
		return SVal{mul(a.T, b.T), tyInt}
	case "/":
		return SVal{mk("Int", "div", a.T, b.T), tyInt}
	case "%":
		return SVal{mk("Int", "mod", a.T, b.T), tyInt}
	}
	sfail(x, "operator %s", x.S)
	return SVal{}
}

func (e *Env) call(x *SX) SVal {
	w := e.c.w
	pkg, name := e.pkg, ""
	if x.A[0].K == "id" {
		name = x.A[0].S
	} else {
		if x.A[0].A[0].K != "id" {
			sfail(x, "bad call")
		}
		pkg, name = x.A[0].A[0].S, x.A[0].S
	}
	args := x.A[1:]
	if x.A[0].K == "id" {
		switch name {
		case "old":
			if e.old == nil {
				sfail(x, "old() not available here")
			}
			n := *e
			n.st = e.old
			n.oldLocals = true
			if e.oldvars != nil {
				n.vars = map[string]SVal{}
				for k, v := range e.vars {
					n.vars[k] = v
				}
				for k, v := range e.oldvars {
					n.vars[k] = v
				}
			}
			return n.eval(args[0])
		case "opt": // true when a name in it does not exist in the source
			return e.optional(args[0])
		case "pre":
			if e.pre == nil {
				sfail(x, "pre() not available here")
			}
			n := *e
			n.st = e.pre
			return n.eval(args[0])
		case "len":
			v := e.eval(args[0])
			if v.T.Sort == "Str" {
				return SVal{mk("Int", "slen", v.T), tyInt}
			}
			if v.Ty.G != nil {
				switch u := v.Ty.G.Underlying().(type) {
				case *types.Array:
					return SVal{intT(u.Len()), tyInt}
				case *types.Map:
					return SVal{e.c.readMapLen(e.st, u, v.T), tyInt}
				}
			}
			return SVal{sLen(v.T), tyInt}
		case "cap":
			return SVal{sCap(e.eval(args[0]).T), tyInt}
		case "arr":
			return SVal{sArr(e.eval(args[0]).T), tyInt}
		case "off":
			return SVal{sOff(e.eval(args[0]).T), tyInt}
		case "at":
			return SVal{ix(e.intE(args[0]), e.intE(args[1])), tyInt}
		case "row": // content of the whole backing array, indexed absolutely
			v := e.eval(args[0])
			u, ok := v.Ty.G.Underlying().(*types.Slice)
			if !ok {
				sfail(x, "row of %s", v.Ty)
			}
			return SVal{e.c.readRow(e.st, u.Elem(), sArr(v.T)), &STy{Row: &STy{G: u.Elem()}}}
		case "addr": // address of a local variable
			if len(args) != 1 || args[0].K != "id" {
				sfail(x, "addr of a variable expected")
			}
			e.c.wantAddr = true
			defer func() { e.c.wantAddr = false }()
			return e.eval(args[0])
		case "asref":
			v := e.eval(args[0])
			return SVal{v.T, tyInt}
		case "update":
			r, i, v := e.eval(args[0]), e.eval(args[1]), e.eval(args[2])
			return SVal{store(r.T, i.T, v.T), r.Ty}
		case "haskey":
			m := e.eval(args[0])
			var u *types.Map
			if m.Ty.G != nil {
				u, _ = m.Ty.G.Underlying().(*types.Map)
			}
			if u == nil {
				sfail(x, "haskey needs a map")
			}
			return SVal{sel(e.c.readMapDom(e.st, u, m.T), e.eval(args[1]).T), tyBool}
		case "fresh":
			v := e.eval(args[0])
			if e.old == nil {
				sfail(x, "fresh() not available here")
			}
			r := v.T
			if r.Sort == "Slice" {
				r = sArr(r)
			}
			return SVal{and(le(e.c.heap(e.old, "next"), r), lt(r, e.c.heap(e.st, "next"))), tyBool}
		case "freshloop":
			v := e.eval(args[0])
			r := v.T
			if r.Sort == "Slice" {
				r = sArr(r)
			}
			return SVal{and(le(e.c.heap(e.pre, "next"), r), lt(r, e.c.heap(e.st, "next"))), tyBool}
		case "allocated":
			v := e.eval(args[0])
			r := v.T
			if r.Sort == "Slice" {
				r = sArr(r)
			}
			return SVal{and(lt(intT(0), r), lt(r, e.c.heap(e.st, "next"))), tyBool}
		case "feq":
			return SVal{mk("Bool", "feq", e.eval(args[0]).T, e.eval(args[1]).T), tyBool}
		case "isnan":
			a := e.eval(args[0]).T
			return SVal{not(mk("Bool", "feq", a, a)), tyBool}
		case "i2f":
			return SVal{e.c.i2f(e.intE(args[0])), tyF64}
		case "f2i":
			return SVal{mk("Int", "f2i", e.eval(args[0]).T), tyInt}
		case "pow2":
			return SVal{pow2T(e.intE(args[0])), tyInt}
		case "bxor":
			return SVal{mk("Int", "bxor", e.intE(args[0]), e.intE(args[1])), tyInt}
		case "band":
			return SVal{mk("Int", "band", e.intE(args[0]), e.intE(args[1])), tyInt}
		case "fsqrt", "fexp", "ffloor", "fceil", "flog", "flog2":
			return SVal{mk("F64", name, e.eval(args[0]).T), tyF64}
		case "fpow":
			return SVal{mk("F64", name, e.eval(args[0]).T, e.eval(args[1]).T), tyF64}
		case "typetag":
			return SVal{mk("Int", "typetag", e.eval(args[0]).T), tyInt}
		case "tagof":
			return SVal{intT(e.c.typeTag(w.resolveTy(&TyX{K: "name", Name: args[0].S}, e.pkg).G)), tyInt}
		case "unbox": // unbox(T, x): struct value boxed in an interface
			var tx *TyX
			if args[0].K == "fld" {
				tx = &TyX{K: "name", Pkg: args[0].A[0].S, Name: args[0].S}
			} else {
				tx = &TyX{K: "name", Name: args[0].S}
			}
			ty := w.resolveTy(tx, e.pkg)
			return SVal{e.c.unboxFn(ty.G, e.eval(args[1]).T), ty}
		case "mkpair": // struct constructor: mkpair(T, a, b...)
			ty := w.resolveTy(tyOfExpr(args[0]), e.pkg)
			s := w.sort(ty)
			var ts []*Term
			for _, a := range args[1:] {
				ts = append(ts, e.eval(a).T)
			}
			return SVal{mk(s, "mk_"+s, ts...), ty}
		}
	}
	if pd, ok := w.lookupPred(pkg, name, e.pkg); ok {
		if len(pd.Params) != len(args) {
			sfail(x, "%s: %d arguments expected", name, len(pd.Params))
		}
		n := *e
		n.vars = map[string]SVal{}
		n.oldvars = nil
		n.locals = nil
		n.pkg = pd.Pkg
		for i, a := range args {
			v := e.eval(a)
			ty := w.resolveTy(pd.Params[i].Ty, pd.Pkg)
			if isFloat(ty) && v.T.Sort == "Int" {
				tmp := SVal{floatLit(0), tyF64}
				e.coerce(&tmp, &v, x)
			}
			if w.sort(ty) != v.T.Sort {
				sfail(x, "%s: argument %d has type %s, want %s", name, i, v.Ty, ty)
			}
			n.vars[pd.Params[i].Name] = SVal{v.T, ty}
		}
		return n.eval(pd.Body)
	}
	if sf, ok := w.lookupSFunc(pkg, name, e.pkg); ok {
		if len(sf.Params) != len(args) {
			sfail(x, "%s: %d arguments expected", name, len(sf.Params))
		}
		var ts []*Term
		for i, a := range args {
			v := e.eval(a)
			ty := w.resolveTy(sf.Params[i].Ty, sf.Pkg)
			if isFloat(ty) && v.T.Sort == "Int" {
				tmp := SVal{floatLit(0), tyF64}
				e.coerce(&tmp, &v, x)
			}
			if w.sort(ty) != v.T.Sort {
				sfail(x, "%s: argument %d has type %s, want %s", name, i, v.Ty, ty)
			}
			ts = append(ts, v.T)
		}
		ret := w.resolveTy(sf.Ret, sf.Pkg)
		return SVal{mk(w.sort(ret), sfName(sf), ts...), ret}
	}
	sfail(x, "unknown function %s.%s", pkg, name)
	return SVal{}
}

func (e *Env) optional(x *SX) (v SVal) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specEvalErr); ok && strings.Contains(s.msg, "unknown identifier") {
				v = SVal{tTrue, tyBool}
				return
			}
			panic(r)
		}
	}()
	return e.eval(x)
}

func tyOfExpr(x *SX) *TyX {
	if x.K == "fld" {
		return &TyX{K: "name", Pkg: x.A[0].S, Name: x.S}
	}
	return &TyX{K: "name", Name: x.S}
}

func sfName(sf *SpecFunc) string { return "sf_" + sf.Pkg + "_" + sf.Name }

// Names are looked up in the given package, then in the shared package "lib".
func (w *World) lookupPred(pkg, name, cur string) (*PredDef, bool) {
	if p, ok := w.Specs.Preds[pkg+"."+name]; ok {
		return p, true
	}
	p, ok := w.Specs.Preds["lib."+name]
	return p, ok
}
func (w *World) lookupSFunc(pkg, name, cur string) (*SpecFunc, bool) {
	if p, ok := w.Specs.SFuncs[pkg+"."+name]; ok {
		return p, true
	}
	p, ok := w.Specs.SFuncs["lib."+name]
	return p, ok
}
func (w *World) lookupLemma(pkg, name string) (*Lemma, bool) {
	if p, ok := w.Specs.Lemmas[pkg+"."+name]; ok {
		return p, true
	}
	p, ok := w.Specs.Lemmas["lib."+name]
	return p, ok
}

var _ = strings.TrimSpace
