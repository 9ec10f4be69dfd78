package main

// Specification functions and lemmas: their axioms and their proof obligations.

import (
	"fmt"
	"strings"
)

// sfDef is the SMT meaning of a specification function.
type sfDef struct {
	name    string // sf_pkg_name
	args    []string
	ret     string
	axioms  []*Term
	symdeps map[string]bool
	rec     bool
	obls    []*Obl
}

// specCtx is a context for evaluating heap-independent expressions.
func (w *World) specCtx(what, pkg string) *FnCtx {
	fn := &FuncSrc{Key: what, Pkg: &Pkg{Name: pkg}}
	c := NewFnCtx(w, fn, &FuncSpec{Key: what, Pkg: pkg}, "")
	st := &State{heap: map[string]*Term{}, ghosts: map[string]SVal{}}
	c.entry = st
	return c
}

func (c *FnCtx) heapFree(what string) error {
	for s := range c.decls {
		if strings.Contains(s, "@0") && s != "next@0" {
			return fmt.Errorf("%s: reads program state (%s)", what, s)
		}
	}
	return nil
}

// renameOps replaces function symbol a by b.
func renameOp(t *Term, a, b string) *Term {
	if !t.Syms()[a] {
		return t
	}
	n := &Term{Op: t.Op, Sort: t.Sort, Binds: t.Binds}
	if n.Op == a {
		n.Op = b
	}
	for _, x := range t.Args {
		n.Args = append(n.Args, renameOp(x, a, b))
	}
	for _, p := range t.Pats {
		var q []*Term
		for _, x := range p {
			q = append(q, renameOp(x, a, b))
		}
		n.Pats = append(n.Pats, q)
	}
	return n
}

func (w *World) sfDefOf(key string) (*sfDef, error) {
	if d, ok := w.sfdefs[key]; ok {
		return d, nil
	}
	sf := w.Specs.SFuncs[key]
	name := sfName(sf)
	c := w.specCtx("spec function "+key, sf.Pkg)
	d := &sfDef{name: name, ret: w.sort(w.resolveTy(sf.Ret, sf.Pkg)), symdeps: map[string]bool{}}
	var binds []Bind
	var args []*Term
	vars := map[string]SVal{}
	for _, p := range sf.Params {
		ty := w.resolveTy(p.Ty, sf.Pkg)
		s := w.sort(ty)
		boundCtr++
		n := fmt.Sprintf("%s?%d", p.Name, boundCtr)
		binds = append(binds, Bind{n, s})
		d.args = append(d.args, s)
		args = append(args, sym(n, s))
		vars[p.Name] = SVal{sym(n, s), ty}
	}
	w.sfdefs[key] = d
	if sf.Body == nil {
		return d, nil
	}
	ret, app := d.ret, mk(d.ret, name, args...)
	retTy := w.resolveTy(sf.Ret, sf.Pkg)
	if sf.Each != "" { // a row given element by element
		if retTy.Row == nil {
			return nil, fmt.Errorf("spec function %s: a row result is needed with each", key)
		}
		boundCtr++
		n := fmt.Sprintf("%s?%d", sf.Each, boundCtr)
		binds = append(binds, Bind{n, "Int"})
		vars[sf.Each] = SVal{sym(n, "Int"), tyInt}
		retTy = retTy.Row
		ret, app = w.sort(retTy), sel(app, sym(n, "Int"))
	}
	env := &Env{c: c, pkg: sf.Pkg, st: c.entry, vars: vars}
	v := env.eval(sf.Body)
	if isFloat(retTy) && v.T.Sort == "Int" {
		tmp := SVal{floatLit(0), tyF64}
		env.coerce(&tmp, &v, sf.Body)
	}
	if v.T.Sort != ret {
		return nil, fmt.Errorf("spec function %s: body has sort %s, want %s", key, v.T.Sort, ret)
	}
	if err := c.heapFree("spec function " + key); err != nil {
		return nil, err
	}
	body := v.T
	d.rec = body.Syms()[name]
	if d.rec && sf.Each != "" {
		return nil, fmt.Errorf("spec function %s: a row given element by element cannot be recursive", key)
	}
	if d.rec {
		if sf.Decr == nil {
			return nil, fmt.Errorf("spec function %s is recursive and needs a decreases clause", key)
		}
		m := env.intE(sf.Decr)
		c.recCalls(body, name, tTrue, func(pc *Term, cargs []*Term) {
			sub_ := map[string]*Term{}
			for i, b := range binds {
				sub_[b.Name] = cargs[i]
			}
			m2 := subst(m, sub_)
			o := &Obl{Name: c.fn.Key + "/decreases: " + fmt.Sprintf("recursive call %d", len(d.obls)+1), Func: c.fn.Key, Kind: "decreases", Text: "recursion is well-founded",
				Goal: forall(binds, implies(pc, and(lt(m2, m), le(intT(0), m)))), Ctx: c}
			d.obls = append(d.obls, o)
		})
		lim := name + "~lim"
		body = renameOp(body, name, lim)
		limApp := mk(d.ret, lim, args...)
		d.axioms = append(d.axioms, forall(binds, eq(app, limApp), []*Term{app}))
	}
	d.axioms = append(d.axioms, forall(binds, eq(app, body), []*Term{app}))
	for _, a := range d.axioms {
		for s := range a.Syms() {
			d.symdeps[s] = true
		}
	}
	return d, nil
}

// recCalls visits the recursive applications in a body with their path conditions.
func (c *FnCtx) recCalls(t *Term, name string, pc *Term, f func(*Term, []*Term)) {
	if !t.Syms()[name] {
		return
	}
	switch t.Op {
	case "ite":
		c.recCalls(t.Args[0], name, pc, f)
		c.recCalls(t.Args[1], name, and(pc, t.Args[0]), f)
		c.recCalls(t.Args[2], name, and(pc, not(t.Args[0])), f)
		return
	case "=>":
		c.recCalls(t.Args[0], name, pc, f)
		c.recCalls(t.Args[1], name, and(pc, t.Args[0]), f)
		return
	case "and":
		for _, a := range t.Args {
			c.recCalls(a, name, pc, f)
			pc = and(pc, a)
		}
		return
	case "or":
		for _, a := range t.Args {
			c.recCalls(a, name, pc, f)
			pc = and(pc, not(a))
		}
		return
	case "forall", "exists":
		c.recCalls(t.Args[0], name, pc, func(p *Term, a []*Term) {
			f(p, a) // bound variables stay free in the obligation and are universally read below
		})
		return
	}
	if t.Op == name {
		f(pc, t.Args)
	}
	for _, a := range t.Args {
		c.recCalls(a, name, pc, f)
	}
}

// lemmaStmt is the quantified statement of a lemma, with its triggers.
func (w *World) lemmaStmt(l *Lemma) (*Term, error) {
	if t, ok := w.lemstmts[l.Pkg+"."+l.Name]; ok {
		return t, nil
	}
	c := w.specCtx("lemma "+l.Pkg+"."+l.Name, l.Pkg)
	vars := map[string]SVal{}
	var binds []Bind
	for _, p := range l.Params {
		ty := w.resolveTy(p.Ty, l.Pkg)
		boundCtr++
		n := fmt.Sprintf("%s?%d", p.Name, boundCtr)
		s := w.sort(ty)
		binds = append(binds, Bind{n, s})
		vars[p.Name] = SVal{sym(n, s), ty}
	}
	env := &Env{c: c, pkg: l.Pkg, st: c.entry, vars: vars}
	var rs, es []*Term
	for _, r := range l.Requires {
		rs = append(rs, env.boolE(r))
	}
	for _, r := range l.Ensures {
		es = append(es, env.boolE(r))
	}
	var pats [][]*Term
	for _, p := range l.Pats {
		var q []*Term
		for _, x := range p {
			q = append(q, env.eval(x).T)
		}
		pats = append(pats, q)
	}
	if err := c.heapFree("lemma " + l.Name); err != nil {
		return nil, err
	}
	t := forall(binds, implies(and(rs...), and(es...)), pats...)
	w.lemstmts[l.Pkg+"."+l.Name] = t
	return t, nil
}

// triggersPresent reports whether every function symbol of one of the lemma's triggers is present.
func (w *World) triggersPresent(l *Lemma, syms map[string]bool) (bool, error) {
	t, err := w.lemmaStmt(l)
	if err != nil {
		return false, err
	}
	bound := map[string]bool{}
	for _, b := range t.Binds {
		bound[b.Name] = true
	}
	for _, p := range t.Pats {
		ok := true
		for _, x := range p {
			for s := range x.Syms() {
				if bound[s] || s == "" || s[0] >= '0' && s[0] <= '9' || s == "-" {
					continue
				}
				if !syms[s] {
					ok = false
				}
			}
		}
		if ok {
			return true, nil
		}
	}
	return false, nil
}

func (w *World) lemmaIndex(key string) int {
	for i, k := range w.Specs.LOrder {
		if k == key {
			return i
		}
	}
	return -1
}

// lemmaObls generates the proof obligations of a lemma.
func (w *World) lemmaObls(key string) (c *FnCtx, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				err = fmt.Errorf("lemma %s: %s", key, x.Msg)
			case specEvalErr:
				err = fmt.Errorf("lemma %s: %s", key, x.msg)
			default:
				panic(r)
			}
		}
	}()
	l := w.Specs.Lemmas[key]
	c = w.specCtx("lemma "+key, l.Pkg)
	c.lemmaSelf = w.lemmaIndex(key)
	st := &State{heap: map[string]*Term{}, ghosts: map[string]SVal{}}
	vars := map[string]SVal{}
	for _, p := range l.Params {
		ty := w.resolveTy(p.Ty, l.Pkg)
		s := w.sort(ty)
		vars[p.Name] = SVal{c.baseSym("l_"+p.Name, s), ty}
		if s == "Int" && ty.G != nil && isUnsigned(ty.G) {
			c.base = append(c.base, le(intT(0), vars[p.Name].T))
		}
	}
	env := &Env{c: c, pkg: l.Pkg, st: st, vars: vars}
	for _, r := range l.Requires {
		c.fact(env.boolE(r))
	}
	if l.Induct != "" {
		nv, ok := vars[l.Induct]
		if !ok {
			return nil, fmt.Errorf("lemma %s: no parameter %s", key, l.Induct)
		}
		iv := map[string]SVal{}
		var binds []Bind
		for _, p := range l.Params {
			v := vars[p.Name]
			if p.Name == l.Induct {
				v = SVal{sub(nv.T, intT(1)), v.Ty}
			} else if l.General {
				boundCtr++
				n := fmt.Sprintf("%s?%d", p.Name, boundCtr)
				binds = append(binds, Bind{n, v.T.Sort})
				v = SVal{sym(n, v.T.Sort), v.Ty}
			}
			iv[p.Name] = v
		}
		ie := &Env{c: c, pkg: l.Pkg, st: st, vars: iv}
		var rs, es []*Term
		for _, r := range l.Requires {
			rs = append(rs, ie.boolE(r))
		}
		for _, r := range l.Ensures {
			es = append(es, ie.boolE(r))
		}
		c.fact(implies(lt(intT(0), nv.T), forall(binds, implies(and(rs...), and(es...)))))
	}
	for _, h := range l.Hints {
		switch h.Kind {
		case "assert":
			c.oblige(st, "lemma", "assert", nil, env.boolE(h.E))
		case "apply":
			c.applyLemma(st, env, h.E)
		}
	}
	for _, u := range l.Uses {
		lu, ok := w.lookupLemma(l.Pkg, u)
		if !ok {
			return nil, fmt.Errorf("lemma %s: unknown lemma %s", key, u)
		}
		if w.lemmaIndex(lu.Pkg+"."+lu.Name) >= c.lemmaSelf {
			return nil, fmt.Errorf("lemma %s uses the later lemma %s", key, u)
		}
		s, err := w.lemmaStmt(lu)
		if err != nil {
			return nil, err
		}
		c.used["lemma:"+lu.Pkg+"."+lu.Name] = true
		c.fact(s)
	}
	for _, e := range l.Ensures {
		for _, g := range conjuncts(env.boolE(e)) {
			c.oblige(st, "lemma", strings.TrimSpace(l.Name), nil, g)
		}
	}
	return c, nil
}
