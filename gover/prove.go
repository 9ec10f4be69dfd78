package main

// Proof of one property: closure over contracts, fallback modes, lemmas, vacuity.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

type FuncResult struct {
	Key     string
	Obls    []*Obl
	Mode    int
	Err     string
	Inlined []string
	Calls   []string
	Trivial int
	Note    string
}

type Proof struct {
	Prop     string
	Funcs    []*FuncResult
	Lemmas   []string
	Axioms   []string
	Trusted  []string
	Obls     []*Obl // everything that has to be proved
	Covers   []*Obl
	Failed   []*Obl
	Problems []string // generation errors
	Vacuous  []string
	Adopted  []string
}

// adoptOrphans gives the contract of a function that no longer exists to the one contract-less function
// of the same package and shape that could have replaced it (a renamed function).
func (w *World) adoptOrphans() []string {
	var notes []string
	type slot struct{ specs, funcs []string }
	slots := map[string]*slot{}
	get := func(k string) *slot {
		if slots[k] == nil {
			slots[k] = &slot{}
		}
		return slots[k]
	}
	for key, spec := range w.Specs.Funcs {
		if spec.Trusted || w.ByKey[key] != nil {
			continue
		}
		recv := ""
		if parts := strings.Split(key, "."); len(parts) == 3 {
			recv = parts[1]
		}
		k := fmt.Sprintf("%s|%s|%d|%d", spec.Pkg, recv, len(spec.Params), len(spec.Results))
		get(k).specs = append(get(k).specs, key)
	}
	for key, src := range w.ByKey {
		if w.Specs.Funcs[key] != nil || src.Init {
			continue
		}
		recv := ""
		if parts := strings.Split(key, "."); len(parts) == 3 {
			recv = parts[1]
		}
		sig := src.Obj.Type().(*types.Signature)
		k := fmt.Sprintf("%s|%s|%d|%d", src.Pkg.Name, recv, sig.Params().Len(), sig.Results().Len())
		get(k).funcs = append(get(k).funcs, key)
	}
	for _, s := range slots {
		if len(s.specs) == 1 && len(s.funcs) == 1 {
			spec := *w.Specs.Funcs[s.specs[0]]
			spec.Key = s.funcs[0]
			w.Specs.Funcs[s.funcs[0]] = &spec
			notes = append(notes, s.specs[0]+" -> "+s.funcs[0])
			delete(w.Specs.Funcs, s.specs[0])
		}
	}
	sort.Strings(notes)
	return notes
}

func (w *World) genFunc(key, prop string, mode int, killed map[string]bool) (*FnCtx, error) {
	src, spec := w.ByKey[key], w.Specs.Funcs[key]
	if src == nil {
		return nil, fmt.Errorf("%s: function not found in the source", key)
	}
	if spec == nil {
		return nil, fmt.Errorf("%s: no contract", key)
	}
	c := NewFnCtx(w, src, spec, prop)
	c.mode = mode
	if killed != nil {
		c.killed = killed
	}
	err := c.Run()
	return c, err
}

func split(obls []*Obl) (must, cover []*Obl) {
	for _, o := range obls {
		if o.Cover {
			cover = append(cover, o)
		} else {
			must = append(must, o)
		}
	}
	return
}

func unproved(obls []*Obl) []*Obl {
	var out []*Obl
	for _, o := range obls {
		if o.Status != "proved" && o.Status != "skipped" {
			out = append(out, o)
		}
	}
	return out
}

func (w *World) Prove(prop string, roots []string, only string, tier string, deadline time.Time) *Proof {
	p := &Proof{Prop: prop}
	p.Adopted = w.adoptOrphans()
	adopted := map[string]string{}
	for _, a := range p.Adopted {
		x := strings.Split(a, " -> ")
		adopted[x[0]] = x[1]
	}
	seen := map[string]bool{}
	lemmas := map[string]bool{}
	work := append([]string{}, roots...)
	var ctxs []*FnCtx
	type entry struct {
		fr *FuncResult
		c  *FnCtx
	}
	var entries []*entry
	for len(work) > 0 {
		key := work[0]
		work = work[1:]
		if strings.HasPrefix(key, "lemma:") {
			if w.Specs.Lemmas[key[6:]] == nil {
				p.Problems = append(p.Problems, "no "+key)
			} else {
				lemmas[key[6:]] = true
			}
			continue
		}
		if a, ok := adopted[key]; ok {
			key = a
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		if only != "" && !strings.Contains(key, only) {
			if c, err := w.genFunc(key, prop, 0, nil); err == nil {
				for _, k := range sortedKeys(c.calls) {
					if s := w.Specs.Funcs[k]; s != nil && !s.Trusted {
						work = append(work, k)
					}
				}
			}
			continue
		}
		fr := &FuncResult{Key: key}
		c, err := w.genFunc(key, prop, 0, nil)
		if err != nil {
			fr.Note = "as written, the contract does not apply: " + err.Error()
			if noFallback || noFallbackFor[key] {
				p.Problems = append(p.Problems, fr.Note)
			}
			c2, err2 := w.genFunc(key, prop, 1, nil)
			if err2 != nil {
				fr.Err = err2.Error()
				p.Problems = append(p.Problems, fr.Err)
			} else {
				c = c2
				fr.Mode = 1
			}
		}
		p.Funcs = append(p.Funcs, fr)
		e := &entry{fr: fr}
		entries = append(entries, e)
		if fr.Err == "" {
			e.c = c
			ctxs = append(ctxs, c)
			for _, k := range sortedKeys(c.calls) {
				s := w.Specs.Funcs[k]
				if s == nil {
					continue
				}
				if s.Trusted {
					continue
				}
				work = append(work, k)
			}
		}
	}
	// discharge everything generated in normal mode at once
	var batch []*Obl
	for _, e := range entries {
		if e.c != nil && e.fr.Mode == 0 {
			batch = append(batch, e.c.obls...)
		}
	}
	if err := w.Discharge(batch, tier, deadline); err != nil {
		p.Problems = append(p.Problems, err.Error())
		return p
	}
	// fallback: candidate invariants
	for _, e := range entries {
		if e.c == nil {
			continue
		}
		must, _ := split(e.c.obls)
		if e.fr.Mode == 0 && len(unproved(must)) == 0 {
			continue
		}
		if noFallback || noFallbackFor[e.fr.Key] || refuted.Load() {
			continue
		}
		if c, ok := w.houdini(e.fr.Key, prop, deadline); ok {
			e.c = c
			e.fr.Mode = 1
			e.fr.Note = strings.TrimSpace(e.fr.Note + " proved with re-inferred loop invariants")
		} else if e.fr.Mode == 1 {
			e.c = c
			if c == nil {
				e.fr.Err = e.fr.Note
				p.Problems = append(p.Problems, e.fr.Key+": "+e.fr.Note)
			}
		}
	}
	trusted := map[string]bool{}
	for _, e := range entries {
		if e.c == nil {
			continue
		}
		for k := range e.c.calls {
			if s := w.Specs.Funcs[k]; s != nil && s.Trusted {
				trusted[k] = true
			}
		}
		for u := range e.c.used {
			if strings.HasPrefix(u, "lemma:") {
				lemmas[u[6:]] = true
			}
		}
		must, cover := split(e.c.obls)
		e.fr.Obls = must
		e.fr.Calls = sortedKeys(e.c.calls)
		e.fr.Inlined = sortedKeys(e.c.inlined)
		e.fr.Trivial = e.c.trivial
		p.Obls = append(p.Obls, must...)
		p.Covers = append(p.Covers, cover...)
		entryBad, rets, retsBad := false, 0, 0
		for _, o := range cover {
			if o.Text == "precondition is satisfiable" && o.Status == "proved" {
				entryBad = true
			}
			if o.Text == "return is reachable" {
				rets++
				if o.Status == "proved" {
					retsBad++
				}
			}
		}
		if entryBad || rets > 0 && retsBad == rets {
			p.Vacuous = append(p.Vacuous, e.fr.Key)
		}
	}
	// lemmas, transitively
	for changed := true; changed; {
		changed = false
		for _, key := range sortedKeys(lemmas) {
			if seen["lemma:"+key] {
				continue
			}
			seen["lemma:"+key] = true
			changed = true
			l := w.Specs.Lemmas[key]
			if l.Axiom {
				p.Axioms = append(p.Axioms, l.Text)
				continue
			}
			c, err := w.lemmaObls(key)
			if err != nil {
				p.Problems = append(p.Problems, err.Error())
				continue
			}
			p.Lemmas = append(p.Lemmas, key)
			ctxs = append(ctxs, c)
			if err := w.Discharge(c.obls, tier, deadline); err != nil {
				p.Problems = append(p.Problems, err.Error())
				continue
			}
			p.Obls = append(p.Obls, c.obls...)
			for u := range c.used {
				if strings.HasPrefix(u, "lemma:") {
					lemmas[u[6:]] = true
				}
			}
		}
	}
	// well-founded definitions
	for _, key := range w.Specs.SOrder {
		d, ok := w.sfdefs[key]
		if !ok || len(d.obls) == 0 {
			continue
		}
		if err := w.Discharge(d.obls, tier, deadline); err != nil {
			p.Problems = append(p.Problems, err.Error())
			continue
		}
		p.Obls = append(p.Obls, d.obls...)
	}
	p.Trusted = sortedKeys(trusted)
	p.Failed = unproved(p.Obls)
	return p
}

var noFallback bool

// functions too large for the re-inference of loop invariants (props.json)
var noFallbackFor = map[string]bool{}

// houdini re-infers loop invariants: every invariant of the contract is a candidate at every loop.
// houdini looks for loop invariants that fit rewritten code: first the contract's own, loop by loop, leaving out
// what no longer holds; then (wide) every clause as a candidate for every loop, with variants.
func (w *World) houdini(key, prop string, deadline time.Time) (*FnCtx, bool) {
	own := time.Now().Add(time.Until(deadline) / 2)
	if c, ok := w.houdiniMode(key, prop, 2, own); ok {
		return c, ok
	}
	return w.houdiniMode(key, prop, 1, deadline)
}

func (w *World) houdiniMode(key, prop string, mode int, deadline time.Time) (*FnCtx, bool) {
	killed := map[string]bool{}
	var c *FnCtx
	tier, rounds := "cand", 10
	if mode == 2 {
		tier, rounds = "own", 5
	}
	for round := 0; round < rounds; round++ {
		if pastDeadline(deadline) {
			return c, false
		}
		var err error
		c, err = w.genFunc(key, prop, mode, killed)
		if err != nil {
			return nil, false
		}
		var cands []*Obl
		for _, o := range c.obls {
			if o.Kind == "cand" {
				cands = append(cands, o)
			}
		}
		if err := w.Discharge(cands, tier, deadline); err != nil {
			return c, false
		}
		dropped := false
		for _, o := range cands {
			if o.Status != "proved" {
				killed[o.Text] = true
				dropped = true
				if os.Getenv("GOVER_HOUDINI") != "" {
					fmt.Fprintln(os.Stderr, "mode", mode, "round", round, "drop", o.Name, o.Detail)
				}
			}
		}
		if !dropped {
			if err := w.Discharge(c.obls, "quick", deadline); err != nil {
				return c, false
			}
			must, _ := split(c.obls)
			if os.Getenv("GOVER_HOUDINI") != "" {
				for _, o := range unproved(must) {
					fmt.Fprintln(os.Stderr, "mode", mode, "left", o.Name, o.Detail)
				}
			}
			return c, len(unproved(must)) == 0
		}
	}
	return c, false
}
