package main

// SMT queries: emission and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"math"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const prelude = `(set-logic ALL)
(declare-sort F64 0)
(declare-sort Str 0)
(declare-datatypes ((Slice 0)) (((mk_slice (s_arr Int) (s_off Int) (s_len Int) (s_cap Int)))))
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun tmod ((a Int) (b Int)) Int (ite (>= a 0) (mod a b) (- (mod (- a) b))))
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sconcat (Str Str) Str)
(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (<= (slen s) 9223372036854775807)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (t Str)) (! (= (slen (sconcat s t)) (+ (slen s) (slen t))) :pattern ((sconcat s t)))))
(declare-fun typetag (Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
`

const preludePow2 = `(declare-fun pow2 (Int) Int)
(declare-fun pow2~lim (Int) Int)
(assert (forall ((n Int)) (! (= (pow2 n) (pow2~lim n)) :pattern ((pow2 n)))))
(assert (forall ((n Int)) (! (= (pow2 n) (ite (<= n 0) 1 (* 2 (pow2~lim (- n 1))))) :pattern ((pow2 n)))))
(assert (forall ((n Int)) (! (and (<= 1 (pow2 n)) (=> (<= n 62) (<= (pow2 n) 4611686018427387904)) (=> (<= n 63) (<= (pow2 n) 9223372036854775808)) (=> (>= n 63) (>= (pow2 n) 9223372036854775808)) (=> (>= n 64) (= (mod (pow2 n) 18446744073709551616) 0))) :pattern ((pow2 n)))))
(assert (and (= (pow2 64) 18446744073709551616) (= (pow2 63) 9223372036854775808) (= (pow2 62) 4611686018427387904) (= (pow2 52) 4503599627370496) (= (pow2 32) 4294967296)))
(assert (forall ((m Int) (n Int)) (! (=> (<= m n) (<= (pow2 m) (pow2 n))) :pattern ((pow2 m) (pow2 n)))))
`

// IEEE-754 double facts. F64 values are doubles with a single NaN; "=" is identity.
// fkey embeds the doubles other than NaN in the integers, in numeric order (both zeros at 0).
const preludeFloat = `(declare-fun fkey (F64) Int)
(declare-fun fnan (F64) Bool)
(define-fun flt ((a F64) (b F64)) Bool (and (not (fnan a)) (not (fnan b)) (< (fkey a) (fkey b))))
(define-fun fle ((a F64) (b F64)) Bool (and (not (fnan a)) (not (fnan b)) (<= (fkey a) (fkey b))))
(define-fun feq ((a F64) (b F64)) Bool (and (not (fnan a)) (not (fnan b)) (= (fkey a) (fkey b))))
(declare-fun fadd (F64 F64) F64)
(declare-fun fsub (F64 F64) F64)
(declare-fun fmul (F64 F64) F64)
(declare-fun fdiv (F64 F64) F64)
(declare-fun fneg (F64) F64)
(declare-fun i2f (Int) F64)
(declare-fun f2i (F64) Int)
(declare-fun f32 (F64) F64)
(declare-fun fabs (F64) F64)
(declare-fun fexp (F64) F64)
(declare-fun fsqrt (F64) F64)
(declare-fun fpow (F64 F64) F64)
(declare-fun ffloor (F64) F64)
(declare-fun fceil (F64) F64)
(declare-fun flog (F64) F64)
(declare-fun flog2 (F64) F64)
(assert (forall ((a F64) (b F64)) (! (= (fadd a b) (fadd b a)) :pattern ((fadd a b)))))
(assert (forall ((a F64) (b F64)) (! (= (fmul a b) (fmul b a)) :pattern ((fmul a b)))))
(assert (forall ((n Int)) (! (not (fnan (i2f n))) :pattern ((i2f n)))))
(assert (forall ((n Int)) (! (=> (and (<= (- 9007199254740992) n) (<= n 9007199254740992)) (= (f2i (i2f n)) n)) :pattern ((i2f n)))))
(assert (forall ((m Int) (n Int)) (! (=> (<= m n) (<= (fkey (i2f m)) (fkey (i2f n)))) :pattern ((i2f m) (i2f n)))))
(assert (forall ((a F64)) (! (= (fneg (fneg a)) a) :pattern ((fneg (fneg a))))))
(assert (forall ((a F64)) (! (= (fkey (fneg a)) (- (fkey a))) :pattern ((fneg a)))))
(assert (forall ((a F64)) (! (= (fnan (fneg a)) (fnan a)) :pattern ((fneg a)))))
(declare-fun fofkey (Int) F64)
(assert (forall ((a F64)) (! (=> (and (not (fnan a)) (not (= (fkey a) 0))) (= (fofkey (fkey a)) a)) :pattern ((fkey a)))))
(assert (forall ((a F64) (b F64)) (! (= (fsub a b) (fadd a (fneg b))) :pattern ((fsub a b)))))
(assert (forall ((a F64) (b F64)) (! (= (fmul (fneg a) b) (fneg (fmul a b))) :pattern ((fmul (fneg a) b)))))
(assert (forall ((a F64) (b F64)) (! (= (fdiv (fneg a) b) (fneg (fdiv a b))) :pattern ((fdiv (fneg a) b)))))
(assert (forall ((a F64) (b F64)) (! (= (fdiv a (fneg b)) (fneg (fdiv a b))) :pattern ((fdiv a (fneg b))))))
(assert (forall ((a F64)) (! (= (fmul (i2f 1) a) a) :pattern ((fmul (i2f 1) a)))))
`

const preludeFMul = `(assert (forall ((m Int) (n Int)) (! (=> (and (<= 0 m) (<= 0 n) (<= (* m n) 9007199254740992)) (= (fmul (i2f m) (i2f n)) (i2f (* m n)))) :pattern ((fmul (i2f m) (i2f n))))))
`

// a quotient of integers below 2^52 cannot be rounded onto or across an integer it does not equal
const preludeFCeil = `(assert (forall ((m Int) (n Int)) (! (=> (and (<= 0 m) (<= m 4503599627370496) (<= 1 n) (<= n 4503599627370496)) (let ((q (f2i (fceil (fdiv (i2f m) (i2f n)))))) (and (<= 0 q) (<= m (* q n)) (< (* q n) (+ m n))))) :pattern ((fceil (fdiv (i2f m) (i2f n)))))))
`
const preludeFFloor = `(assert (forall ((m Int) (n Int)) (! (=> (and (<= 0 m) (<= m 4503599627370496) (<= 1 n) (<= n 4503599627370496)) (let ((q (f2i (ffloor (fdiv (i2f m) (i2f n)))))) (and (<= 0 q) (<= (* q n) m) (< m (+ (* q n) n))))) :pattern ((ffloor (fdiv (i2f m) (i2f n)))))))
`

// the integer part of math.Log2 of an integer up to 2^40 is exact
const preludeFLog2 = `(assert (forall ((n Int)) (! (=> (and (<= 1 n) (<= n 1099511627776)) (let ((q (f2i (flog2 (i2f n))))) (and (<= 0 q) (<= q 40) (<= (pow2 q) n) (< n (* 2 (pow2 q)))))) :pattern ((flog2 (i2f n))))))
`

var floatOps = []string{"fkey", "fnan", "flt", "fle", "feq", "fadd", "fsub", "fmul", "fdiv", "fneg", "i2f", "f2i", "f32", "fabs", "fexp", "fsqrt", "fpow", "ffloor", "fceil", "flog", "flog2"}

// prune drops definitions of symbols that nothing else mentions.
func prune(facts []*Term, goal *Term, base []*Term, decls map[string]string) (out []*Term, syms map[string]bool) {
	syms = map[string]bool{}
	add := func(t *Term) {
		for s := range t.Syms() {
			syms[s] = true
		}
	}
	add(goal)
	keep := make([]bool, len(facts))
	for i := len(facts) - 1; i >= 0; i-- {
		f := facts[i]
		if f.Op == "=" && len(f.Args[0].Args) == 0 && f.Args[0].Binds == nil && strings.Contains(f.Args[0].Op, "!") && decls[f.Args[0].Op] != "" {
			if !syms[f.Args[0].Op] {
				continue
			}
		}
		keep[i] = true
		add(f)
	}
	for i, f := range facts {
		if keep[i] {
			out = append(out, f)
		}
	}
	// base facts: only those about symbols in play
	used := make([]bool, len(base))
	for changed := true; changed; {
		changed = false
		for i, b := range base {
			if used[i] {
				continue
			}
			rel, any := false, false
			for s := range b.Syms() {
				if strings.HasPrefix(s, "next!") && !syms[s] {
					rel, any = false, true
					break
				}
				if _, ok := decls[s]; ok && !strings.HasPrefix(s, "next") {
					any = true
					if syms[s] {
						rel = true
					}
				}
			}
			if rel || !any {
				used[i] = true
				add(b)
				changed = true
			}
		}
	}
	var bs []*Term
	for i, b := range base {
		if used[i] {
			bs = append(bs, b)
		}
	}
	return append(bs, out...), syms
}

// Query builds the SMT-LIB text of an obligation.
func (w *World) Query(o *Obl) (string, error) {
	c := o.Ctx
	facts, syms := prune(o.Facts, o.Goal, c.base, c.decls)
	add := func(t *Term) {
		for s := range t.Syms() {
			syms[s] = true
		}
	}
	// spec functions and lemmas, to a fixpoint
	var sfs []*sfDef
	seen := map[string]bool{}
	var lems []*Term
	lemSeen := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, key := range w.Specs.SOrder {
			sf := w.Specs.SFuncs[key]
			n := sfName(sf)
			if seen[key] || !syms[n] && !syms[n+"~lim"] {
				continue
			}
			d, err := w.sfDefOf(key)
			if err != nil {
				return "", err
			}
			seen[key] = true
			changed = true
			if sf.Opaque && !strings.HasPrefix(c.fn.Key, "lemma ") && !strings.HasPrefix(c.fn.Key, "spec function") {
				d = &sfDef{name: d.name, args: d.args, ret: d.ret}
			}
			sfs = append(sfs, d)
			for s := range d.symdeps {
				syms[s] = true
			}
		}
		if strings.HasPrefix(c.fn.Key, "spec function") {
			continue
		}
		for i, key := range w.Specs.LOrder {
			l := w.Specs.Lemmas[key]
			if !l.Auto || lemSeen[key] || c.lemmaSelf >= 0 && i >= c.lemmaSelf {
				continue
			}
			ok, err := w.triggersPresent(l, syms)
			if err != nil {
				return "", err
			}
			if !ok {
				continue
			}
			t, err := w.lemmaStmt(l)
			if err != nil {
				return "", err
			}
			lemSeen[key] = true
			c.used["lemma:"+key] = true
			changed = true
			lems = append(lems, t)
			add(t)
		}
	}
	var b strings.Builder
	b.WriteString(prelude)
	if syms["pow2"] || syms["flog2"] {
		b.WriteString(preludePow2)
	}
	b.WriteString(preludeFloat)
	for _, o := range []struct{ op, text string }{{"fmul", preludeFMul}, {"fceil", preludeFCeil}, {"ffloor", preludeFFloor}, {"flog2", preludeFLog2}} {
		if syms[o.op] {
			b.WriteString(o.text)
		}
	}
	var ops []string
	for s := range w.opaque {
		ops = append(ops, s)
	}
	sort.Strings(ops)
	for _, s := range ops {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, n := range w.dorder {
		d := w.dtypes[n]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", n, n)
		for _, f := range d.Fields {
			fmt.Fprintf(&b, " (%s!%s %s)", n, f.Name(), w.sortOf(f.Type()))
		}
		b.WriteString("))))\n")
	}
	var names []string
	var lits []string
	for s := range syms {
		if _, ok := c.decls[s]; ok {
			names = append(names, s)
		} else if strings.HasPrefix(s, "fl_") {
			lits = append(lits, s)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", s, c.decls[s])
	}
	zero := floatLit(0).Op
	hasZero := false
	for _, s := range lits {
		if s == zero {
			hasZero = true
		}
	}
	if !hasZero {
		lits = append(lits, zero)
	}
	sort.Slice(lits, func(i, j int) bool {
		a, _ := floatLitVal(lits[i])
		c, _ := floatLitVal(lits[j])
		return a < c
	})
	for i, s := range lits {
		v, _ := floatLitVal(s)
		fmt.Fprintf(&b, "(declare-fun %s () F64)\n(assert (not (fnan %s)))\n", s, s)
		if v == 0 {
			fmt.Fprintf(&b, "(assert (= (fkey %s) 0))\n", s)
		}
		if i > 0 {
			p, _ := floatLitVal(lits[i-1])
			if p < v {
				fmt.Fprintf(&b, "(assert (< (fkey %s) (fkey %s)))\n", lits[i-1], s)
			}
		}
		if v == math.Trunc(v) && math.Abs(v) < 1e9 {
			fmt.Fprintf(&b, "(assert (= (i2f %s) %s))\n(assert (= (f2i %s) %s))\n", intT(int64(v)), s, s, intT(int64(v)))
		}
	}
	// strings
	var strs []string
	w.strMu.Lock()
	defer w.strMu.Unlock()
	for s := range syms {
		v, ok := w.strs[s]
		if !ok {
			continue
		}
		strs = append(strs, s)
		if _, ok := c.decls[s]; !ok {
			fmt.Fprintf(&b, "(declare-fun %s () Str)\n(assert (= (slen %s) %d))\n", s, s, len(v))
		}
	}
	sort.Strings(strs)
	if len(strs) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(strs, " "))
	}
	for _, s := range strs {
		v := w.strs[s]
		if len(v) <= 32 {
			for i := 0; i < len(v); i++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", s, i, v[i])
			}
		}
	}
	var boxes []string
	for u := range c.used {
		if strings.HasPrefix(u, "box:") {
			boxes = append(boxes, u)
		}
	}
	sort.Strings(boxes)
	for _, u := range boxes {
		p := strings.SplitN(u[4:], ":", 2)
		k := strings.LastIndex(p[1], ":")
		srt, tag := p[1][:k], p[1][k+1:]
		t := p[0]
		fmt.Fprintf(&b, "(declare-fun box_%s (%s) Int)\n(declare-fun unbox_%s (Int) %s)\n", t, srt, t, srt)
		fmt.Fprintf(&b, "(assert (forall ((v %s)) (! (and (= (unbox_%s (box_%s v)) v) (= (typetag (box_%s v)) %s) (< 0 (box_%s v))) :pattern ((box_%s v)))))\n", srt, t, t, t, tag, t, t)
	}
	for _, d := range sfs {
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", d.name, strings.Join(d.args, " "), d.ret)
		if d.rec {
			fmt.Fprintf(&b, "(declare-fun %s~lim (%s) %s)\n", d.name, strings.Join(d.args, " "), d.ret)
		}
	}
	for _, d := range sfs {
		for _, a := range d.axioms {
			fmt.Fprintf(&b, "(assert %s)\n", a)
		}
	}
	for _, l := range lems {
		fmt.Fprintf(&b, "(assert %s)\n", l)
	}
	hyps, binds, goal := peel(o.Goal)
	for _, bd := range binds {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", bd.Name, bd.Sort)
	}
	known := map[string]bool{}
	for _, h := range hyps {
		known[h.String()] = true
		fmt.Fprintf(&b, "(assert %s)\n", h)
	}
	for _, f := range facts {
		if f = underHyps(f, known); f != nil {
			fmt.Fprintf(&b, "(assert %s)\n", f)
		}
	}
	// a part of a goal may lack the terms its quantifier is triggered by: name them
	nk := 0
	for g := o.Goal; ; {
		if g.Op == "=>" && len(g.Args) == 2 {
			g = g.Args[1]
			continue
		}
		if g.Op != "forall" {
			break
		}
		if len(g.Pats) > 0 {
			for _, p := range g.Pats[0] {
				s := p.String()
				if p.Sort == "" || strings.Contains(goal.String(), s) {
					continue
				}
				fmt.Fprintf(&b, "(declare-fun keep~%d (%s) Bool)\n(assert (keep~%d %s))\n", nk, p.Sort, nk, s)
				nk++
			}
		}
		g = g.Args[0]
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", goal)
	return b.String(), nil
}

// peel splits a goal A ⇒ ∀x. B ⇒ C into hypotheses A, B, constants x and the goal C.
func peel(g *Term) (hyps []*Term, binds []Bind, goal *Term) {
	for {
		switch {
		case g.Op == "=>" && len(g.Args) == 2:
			hyps = append(hyps, flatAnd(g.Args[0])...)
			g = g.Args[1]
		case g.Op == "forall":
			binds = append(binds, g.Binds...)
			g = g.Args[0]
		default:
			return hyps, binds, g
		}
	}
}

func flatAnd(t *Term) []*Term {
	if t.Op != "and" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, flatAnd(a)...)
	}
	return out
}

// underHyps simplifies a guarded fact under known hypotheses; nil when a guard is known to be false.
func underHyps(f *Term, known map[string]bool) *Term {
	for f.Op == "=>" && len(f.Args) == 2 {
		var keep []*Term
		for _, a := range flatAnd(f.Args[0]) {
			if a.Op == "not" && known[a.Args[0].String()] {
				return nil
			}
			if !known[a.String()] {
				keep = append(keep, a)
			}
		}
		if len(keep) > 0 {
			return implies(and(keep...), f.Args[1])
		}
		f = f.Args[1]
	}
	return f
}

// ---- solvers ----

type solverCfg struct {
	name string
	argv []string
	pre  string
	abs  bool // on the abstracted query
}

func solverCfgs(sec int) []solverCfg {
	t := fmt.Sprint(sec)
	ms := fmt.Sprint(sec * 1000)
	return []solverCfg{
		{"z3-4.8/ematch", []string{"z3", "-in", "-T:" + t, "auto_config=false", "smt.mbqi=false", "smt.phase_selection=0"}, "", false},
		{"z3-4.8/phase", []string{"z3", "-in", "-T:" + t, "auto_config=false", "smt.mbqi=false"}, "", false},
		{"cvc5-1.1", []string{"cvc5", "--tlimit=" + ms, "--lang=smt2"}, "", false},
		{"z3-5.3/ematch", []string{"z3-new", "-in", "-T:" + t, "auto_config=false", "smt.mbqi=false", "smt.case_split=3"}, "", false},
		{"z3-4.8/arith2", []string{"z3", "-in", "-T:" + t, "auto_config=false", "smt.mbqi=false", "smt.arith.solver=2"}, "", false},
		{"z3-4.8/abs", []string{"z3", "-in", "-T:" + t, "auto_config=false", "smt.mbqi=false"}, "", true},
		{"z3-5.3/auto", []string{"z3-new", "-in", "-T:" + t, "smt.random_seed=7"}, "", false},
	}
}

func seedCfgs(sec int) (cfgs []solverCfg) {
	z := func(opts ...string) {
		cfgs = append(cfgs, solverCfg{"z3-4.8/ematch", append([]string{"z3", "-in", "-T:" + fmt.Sprint(sec), "auto_config=false", "smt.mbqi=false"}, opts...), "", false})
	}
	cfgs = append(cfgs, solverCfg{"z3-5.3/ematch", []string{"z3-new", "-in", "-T:" + fmt.Sprint(sec), "auto_config=false", "smt.mbqi=false"}, "", false})
	z("smt.array.extensional=false", "smt.case_split=3", "smt.phase_selection=0")
	z("smt.array.extensional=false", "smt.arith.nl=false") // products left uninterpreted
	z("smt.array.extensional=false", "smt.arith.solver=2", "smt.phase_selection=0")
	z("smt.arith.solver=2", "smt.phase_selection=0")
	z("smt.case_split=3", "smt.phase_selection=0")
	for k := 1; k <= 4; k++ {
		z(fmt.Sprint("smt.random_seed=", k), fmt.Sprint("smt.phase_selection=", 3*(k%2)))
	}
	return cfgs
}

var solverCalls int64
var solverNanos int64

func runSolver(ctx context.Context, cfg solverCfg, text string, sec int) (string, string) {
	cctx, cancel := context.WithTimeout(ctx, time.Duration(sec+3)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, cfg.argv[0], cfg.argv[1:]...)
	cmd.Stdin = strings.NewReader(cfg.pre + text)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	s := out.String()
	first := ""
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, s
	}
	if strings.Contains(s, "(error") || strings.Contains(s, "rror:") {
		if len(s) > 400 {
			s = s[:400]
		}
		return "error", s
	}
	return "timeout", s
}

type job struct {
	o      *Obl
	text   string
	abs    string
	ctx    context.Context
	cancel func()
}

// pastDeadline also stops the provers once the harness has shown the violation on the running code.
func pastDeadline(d time.Time) bool { return refuted.Load() || time.Now().After(d) }

var refuted atomic.Bool

// race runs every configuration on every job, in parallel; the first proof of a job stops its others.
func race(jobs []*job, cfgs []solverCfg, sec int, deadline time.Time) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, runtime.NumCPU())
	for _, j := range jobs {
		j.ctx, j.cancel = context.WithCancel(context.Background())
		j.abs = abstractNL(j.text)
	}
	for _, cfg := range cfgs {
		for _, j := range jobs {
			text := j.text
			if cfg.abs {
				if text = j.abs; text == "" {
					continue
				}
			}
			wg.Add(1)
			sem <- struct{}{}
			go func(j *job, cfg solverCfg) {
				defer func() { <-sem; wg.Done() }()
				if j.ctx.Err() != nil || pastDeadline(deadline) {
					return
				}
				t0 := time.Now()
				r, out := runSolver(j.ctx, cfg, text, sec)
				if cfg.abs && r == "sat" {
					r = "unknown"
				}
				mu.Lock()
				defer mu.Unlock()
				j.o.Seconds += time.Since(t0).Seconds()
				if j.ctx.Err() != nil {
					return
				}
				switch {
				case r == "unsat":
					j.o.Status, j.o.Backend = "proved", cfg.name
					j.cancel()
				case r == "sat":
					j.o.Status, j.o.Backend, j.o.Detail = "failed", cfg.name, cfg.name+": sat"
					j.cancel()
				case r == "error":
					j.o.Detail = cfg.name + ": " + out
				}
			}(j, cfg)
		}
	}
	wg.Wait()
	for _, j := range jobs {
		j.cancel()
		if j.o.Status == "" {
			j.o.Status = "unknown"
		}
	}
}

// Discharge runs the portfolio on every obligation.
func (w *World) Discharge(obls []*Obl, tier string, deadline time.Time) error {
	var jobs []*job
	for _, o := range obls {
		if o.Goal.Op == "true" {
			o.Status, o.Backend = "proved", "simplifier"
			continue
		}
		t, err := w.Query(o)
		if err != nil {
			return err
		}
		jobs = append(jobs, &job{o: o, text: t})
	}
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.MkdirAll(d, 0755)
		for i, j := range jobs {
			os.WriteFile(fmt.Sprintf("%s/%04d.smt2", d, i), []byte("; "+j.o.Name+"\n; "+j.o.Pos+"\n"+j.text), 0644)
		}
	}
	if f := os.Getenv("GOVER_OBL"); f != "" && tier == "dev" { // while developing: only obligations whose name contains one of these
		var k []*job
		for _, j := range jobs {
			j.o.Status = "skipped"
			for _, x := range strings.Split(f, "|") {
				if strings.Contains(j.o.Name, x) {
					j.o.Status = ""
					k = append(k, j)
					break
				}
			}
		}
		jobs = k
	}
	t1, t2 := 5, 12
	if tier == "thorough" {
		t1, t2 = 10, 40
	}
	round := func(js []*job, cfgs func(j *job) []solverCfg, sec int) {
		var wg sync.WaitGroup
		sem := make(chan struct{}, runtime.NumCPU())
		for _, j := range js {
			wg.Add(1)
			sem <- struct{}{}
			go func(j *job) {
				defer func() { <-sem; wg.Done() }()
				for _, cfg := range cfgs(j) {
					if pastDeadline(deadline) {
						return
					}
					t0 := time.Now()
					r, out := runSolver(context.Background(), cfg, j.text, sec)
					j.o.Seconds += time.Since(t0).Seconds()
					if r == "unsat" {
						j.o.Status, j.o.Backend = "proved", cfg.name
						return
					}
					if r == "error" {
						j.o.Detail = cfg.name + ": " + out
					} else if j.o.Detail == "" || r == "sat" {
						j.o.Detail = cfg.name + ": " + r
					}
					if r == "sat" {
						j.o.Status = "failed"
						j.o.Backend = cfg.name
						return
					}
				}
				if j.o.Status == "" {
					j.o.Status = "unknown"
				}
			}(j)
		}
		wg.Wait()
	}
	var first, covers []*job
	for _, j := range jobs {
		if j.o.Cover {
			covers = append(covers, j)
		} else {
			first = append(first, j)
		}
	}
	round(covers, func(*job) []solverCfg { return solverCfgs(1)[:1] }, 1)
	if tier == "quick" || tier == "own" || tier == "" || tier == "thorough" {
		round(first, func(*job) []solverCfg { return solverCfgs(t1)[:1] }, t1)
		// E-matching is sensitive to the order in which it splits cases: other seeds, briefly
		var again []*job
		for _, j := range first {
			if j.o.Status == "unknown" {
				again = append(again, j)
			}
		}
		if len(again) <= 60 {
			round(again, func(*job) []solverCfg { return seedCfgs(2) }, 2)
		}
	}
	if tier == "dev" {
		round(first, func(*job) []solverCfg { return append(solverCfgs(3)[:1:1], seedCfgs(3)[:4]...) }, 3)
	}
	var rest []*job
	for _, j := range first {
		if j.o.Status == "unknown" || j.o.Status == "" {
			rest = append(rest, j)
		}
	}
	sort.SliceStable(rest, func(a, b int) bool { return len(rest[a].text) < len(rest[b].text) })
	if len(rest) > 40 { // a broken function: the shortest failing obligations decide
		rest = rest[:40]
	}
	if tier == "dev" {
		rest = nil
	}
	race(rest, solverCfgs(t2)[1:], t2, deadline)
	if tier != "cand" && tier != "own" && tier != "dev" { // a few stubborn ones: more time, more seeds
		var last []*job
		for _, j := range first {
			if j.o.Status == "unknown" && (strings.Contains(j.o.Detail, "timeout") || tier == "thorough") {
				last = append(last, j)
			}
		}
		if len(last) > 0 && len(last) <= 4 {
			for _, j := range last {
				j.o.Status = ""
			}
			race(last, append(seedCfgs(30), solverCfgs(30)[1:]...), 30, deadline)
		}
	}
	for _, j := range jobs {
		if j.o.Status == "" {
			j.o.Status = "unknown"
		}
	}
	if tier == "thorough" { // a second, independent back end confirms what the first accepted
		var done []*job
		for _, j := range first {
			if j.o.Status == "proved" && strings.HasPrefix(j.o.Backend, "z3") {
				done = append(done, j)
			}
		}
		var wg sync.WaitGroup
		sem := make(chan struct{}, runtime.NumCPU())
		for _, j := range done {
			wg.Add(1)
			sem <- struct{}{}
			go func(j *job) {
				defer func() { <-sem; wg.Done() }()
				if pastDeadline(deadline) {
					return
				}
				r, _ := runSolver(context.Background(), solverCfgs(10)[2], j.text, 10)
				if r == "unsat" {
					j.o.Backend += "+cvc5-1.1"
				}
			}(j)
		}
		wg.Wait()
	}
	return nil
}

// modelHints asks for integer values of the parameters in a candidate counterexample.
func (w *World) modelHints(o *Obl) []string {
	text, err := w.Query(o)
	if err != nil {
		return nil
	}
	cfg := solverCfg{"z3", []string{"z3-new", "-in", "-T:4", "auto_config=false", "smt.mbqi=false", "model=true"}, "", false}
	_, out := runSolver(context.Background(), cfg, text+"(get-model)\n", 4)
	var hints []string
	lines := strings.Split(out, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(define-fun ") && strings.HasSuffix(l, "() Int") && i+1 < len(lines) {
			v := strings.TrimSpace(strings.TrimRight(strings.TrimSpace(lines[i+1]), ")"))
			v = strings.ReplaceAll(strings.ReplaceAll(v, "(- ", "-"), ")", "")
			if len(v) > 0 && len(v) < 21 && !strings.Contains(v, " ") {
				hints = append(hints, v)
			}
		}
	}
	sort.Strings(hints)
	var u []string
	for _, h := range hints {
		if len(u) == 0 || u[len(u)-1] != h {
			u = append(u, h)
		}
	}
	if len(u) > 60 {
		u = u[:60]
	}
	return u
}

var _ = types.Typ
