package main

// First-order terms, printed as SMT-LIB 2.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type Bind struct {
	Name string
	Sort string
}

type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	Binds []Bind    // forall / exists / let-free
	Pats  [][]*Term // triggers
	str   string
	syms  map[string]bool
}

func mk(sort, op string, args ...*Term) *Term { return &Term{Op: op, Args: args, Sort: sort} }
func sym(name, sort string) *Term             { return &Term{Op: name, Sort: sort} }

var tTrue = sym("true", "Bool")
var tFalse = sym("false", "Bool")

func intT(i int64) *Term { return bigT(big.NewInt(i)) }
func bigT(b *big.Int) *Term {
	if b.Sign() < 0 {
		return &Term{Op: "(- " + new(big.Int).Neg(b).String() + ")", Sort: "Int"}
	}
	return &Term{Op: b.String(), Sort: "Int"}
}

// intLit reports the value of an integer literal term.
func intLit(t *Term) (*big.Int, bool) {
	if t.Sort != "Int" || len(t.Args) > 0 || t.Binds != nil {
		return nil, false
	}
	s := t.Op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	if s == "" || s[0] < '0' || s[0] > '9' {
		return nil, false
	}
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		b.Neg(b)
	}
	return b, true
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var b strings.Builder
	switch {
	case t.Op == "forall" || t.Op == "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Binds {
			b.WriteString("(" + v.Name + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(t.Args[0].String())
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(x.String())
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	case len(t.Args) == 0:
		b.WriteString(t.Op)
	default:
		b.WriteString("(" + t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			b.WriteString(a.String())
		}
		b.WriteByte(')')
	}
	t.str = b.String()
	return t.str
}

// Syms returns the set of symbols occurring in t.
func (t *Term) Syms() map[string]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[string]bool{}
	if t.Op != "forall" && t.Op != "exists" {
		if strings.HasPrefix(t.Op, "(") {
			for _, w := range strings.FieldsFunc(t.Op, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
				m[w] = true
			}
		} else {
			m[t.Op] = true
		}
	}
	for _, a := range t.Args {
		for k := range a.Syms() {
			m[k] = true
		}
	}
	for _, p := range t.Pats {
		for _, a := range p {
			for k := range a.Syms() {
				m[k] = true
			}
		}
	}
	t.syms = m
	return m
}

func same(a, b *Term) bool { return a == b || a.String() == b.String() }

func and(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t == tTrue || t.Op == "true" {
			continue
		}
		if t.Op == "false" {
			return tFalse
		}
		if t.Op == "and" {
			out = append(out, t.Args...)
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("Bool", "and", out...)
}
func or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "false" {
			continue
		}
		if t.Op == "true" {
			return tTrue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("Bool", "or", out...)
}
func not(t *Term) *Term {
	switch t.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.Args[0]
	}
	return mk("Bool", "not", t)
}
func implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if b.Op == "true" || a.Op == "false" {
		return tTrue
	}
	return mk("Bool", "=>", a, b)
}
func eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if x, ok := intLit(a); ok {
		if y, ok := intLit(b); ok {
			if x.Cmp(y) == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	return mk("Bool", "=", a, b)
}
func ite(c, a, b *Term) *Term {
	if c.Op == "true" || same(a, b) {
		return a
	}
	if c.Op == "false" {
		return b
	}
	return mk(a.Sort, "ite", c, a, b)
}
func cmp(op string, a, b *Term) *Term {
	x, ok1 := intLit(a)
	y, ok2 := intLit(b)
	if ok1 && ok2 {
		c := x.Cmp(y)
		r := false
		switch op {
		case "<":
			r = c < 0
		case "<=":
			r = c <= 0
		case ">":
			r = c > 0
		case ">=":
			r = c >= 0
		}
		if r {
			return tTrue
		}
		return tFalse
	}
	if same(a, b) {
		if op == "<=" || op == ">=" {
			return tTrue
		}
		return tFalse
	}
	return mk("Bool", op, a, b)
}
func lt(a, b *Term) *Term { return cmp("<", a, b) }
func le(a, b *Term) *Term { return cmp("<=", a, b) }
func add(a, b *Term) *Term {
	x, ok1 := intLit(a)
	y, ok2 := intLit(b)
	if ok1 && ok2 {
		return bigT(new(big.Int).Add(x, y))
	}
	if ok1 && x.Sign() == 0 {
		return b
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	return mk("Int", "+", a, b)
}
func sub(a, b *Term) *Term {
	x, ok1 := intLit(a)
	y, ok2 := intLit(b)
	if ok1 && ok2 {
		return bigT(new(big.Int).Sub(x, y))
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	return mk("Int", "-", a, b)
}
func mul(a, b *Term) *Term {
	x, ok1 := intLit(a)
	y, ok2 := intLit(b)
	if ok1 && ok2 {
		return bigT(new(big.Int).Mul(x, y))
	}
	if ok1 && x.IsInt64() && x.Int64() == 1 {
		return b
	}
	if ok2 && y.IsInt64() && y.Int64() == 1 {
		return a
	}
	return mk("Int", "*", a, b)
}
func pow2T(n *Term) *Term {
	if x, ok := intLit(n); ok && x.Sign() >= 0 && x.IsInt64() && x.Int64() <= 4096 {
		return bigT(new(big.Int).Lsh(big.NewInt(1), uint(x.Int64())))
	}
	return mk("Int", "pow2", n)
}
func sel(a, i *Term) *Term {
	s := elemSort(a.Sort)
	// read over write, syntactic
	for a.Op == "store" {
		if same(a.Args[1], i) {
			return a.Args[2]
		}
		x, ok1 := intLit(a.Args[1])
		y, ok2 := intLit(i)
		if ok1 && ok2 && x.Cmp(y) != 0 {
			a = a.Args[0]
			continue
		}
		break
	}
	return mk(s, "select", a, i)
}
func store(a, i, v *Term) *Term { return mk(a.Sort, "store", a, i, v) }

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func elemSort(s string) string {
	const p = "(Array Int "
	if !strings.HasPrefix(s, p) {
		panic("elemSort: " + s)
	}
	return s[len(p) : len(s)-1]
}

func forall(binds []Bind, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" {
		return tTrue
	}
	if len(binds) == 0 {
		return body
	}
	return &Term{Op: "forall", Binds: binds, Args: []*Term{body}, Pats: pats, Sort: "Bool"}
}

// slices
func sArr(s *Term) *Term { return sliceSel("s_arr", s, 0) }
func sOff(s *Term) *Term { return sliceSel("s_off", s, 1) }
func sLen(s *Term) *Term { return sliceSel("s_len", s, 2) }
func sCap(s *Term) *Term { return sliceSel("s_cap", s, 3) }
func sliceSel(f string, s *Term, i int) *Term {
	if s.Op == "mk_slice" {
		return s.Args[i]
	}
	return mk("Int", f, s)
}
func mkSlice(a, o, l, c *Term) *Term { return mk("Slice", "mk_slice", a, o, l, c) }

func ix(off, i *Term) *Term { return mk("Int", "ix", off, i) }

var nilSlice = mkSlice(intT(0), intT(0), intT(0), intT(0))

// float literals: one constant symbol per bit pattern
func floatLit(f float64) *Term {
	if f == 0 {
		f = 0 // fold -0 from source constants: Go constants have no -0
	}
	return sym(fmt.Sprintf("fl_%016x", math.Float64bits(f)), "F64")
}
func floatLitVal(s string) (float64, bool) {
	if !strings.HasPrefix(s, "fl_") || len(s) != 19 {
		return 0, false
	}
	b, err := strconv.ParseUint(s[3:], 16, 64)
	if err != nil {
		return 0, false
	}
	return math.Float64frombits(b), true
}

// subst replaces symbols by terms (capture is avoided by unique binder names).
func subst(t *Term, m map[string]*Term) *Term {
	if len(t.Args) == 0 && t.Binds == nil {
		if r, ok := m[t.Op]; ok {
			return r
		}
		return t
	}
	hit := false
	for k := range m {
		if t.Syms()[k] {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	n := &Term{Op: t.Op, Sort: t.Sort, Binds: t.Binds}
	for _, a := range t.Args {
		n.Args = append(n.Args, subst(a, m))
	}
	for _, p := range t.Pats {
		var q []*Term
		for _, a := range p {
			q = append(q, subst(a, m))
		}
		n.Pats = append(n.Pats, q)
	}
	return n
}
