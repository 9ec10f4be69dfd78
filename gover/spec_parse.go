package main

// Contract files (.gvs): lexer and parser.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type SX struct { // spec expression
	K    string // num float str id bin un fld idx call all ex ite let
	S    string
	A    []*SX
	Vars []SVarDecl
	Pats [][]*SX
	Pos  string
}

type SVarDecl struct {
	Name string
	Ty   *TyX
}

type TyX struct { // type expression
	K    string // name ptr slice row map arr
	Pkg  string
	Name string
	Elem *TyX
	Key  *TyX
	N    int64
}

type Clause struct {
	Tag  string // property tag ("" = always)
	E    *SX
	Text string
	Pos  string
}

type ModItem struct {
	Vars []SVarDecl // each-comprehension
	Cond *SX
	E    *SX    // x.f / s / type.field
	Kind string // "field","elems","elemscap","allfield","star","map","deref","elem"
	Text string
	Pos  string
}

type Hint struct {
	At   string // entry exit loop:N:entry loop:N:head loop:N:tail loop:N:after
	Kind string // apply assert ghost ghostvar
	E    *SX
	L    *SX // ghost assignment target
	Ty   *TyX
	Name string
	Tag  string
	Text string
}

type LoopSpec struct {
	Invs    []*Clause
	Mods    []*ModItem
	Decr    *SX
	HasMods bool
}

type FuncSpec struct {
	Key      string
	Pkg      string
	Trusted  bool
	Pure     bool // no heap effect and no allocation
	Recv     string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Mods     []*ModItem
	Panics   []*Clause
	Loops    map[int]*LoopSpec
	Hints    []*Hint
	GhostIn  []SVarDecl
	Uses     []string // lemmas used only here
	Pos      string
	Why      string
	Shuffle  bool
}

type PredDef struct {
	Name   string
	Pkg    string
	Params []SVarDecl
	Body   *SX
}

type SpecFunc struct {
	Name   string
	Pkg    string
	Params []SVarDecl
	Ret    *TyX
	Decr   *SX    // termination measure of a recursive definition
	Body   *SX    // nil: uninterpreted
	Each   string // the body gives element Each of a row
	Opaque bool   // the definition is used in lemmas only
}

type Lemma struct {
	Name     string
	Pkg      string
	Params   []SVarDecl
	Induct   string
	General  bool
	Requires []*SX
	Ensures  []*SX
	Pats     [][]*SX
	Auto     bool
	Axiom    bool
	Hints    []*Hint
	Uses     []string
	Text     string
}

type GhostField struct {
	Pkg, Type, Field string
	Ty               *TyX
}

type Specs struct {
	Funcs  map[string]*FuncSpec
	Preds  map[string]*PredDef // pkg.name
	SFuncs map[string]*SpecFunc
	SOrder []string
	Lemmas map[string]*Lemma
	LOrder []string
	Ghosts map[string]*GhostField // pkg.Type.field
}

type tok struct {
	k, s string // k: id num float str op eof
	line int
	off  int
	end  int
}

type parser_ struct {
	file string
	src  string
	toks []tok
	p    int
	pkg  string
	out  *Specs
	bn   int
}

func lexSpec(file, src string) ([]tok, error) {
	var ts []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line, i, j})
			i = j
		case c >= '0' && c <= '9':
			j := i
			k := "num"
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] == '.' || src[j] == '_' || src[j] >= 'a' && src[j] <= 'f' && strings.HasPrefix(src[i:], "0x")) {
				if src[j] == '.' {
					k = "float"
				}
				j++
			}
			ts = append(ts, tok{k, strings.ReplaceAll(src[i:j], "_", ""), line, i, j})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j], line, i, j + 1})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "[*]", "..."}
			found := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					found = o
					break
				}
			}
			if found == "" {
				found = string(c)
			}
			ts = append(ts, tok{"op", found, line, i, i + len(found)})
			i += len(found)
		}
	}
	ts = append(ts, tok{"eof", "", line, len(src), len(src)})
	return ts, nil
}

type specErr struct{ msg string }

func (p *parser_) fail(f string, a ...interface{}) {
	t := p.toks[p.p]
	panic(specErr{fmt.Sprintf("%s:%d: %s (at %q)", p.file, t.line, fmt.Sprintf(f, a...), t.s)})
}
func (p *parser_) cur() tok { return p.toks[p.p] }
func (p *parser_) peek(n int) tok {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *parser_) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser_) is(s string) bool {
	t := p.toks[p.p]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser_) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser_) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser_) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}
func (p *parser_) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.cur().line) }

func ParseSpecs(dir string) (s *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	s = &Specs{Funcs: map[string]*FuncSpec{}, Preds: map[string]*PredDef{}, SFuncs: map[string]*SpecFunc{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]*GhostField{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvs"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contract files in %s", dir)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		toks, err := lexSpec(f, string(b))
		if err != nil {
			return nil, err
		}
		p := &parser_{file: f, src: string(b), toks: toks, out: s}
		p.parseFile()
	}
	return s, nil
}

func (p *parser_) typ() *TyX {
	switch {
	case p.accept("*"):
		return &TyX{K: "ptr", Elem: p.typ()}
	case p.accept("["):
		if p.cur().k == "num" {
			var n int64
			fmt.Sscan(p.next().s, &n)
			p.expect("]")
			return &TyX{K: "arr", N: n, Elem: p.typ()}
		}
		p.expect("]")
		return &TyX{K: "slice", Elem: p.typ()}
	}
	n := p.ident()
	if n == "row" {
		p.expect("[")
		e := p.typ()
		p.expect("]")
		return &TyX{K: "row", Elem: e}
	}
	if n == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TyX{K: "map", Key: k, Elem: p.typ()}
	}
	if p.accept(".") {
		return &TyX{K: "name", Pkg: n, Name: p.ident()}
	}
	return &TyX{K: "name", Name: n}
}

func (p *parser_) varDecls(stop string) []SVarDecl {
	var out []SVarDecl
	var pend []string
	if p.is(stop) {
		return nil
	}
	for {
		pend = append(pend, p.ident())
		if p.accept(",") {
			continue
		}
		t := p.typ()
		for _, n := range pend {
			out = append(out, SVarDecl{n, t})
		}
		pend = nil
		if p.accept(",") {
			continue
		}
		return out
	}
}

func (p *parser_) parseFile() {
	for p.cur().k != "eof" {
		switch {
		case p.accept("package"):
			p.pkg = p.ident()
		case p.accept("ghost"):
			p.expect("field")
			t := p.ident()
			p.expect(".")
			f := p.ident()
			key := p.pkg + "." + t
			if p.accept(".") { // type of another package
				key, f = t+"."+f, p.ident()
			}
			g := &GhostField{p.pkg, t, f, p.typ()}
			p.out.Ghosts[key+"."+f] = g
		case p.accept("pred"):
			n := p.ident()
			p.expect("(")
			ps := p.varDecls(")")
			p.expect(")")
			p.expect("=")
			if _, dup := p.out.Preds[p.pkg+"."+n]; dup {
				p.fail("duplicate pred %s", n)
			}
			p.out.Preds[p.pkg+"."+n] = &PredDef{n, p.pkg, ps, p.expr()}
		case p.is("spec") || p.is("opaque"):
			opaque := p.accept("opaque")
			p.expect("spec")
			p.expect("func")
			n := p.ident()
			p.expect("(")
			ps := p.varDecls(")")
			p.expect(")")
			t := p.typ()
			sf := &SpecFunc{Name: n, Pkg: p.pkg, Params: ps, Ret: t, Opaque: opaque}
			if p.accept("decreases") {
				sf.Decr = p.expr()
			}
			if _, dup := p.out.SFuncs[p.pkg+"."+n]; dup {
				p.fail("duplicate spec func %s", n)
			}
			p.out.SOrder = append(p.out.SOrder, p.pkg+"."+n)
			if p.accept("each") {
				sf.Each = p.ident()
			}
			if p.accept("=") {
				sf.Body = p.expr()
			}
			p.out.SFuncs[p.pkg+"."+n] = sf
		case p.is("axiom") || p.is("lemma"):
			p.lemma()
		case p.is("func") || p.is("trusted"):
			p.fun()
		default:
			p.fail("declaration expected")
		}
	}
}

func (p *parser_) pats() [][]*SX {
	var out [][]*SX
	for p.accept("{") {
		var q []*SX
		for {
			q = append(q, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		out = append(out, q)
	}
	return out
}

func (p *parser_) lemma() {
	l := &Lemma{Pkg: p.pkg}
	start := p.cur().off
	l.Axiom = p.next().s == "axiom"
	l.Name = p.ident()
	p.expect("(")
	l.Params = p.varDecls(")")
	p.expect(")")
	for {
		switch {
		case p.accept("induction"):
			l.Induct = p.ident()
		case p.accept("generalize"):
			l.General = true
		case p.accept("auto"):
			l.Auto = true
			l.Pats = p.pats()
		case p.accept("requires"):
			l.Requires = append(l.Requires, p.expr())
		case p.accept("ensures"):
			l.Ensures = append(l.Ensures, p.expr())
		case p.accept("uses"):
			l.Uses = append(l.Uses, p.ident())
			for p.accept(",") {
				l.Uses = append(l.Uses, p.ident())
			}
		case p.is("apply") || p.is("assert"):
			h := &Hint{At: "entry", Kind: p.next().s}
			h.E = p.expr()
			l.Hints = append(l.Hints, h)
		default:
			l.Text = strings.Join(strings.Fields(p.src[start:p.toks[p.p-1].end]), " ")
			if _, dup := p.out.Lemmas[l.Pkg+"."+l.Name]; dup {
				p.fail("duplicate lemma %s", l.Name)
			}
			p.out.Lemmas[l.Pkg+"."+l.Name] = l
			p.out.LOrder = append(p.out.LOrder, l.Pkg+"."+l.Name)
			return
		}
	}
}

func (p *parser_) tag() string {
	if p.accept("@") {
		return p.ident()
	}
	return ""
}

func (p *parser_) clause() *Clause {
	c := &Clause{Pos: p.pos()}
	c.Tag = p.tag()
	s := p.cur().off
	c.E = p.expr()
	c.Text = strings.Join(strings.Fields(p.src[s:p.toks[p.p-1].end]), " ")
	return c
}

func (p *parser_) fun() {
	f := &FuncSpec{Pkg: p.pkg, Loops: map[int]*LoopSpec{}, Pos: p.pos()}
	if p.accept("trusted") {
		f.Trusted = true
	}
	p.expect("func")
	if p.accept("(") { // receiver
		f.Recv = p.ident()
		p.accept("*")
		t := p.ident()
		if p.accept(".") {
			t = t + "." + p.ident()
		} else {
			t = p.pkg + "." + t
		}
		p.expect(")")
		f.Key = t + "." + p.ident()
	} else {
		n := p.ident()
		if p.accept(".") {
			m := p.ident()
			f.Key = n + "." + m
			if p.accept("[") { // specialised by static argument type: heap.Push[*pkg.T]
				ptr := ""
				if p.accept("*") {
					ptr = "*"
				}
				a := p.ident()
				p.expect(".")
				b := p.ident()
				p.expect("]")
				f.Key += "[" + ptr + a + "." + b + "]"
			}
		} else {
			f.Key = p.pkg + "." + n
		}
	}
	names := func() []string {
		var out []string
		p.expect("(")
		for !p.accept(")") {
			p.accept("...")
			out = append(out, p.ident())
			if !p.is(",") && !p.is(")") {
				p.typ()
			}
			p.accept(",")
		}
		return out
	}
	f.Params = names()
	if p.is("(") {
		f.Results = names()
	}
	var loop *LoopSpec
	for {
		switch {
		case p.accept("requires"):
			f.Requires = append(f.Requires, p.clause())
		case p.accept("ensures"):
			f.Ensures = append(f.Ensures, p.clause())
		case p.accept("panics"):
			f.Panics = append(f.Panics, p.clause())
		case p.accept("pure"):
			f.Pure = true
		case p.accept("why"):
			f.Why = p.next().s
		case p.accept("ghostin"):
			f.GhostIn = append(f.GhostIn, SVarDecl{p.ident(), p.typ()})
		case p.accept("uses"):
			f.Uses = append(f.Uses, p.ident())
			for p.accept(",") {
				f.Uses = append(f.Uses, p.ident())
			}
		case p.accept("modifies"):
			var items []*ModItem
			if !p.accept("nothing") {
				for {
					items = append(items, p.modItem())
					if !p.accept(",") {
						break
					}
				}
			}
			if loop != nil {
				loop.Mods = append(loop.Mods, items...)
				loop.HasMods = true
			} else {
				f.Mods = append(f.Mods, items...)
			}
		case p.accept("loop"):
			var n int
			fmt.Sscan(p.next().s, &n)
			loop = &LoopSpec{}
			f.Loops[n] = loop
		case p.accept("invariant"):
			if loop == nil {
				p.fail("invariant outside loop")
			}
			loop.Invs = append(loop.Invs, p.clause())
		case p.accept("decreases"):
			loop.Decr = p.expr()
		case p.accept("at"):
			h := &Hint{}
			if p.accept("loop") {
				n := p.next().s
				h.At = "loop:" + n + ":" + p.ident()
			} else if p.accept("call") {
				k := p.ident()
				for p.accept(".") {
					k += "." + p.ident()
				}
				h.At = "call:" + k + ":" + p.ident()
			} else {
				h.At = p.ident()
				if h.At == "return" {
					h.At = "exit"
				}
			}
			s := p.cur().off
			switch {
			case p.accept("apply"):
				h.Kind = "apply"
				h.Tag = p.tag()
				h.E = p.expr()
			case p.accept("assert"):
				h.Kind = "assert"
				h.Tag = p.tag()
				h.E = p.expr()
			case p.accept("check"):
				h.Kind = "check"
				h.Tag = p.tag()
				h.E = p.expr()
			case p.accept("assume"):
				h.Kind = "assume"
				h.Tag = p.tag()
				h.E = p.expr()
			case p.accept("ghost"):
				if p.accept("var") {
					h.Kind = "ghostvar"
					h.Name = p.ident()
					h.Ty = p.typ()
					p.expect("=")
					h.E = p.expr()
				} else {
					h.Kind = "ghost"
					h.L = p.expr()
					p.expect(":=")
					h.E = p.expr()
				}
			default:
				p.fail("hint expected")
			}
			h.Text = strings.Join(strings.Fields(p.src[s:p.toks[p.p-1].end]), " ")
			f.Hints = append(f.Hints, h)
		default:
			if _, dup := p.out.Funcs[f.Key]; dup {
				p.fail("duplicate contract for %s", f.Key)
			}
			p.out.Funcs[f.Key] = f
			return
		}
	}
}

func (p *parser_) modItem() *ModItem {
	m := &ModItem{Pos: p.pos()}
	s := p.cur().off
	if p.accept("each") {
		m.Vars = p.varDecls("::")
		p.expect("::")
		m.Cond = p.expr()
		p.expect("::")
	}
	if p.accept("when") {
		m.Cond = p.expr()
		p.expect("::")
	}
	if p.accept("all") {
		m.Kind = "allfield"
		m.E = p.postfix()
	} else if p.accept("*") {
		m.Kind = "deref"
		m.E = p.postfix()
	} else {
		m.E = p.postfix()
		switch {
		case p.accept("[*]"):
			m.Kind = "elems"
			if p.accept("cap") {
				m.Kind = "elemscap"
			}
		case p.is("."):
			p.fail("bad modifies item")
		case m.E.K == "fld":
			m.Kind = "field"
		case m.E.K == "idx":
			m.Kind = "elem"
		case m.E.K == "id":
			m.Kind = "global"
		default:
			p.fail("bad modifies item")
		}
	}
	m.Text = strings.Join(strings.Fields(p.src[s:p.toks[p.p-1].end]), " ")
	return m
}

// ---- expressions ----

func (p *parser_) expr() *SX {
	pos := p.pos()
	if p.is("forall") || p.is("exists") {
		k := "all"
		if p.next().s == "exists" {
			k = "ex"
		}
		vs := p.varDecls("::")
		p.expect("::")
		pats := p.pats()
		return &SX{K: k, Vars: vs, Pats: pats, A: []*SX{p.expr()}, Pos: pos}
	}
	if p.accept("if") {
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		return &SX{K: "ite", A: []*SX{c, a, p.expr()}, Pos: pos}
	}
	if p.accept("let") {
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		return &SX{K: "let", S: n, A: []*SX{v, p.expr()}, Pos: pos}
	}
	return p.iff()
}
func (p *parser_) bin(op string, a, b *SX, pos string) *SX {
	return &SX{K: "bin", S: op, A: []*SX{a, b}, Pos: pos}
}
func (p *parser_) iff() *SX {
	pos := p.pos()
	l := p.imp()
	for p.accept("<==>") {
		l = p.bin("<==>", l, p.imp(), pos)
	}
	return l
}
func (p *parser_) quantStart() bool {
	return p.is("forall") || p.is("exists") || p.is("if") || p.is("let")
}
func (p *parser_) imp() *SX {
	pos := p.pos()
	l := p.orE()
	if p.accept("==>") {
		if p.quantStart() {
			return p.bin("==>", l, p.expr(), pos)
		}
		return p.bin("==>", l, p.imp(), pos)
	}
	return l
}
func (p *parser_) orE() *SX {
	pos := p.pos()
	l := p.andE()
	for p.accept("||") {
		if p.quantStart() {
			return p.bin("||", l, p.expr(), pos)
		}
		l = p.bin("||", l, p.andE(), pos)
	}
	return l
}
func (p *parser_) andE() *SX {
	pos := p.pos()
	l := p.cmpE()
	for p.accept("&&") {
		if p.quantStart() {
			return p.bin("&&", l, p.expr(), pos)
		}
		l = p.bin("&&", l, p.cmpE(), pos)
	}
	return l
}
func (p *parser_) cmpOp() bool {
	for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
		if p.cur().k == "op" && p.cur().s == o {
			return true
		}
	}
	return false
}
func (p *parser_) cmpE() *SX {
	pos := p.pos()
	l := p.addE()
	var out *SX
	for p.cmpOp() {
		op := p.next().s
		r := p.addE()
		c := p.bin(op, l, r, pos)
		if out == nil {
			out = c
		} else {
			out = p.bin("&&", out, c, pos)
		}
		l = r
	}
	if out != nil {
		return out
	}
	return l
}
func (p *parser_) addE() *SX {
	pos := p.pos()
	l := p.mulE()
	for p.cur().k == "op" && (p.cur().s == "+" || p.cur().s == "-") {
		op := p.next().s
		l = p.bin(op, l, p.mulE(), pos)
	}
	return l
}
func (p *parser_) mulE() *SX {
	pos := p.pos()
	l := p.unary()
	for p.cur().k == "op" && (p.cur().s == "*" || p.cur().s == "/" || p.cur().s == "%") {
		op := p.next().s
		l = p.bin(op, l, p.unary(), pos)
	}
	return l
}
func (p *parser_) unary() *SX {
	pos := p.pos()
	if p.accept("!") {
		return &SX{K: "un", S: "!", A: []*SX{p.unary()}, Pos: pos}
	}
	if p.accept("-") {
		return &SX{K: "un", S: "-", A: []*SX{p.unary()}, Pos: pos}
	}
	if p.accept("*") { // dereference
		return &SX{K: "deref", A: []*SX{p.unary()}, Pos: pos}
	}
	return p.postfix()
}
func (p *parser_) postfix() *SX {
	pos := p.pos()
	var e *SX
	t := p.cur()
	switch {
	case t.k == "num":
		p.p++
		e = &SX{K: "num", S: t.s, Pos: pos}
	case t.k == "float":
		p.p++
		e = &SX{K: "float", S: t.s, Pos: pos}
	case t.k == "str":
		p.p++
		e = &SX{K: "str", S: t.s, Pos: pos}
	case t.k == "id":
		p.p++
		e = &SX{K: "id", S: t.s, Pos: pos}
	case p.accept("("):
		if p.accept("*") { // (*p) dereference
			x := p.postfix()
			p.expect(")")
			e = &SX{K: "deref", A: []*SX{x}, Pos: pos}
		} else {
			e = p.expr()
			p.expect(")")
		}
	default:
		p.fail("expression expected")
	}
	for {
		switch {
		case p.is(".") && p.peek(1).k == "id":
			p.p++
			e = &SX{K: "fld", S: p.ident(), A: []*SX{e}, Pos: pos}
		case p.is("["):
			p.p++
			i := p.expr()
			p.expect("]")
			e = &SX{K: "idx", A: []*SX{e, i}, Pos: pos}
		case p.is("(") && (e.K == "id" || e.K == "fld"):
			p.p++
			var args []*SX
			for !p.accept(")") {
				args = append(args, p.expr())
				if !p.is(")") {
					p.expect(",")
				}
			}
			e = &SX{K: "call", A: append([]*SX{e}, args...), Pos: pos}
		default:
			return e
		}
	}
}
