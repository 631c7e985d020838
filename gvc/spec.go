package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- spec AST ----

type E struct {
	k    string // id int str chr un bin call sel idx forall exists ite let cond
	s    string
	n    *big.Int
	a    []*E
	vars []Param
	pats [][]*E // triggers of a quantifier
	line int
	file string
}

type Param struct {
	name string
	typ  string
}

type Clause struct {
	tags  []string
	label string
	e     *E
	vars  []Param // for templates
	src   string
}

type Contract struct {
	kind      string // contract, extern, iface, fieldfn
	name      string
	params    []Param // typ unused for contract
	results   []Param
	tags      []string
	requires  []*Clause
	ensures   []*Clause
	panics    []*Clause
	mayPanic  bool
	modifies  []*E
	decreases []*E
	invs      []*Clause
	measures  []*E
	sets      []*ghostSet
	cases     []*Clause
	hints     []*Clause
	flags     map[string]bool
	defines   bool
	opaque    map[string]bool
	layer     string
	link      *E // fieldfn: what ties the holder to what the function captured; does not change
	depth     int
	recvT     types.Type
	implOf    string
	file      string
	line      int
}

// ghostSet is an assignment to ghost state made when the function returns.
type ghostSet struct {
	clause *Clause
	loc    *E
	val    *E
	when   *E
}

type Def struct {
	name   string
	params []Param
	ret    string
	body   *E
	macro  bool
	ctorAt int // -1: always unfold
	level  int // 0: as deep as the query allows
	pats   [][]*E
	file   string
}

type Axiom struct {
	name string
	vars []Param
	pats [][]*E
	body *E
	file string
}

// locSet names a list of locations.
type locSet struct {
	params []Param
	locs   []*E
}

type Ghost struct{ strct, field, typ string }

type Spec struct {
	sorts     map[string]bool
	defs      map[string]*Def // fn, def, macro
	axioms    []*Axiom
	ghosts    []Ghost
	contracts map[string]*Contract
	lemmas    []*Contract
	imm       []string
	immElems  []string
	assume    []string // textual assumptions to report
	globals   []*Clause
	consts    map[string]*E
	frozen    []string
	locsets   map[string]*locSet
	shapes    map[string]*Contract
}

// ---- lexer ----

type tok struct {
	k    string // id int str chr op eof
	s    string
	line int
	pos  int
	end  int
}

type specParser struct {
	src  string
	file string
	toks []tok
	p    int
	spec *Spec
}

var ops3 = []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "->"}

func (p *specParser) lex() {
	s := p.src
	line := 1
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				p.fail(line, "bad string "+s[i:j+1])
			}
			p.toks = append(p.toks, tok{"str", u, line, i, j + 1})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				p.fail(line, "bad char")
			}
			p.toks = append(p.toks, tok{"int", strconv.Itoa(int(u)), line, i, j + 1})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			p.toks = append(p.toks, tok{"int", s[i:j], line, i, j})
			i = j
		case isIdStart(c):
			j := i
			for j < len(s) && (isIdStart(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			p.toks = append(p.toks, tok{"id", s[i:j], line, i, j})
			i = j
		default:
			done := false
			for _, o := range ops3 {
				if strings.HasPrefix(s[i:], o) {
					p.toks = append(p.toks, tok{"op", o, line, i, i + len(o)})
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				p.toks = append(p.toks, tok{"op", string(c), line, i, i + 1})
				i++
			}
		}
	}
	p.toks = append(p.toks, tok{"eof", "", line, len(s), len(s)})
}

func isIdStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

func (p *specParser) fail(line int, msg string) {
	panic(fmt.Sprintf("%s:%d: %s", p.file, line, msg))
}
func (p *specParser) cur() tok { return p.toks[p.p] }
func (p *specParser) is(s string) bool {
	t := p.cur()
	return t.k != "str" && t.s == s
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		p.fail(p.cur().line, fmt.Sprintf("expected %q, got %q", s, p.cur().s))
	}
}
func (p *specParser) ident() string {
	t := p.cur()
	if t.k != "id" {
		p.fail(t.line, "expected identifier, got "+t.s)
	}
	p.p++
	return t.s
}

func (p *specParser) mkE(k, s string, a ...*E) *E {
	return &E{k: k, s: s, a: a, line: p.cur().line, file: p.file}
}

func (p *specParser) expr() *E {
	if p.is("let") {
		p.p++
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return p.mkE("let", n, v, b)
	}
	if p.is("forall") || p.is("exists") {
		k := p.cur().s
		p.p++
		e := p.mkE(k, "")
		for {
			n := p.ident()
			t := p.typ()
			e.vars = append(e.vars, Param{n, t})
			if !p.accept(",") {
				break
			}
		}
		// {t, …}: a trigger
		for p.accept("{") {
			var pt []*E
			for {
				pt = append(pt, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.pats = append(e.pats, pt)
		}
		p.expect("::")
		e.a = []*E{p.expr()}
		return e
	}
	return p.tern()
}

func (p *specParser) tern() *E {
	c := p.iff()
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return p.mkE("ite", "", c, a, b)
	}
	return c
}
func (p *specParser) iff() *E {
	l := p.impl()
	for p.is("<==>") {
		p.p++
		l = p.mkE("bin", "<==>", l, p.impl())
	}
	return l
}
func (p *specParser) impl() *E {
	l := p.or()
	if p.is("==>") {
		p.p++
		var r *E
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.impl()
		}
		return p.mkE("bin", "==>", l, r)
	}
	return l
}
func (p *specParser) or() *E {
	l := p.and()
	for p.is("||") {
		p.p++
		l = p.mkE("bin", "||", l, p.and())
	}
	return l
}
func (p *specParser) and() *E {
	l := p.cmp()
	for p.is("&&") {
		p.p++
		if p.is("forall") || p.is("exists") || p.is("let") {
			l = p.mkE("bin", "&&", l, p.expr())
			return l
		}
		l = p.mkE("bin", "&&", l, p.cmp())
	}
	return l
}
func (p *specParser) cmp() *E {
	l := p.add()
	for {
		switch {
		case p.is("==") || p.is("!=") || p.is("<") || p.is("<=") || p.is(">") || p.is(">="):
			o := p.cur().s
			p.p++
			r := p.add()
			e := p.mkE("bin", o, l, r)
			// chained comparison a <= b < c
			for p.is("<") || p.is("<=") {
				o2 := p.cur().s
				p.p++
				r2 := p.add()
				e = p.mkE("bin", "&&", e, p.mkE("bin", o2, r, r2))
				r = r2
			}
			return e
		default:
			return l
		}
	}
}
func (p *specParser) add() *E {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.cur().s
		p.p++
		l = p.mkE("bin", o, l, p.mul())
	}
	return l
}
func (p *specParser) mul() *E {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.cur().s
		p.p++
		l = p.mkE("bin", o, l, p.unary())
	}
	return l
}
func (p *specParser) unary() *E {
	if p.is("!") || p.is("-") || p.is("*") {
		o := p.cur().s
		p.p++
		return p.mkE("un", o, p.unary())
	}
	return p.postfix()
}
func (p *specParser) postfix() *E {
	e := p.primary()
	for {
		switch {
		case p.is("."):
			p.p++
			e = p.mkE("sel", p.ident(), e)
		case p.is("["):
			p.p++
			i := p.expr()
			p.expect("]")
			e = p.mkE("idx", "", e, i)
		case p.is("("):
			p.p++
			c := p.mkE("call", "", e)
			if !p.is(")") {
				for {
					c.a = append(c.a, p.expr())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func (p *specParser) primary() *E {
	t := p.cur()
	switch t.k {
	case "int":
		p.p++
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail(t.line, "bad int "+t.s)
		}
		e := p.mkE("int", "")
		e.n = n
		return e
	case "str":
		p.p++
		return p.mkE("str", t.s)
	case "id":
		if t.s == "cond" && p.toks[p.p+1].s == "{" {
			p.p += 2
			var cs []*E
			var els *E
			for {
				if p.accept("else") {
					p.expect("->")
					els = p.expr()
					p.accept(";")
					p.expect("}")
					break
				}
				c := p.expr()
				p.expect("->")
				v := p.expr()
				p.expect(";")
				cs = append(cs, c, v)
			}
			r := els
			for i := len(cs) - 2; i >= 0; i -= 2 {
				r = p.mkE("ite", "", cs[i], cs[i+1], r)
			}
			return r
		}
		p.p++
		return p.mkE("id", t.s)
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail(t.line, "unexpected "+t.s)
	return nil
}

// typ parses a type as text.
func (p *specParser) typ() string {
	start := p.cur().pos
	end := start
	depth := 0
	for {
		t := p.cur()
		if t.k == "eof" {
			break
		}
		if depth == 0 && (t.s == "," || t.s == ")" || t.s == ";" || t.s == "{" || t.s == "=" || t.s == "::" || t.s == ":") {
			break
		}
		if t.s == "[" || t.s == "(" {
			depth++
		}
		if t.s == "]" || t.s == ")" {
			depth--
		}
		end = t.end
		p.p++
	}
	return p.src[start:end]
}

func (p *specParser) params() []Param {
	var ps []Param
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		t := ""
		if !p.is(",") && !p.is(")") {
			t = p.typ()
		}
		ps = append(ps, Param{n, t})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return ps
}

func (p *specParser) contractName() string {
	// e.g. (*parser).parseSet, scanner.(*Scanner).next, Parse, strconv.Atoi, (*bytes.Buffer).Write
	start := p.cur().pos
	end := start
	if p.is("scanner") {
		end = p.cur().end
		p.p++
		p.expect(".")
	}
	if p.accept("(") {
		for !p.is(")") {
			p.p++
		}
		end = p.cur().end
		p.expect(")")
		p.expect(".")
		end = p.cur().end
		p.ident()
	} else {
		end = p.cur().end
		p.ident()
		for p.accept(".") {
			end = p.cur().end
			p.ident()
		}
	}
	for p.is("$") {
		p.p++
		end = p.cur().end
		p.p++
	}
	return p.src[start:end]
}

func (p *specParser) clause() *Clause {
	c := &Clause{}
	if p.accept("[") {
		for !p.is("]") {
			w := p.cur()
			p.p++
			if len(w.s) == 3 && w.s[0] == 'C' && w.s[1] >= '0' && w.s[1] <= '9' {
				c.tags = append(c.tags, w.s)
			} else {
				if c.label != "" {
					c.label += "-"
				}
				c.label += w.s
			}
		}
		p.expect("]")
	}
	return c
}

func (p *specParser) finish(c *Clause) *Clause {
	st := p.cur().pos
	c.e = p.expr()
	c.src = strings.Join(strings.Fields(p.src[st:p.cur().pos]), " ")
	p.expect(";")
	return c
}

func (p *specParser) contract(kind string) *Contract {
	c := &Contract{kind: kind, flags: map[string]bool{}, file: p.file, line: p.cur().line}
	c.name = p.contractName()
	c.params = p.params()
	if p.is("(") {
		c.results = p.params()
	}
	p.expect("{")
	for !p.accept("}") {
		kw := p.ident()
		switch kw {
		case "tags":
			for !p.accept(";") {
				c.tags = append(c.tags, p.ident())
			}
		case "requires":
			c.requires = append(c.requires, p.finish(p.clause()))
		case "ensures":
			c.ensures = append(c.ensures, p.finish(p.clause()))
		case "panics":
			c.mayPanic = true
			c.panics = append(c.panics, p.finish(p.clause()))
		case "invariant":
			c.invs = append(c.invs, p.finish(p.clause()))
		case "template":
			cl := p.clause()
			cl.vars = p.params()
			c.invs = append(c.invs, p.finish(cl))
		case "case":
			c.cases = append(c.cases, p.finish(p.clause()))
		case "hint":
			c.hints = append(c.hints, p.finish(p.clause()))
		case "use":
			for !p.accept(";") {
				n := p.ident()
				o := p.spec.shapes[n]
				if o == nil {
					p.fail(p.cur().line, "no shape "+n)
				}
				c.tags = append(c.tags, o.tags...)
				c.requires = append(c.requires, o.requires...)
				c.ensures = append(c.ensures, o.ensures...)
				c.invs = append(c.invs, o.invs...)
				c.modifies = append(c.modifies, o.modifies...)
				c.decreases = append(c.decreases, o.decreases...)
				c.measures = append(c.measures, o.measures...)
				c.sets = append(c.sets, o.sets...)
				if o.layer != "" {
					c.layer = o.layer
				}
				p.accept(",")
			}
		case "sets":
			cl := p.clause()
			g := &ghostSet{clause: cl, loc: p.postfixLoc()}
			p.expect("=")
			g.val = p.expr()
			if p.accept("when") {
				g.when = p.expr()
			}
			p.expect(";")
			c.sets = append(c.sets, g)
		case "layer":
			// this contract is established by the check of another property, which runs along
			c.layer = p.ident()
			p.expect(";")
		case "link":
			c.link = p.expr()
			p.expect(";")
		case "measure":
			c.measures = append(c.measures, p.expr())
			p.expect(";")
		case "modifies":
			for {
				c.modifies = append(c.modifies, p.postfixLoc())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "decreases":
			for {
				c.decreases = append(c.decreases, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
		case "opaque":
			// definitions this function's proof does not look into
			for !p.accept(";") {
				if c.opaque == nil {
					c.opaque = map[string]bool{}
				}
				c.opaque["D!"+p.ident()] = true
				p.accept(",")
			}
		case "depth":
			n, _ := strconv.Atoi(p.cur().s)
			p.p++
			c.depth = n
			p.expect(";")
		default:
			c.flags[kw] = true
			p.expect(";")
		}
	}
	return c
}

// postfixLoc parses a modifies location: expr, or expr.* (all fields)
func (p *specParser) postfixLoc() *E {
	e := p.primary()
	if p.toks[p.p-1].s == "*" {
	}
	for {
		if p.is(".") {
			p.p++
			if p.accept("*") {
				return p.mkE("all", "", e)
			}
			e = p.mkE("sel", p.ident(), e)
			continue
		}
		if p.is("(") {
			p.p++
			c := p.mkE("call", "", e)
			for !p.is(")") {
				c.a = append(c.a, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
			continue
		}
		return e
	}
}

func (p *specParser) file_() {
	s := p.spec
	for p.cur().k != "eof" {
		line := p.cur().line
		kw := p.ident()
		switch kw {
		case "sort":
			s.sorts[p.ident()] = true
			p.expect(";")
		case "immutable":
			for !p.accept(";") {
				s.imm = append(s.imm, p.ident())
				p.accept(",")
			}
		case "immutable_elems":
			for {
				s.immElems = append(s.immElems, strings.TrimSpace(p.typ()))
				if p.accept(";") {
					break
				}
				p.expect(",")
			}
		case "frozen":
			for !p.accept(";") {
				s.frozen = append(s.frozen, p.ident())
				p.accept(",")
			}
		case "ghost":
			a := p.ident()
			p.expect(".")
			b := p.ident()
			if p.accept(".") {
				a = a + "." + b
				b = p.ident()
			}
			t := p.typ()
			p.expect(";")
			s.ghosts = append(s.ghosts, Ghost{a, b, t})
		case "fn", "def", "macro":
			d := &Def{ctorAt: -1, file: p.file}
			if p.accept("[") {
				if p.accept("level") {
					// unfold only applications that are in the query or come from this many unfoldings
					d.level, _ = strconv.Atoi(p.cur().s)
					p.p++
				} else if p.accept("ctor") {
					d.ctorAt, _ = strconv.Atoi(p.cur().s)
					p.p++
				}
				p.expect("]")
			}
			d.name = p.ident()
			d.params = p.params()
			if kw == "macro" {
				d.macro = true
			} else {
				d.ret = p.typ()
			}
			if kw != "fn" {
				p.expect("=")
				d.body = p.expr()
			}
			p.expect(";")
			if s.defs[d.name] != nil {
				p.fail(line, "duplicate "+d.name)
			}
			s.defs[d.name] = d
		case "axiom":
			a := &Axiom{name: p.ident(), file: p.file}
			if p.is("(") {
				a.vars = p.params()
			}
			for p.accept("{") {
				var pt []*E
				for {
					pt = append(pt, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				a.pats = append(a.pats, pt)
			}
			p.expect(":")
			a.body = p.expr()
			p.expect(";")
			s.axioms = append(s.axioms, a)
		case "contract", "extern", "iface", "fieldfn":
			c := p.contract(kw)
			if s.contracts[c.name] != nil {
				p.fail(line, "duplicate contract "+c.name)
			}
			s.contracts[c.name] = c
		case "shape":
			// clauses shared by several contracts
			c := p.contract(kw)
			if s.shapes == nil {
				s.shapes = map[string]*Contract{}
			}
			s.shapes[c.name] = c
		case "lemma":
			c := p.contract(kw)
			s.lemmas = append(s.lemmas, c)
		case "assumption":
			s.assume = append(s.assume, p.cur().s)
			p.p++
			p.expect(";")
		case "locset":
			n := p.ident()
			ps := p.params()
			p.expect("=")
			ls := &locSet{params: ps}
			for {
				ls.locs = append(ls.locs, p.postfixLoc())
				if !p.accept(",") {
					break
				}
			}
			p.expect(";")
			if s.locsets == nil {
				s.locsets = map[string]*locSet{}
			}
			s.locsets[n] = ls
		case "global":
			s.globals = append(s.globals, p.finish(p.clause()))
		default:
			p.fail(line, "unknown directive "+kw)
		}
	}
}

func loadSpec(dir string) *Spec {
	s := &Spec{sorts: map[string]bool{}, defs: map[string]*Def{}, contracts: map[string]*Contract{}, consts: map[string]*E{}}
	ms, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(ms)
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			panic(err)
		}
		p := &specParser{src: string(b), file: filepath.Base(m), spec: s}
		p.lex()
		p.file_()
	}
	for _, n := range s.imm {
		immStructs[n] = true
	}
	for _, n := range s.immElems {
		immElems[n] = true
	}
	return s
}
