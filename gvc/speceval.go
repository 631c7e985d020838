package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a spec-level value: a symbolic value with its Go type (or a logical sort).
type SV struct {
	v Val
	t types.Type
	s string
}

func (x SV) sortName() string {
	if x.t != nil {
		return sortOf(x.t)
	}
	return x.s
}

// SEnv is a spec evaluation environment.
type SEnv struct {
	c     *Ctx
	st    *State
	old   *State
	vars  map[string]SV
	pure  bool // inside a def: no mutable state
	where string
}

func (en *SEnv) child() *SEnv {
	n := *en
	n.vars = map[string]SV{}
	for k, v := range en.vars {
		n.vars[k] = v
	}
	return &n
}

type specError struct{ msg string }

func (en *SEnv) fail(e *E, f string, a ...any) {
	panic(specError{fmt.Sprintf("%s:%d: %s", e.file, e.line, fmt.Sprintf(f, a...))})
}

func (eng *Engine) resolveType(txt string) (types.Type, string) {
	txt = strings.TrimSpace(txt)
	if r, ok := eng.typeMemo[txt]; ok {
		return r.t, r.s
	}
	t, s := eng.resolveType1(txt)
	eng.typeMemo[txt] = SV{t: t, s: s}
	return t, s
}

func (eng *Engine) resolveType1(txt string) (types.Type, string) {
	switch txt {
	case "int":
		return types.Typ[types.Int], sInt
	case "bool":
		return types.Typ[types.Bool], sBool
	case "string", "str":
		return types.Typ[types.String], sStr
	case "float64", "flt":
		return types.Typ[types.Float64], sFlt
	case "rune":
		return types.Typ[types.Int32], sInt
	case "byte":
		return types.Typ[types.Uint8], sInt
	case "uint":
		return types.Typ[types.Uint], sInt
	case "error":
		t := types.Universe.Lookup("error").Type()
		return t, sIface
	case "any":
		return types.NewInterfaceType(nil, nil), sIface
	}
	if eng.spec.sorts[txt] {
		return nil, txt
	}
	if strings.HasPrefix(txt, "*") {
		t, _ := eng.resolveType(txt[1:])
		return types.NewPointer(t), sInt
	}
	if strings.HasPrefix(txt, "[]") {
		t, _ := eng.resolveType(txt[2:])
		return types.NewSlice(t), sSlice
	}
	if strings.HasPrefix(txt, "[") {
		// logical array [K]V or Go array [n]T
		d := 0
		for i := 0; i < len(txt); i++ {
			if txt[i] == '[' {
				d++
			}
			if txt[i] == ']' {
				d--
				if d == 0 {
					k := txt[1:i]
					if k != "" && k[0] >= '0' && k[0] <= '9' {
						var n int64
						fmt.Sscan(k, &n)
						t, _ := eng.resolveType(txt[i+1:])
						a := types.NewArray(t, n)
						return a, sortOf(a)
					}
					_, ks := eng.resolveType(k)
					_, vs := eng.resolveType(txt[i+1:])
					return nil, ArrSort(ks, vs)
				}
			}
		}
	}
	if strings.HasPrefix(txt, "map[") {
		i := strings.Index(txt, "]")
		k, _ := eng.resolveType(txt[4:i])
		var v types.Type
		if txt[i+1:] == "struct{}" {
			v = types.NewStruct(nil, nil)
		} else {
			v, _ = eng.resolveType(txt[i+1:])
		}
		m := types.NewMap(k, v)
		return m, sInt
	}
	pkg, name := modPath, txt
	if i := strings.Index(txt, "."); i >= 0 {
		name = txt[i+1:]
		p := txt[:i]
		if p == "scanner" {
			pkg = modPath + "/scanner"
		} else {
			for _, q := range eng.repo.prog.AllPackages() {
				if q.Pkg.Path() == p || q.Pkg.Name() == p {
					if o := q.Pkg.Scope().Lookup(name); o != nil {
						return o.Type(), sortOf(o.Type())
					}
				}
			}
			panic(specError{"unknown type " + txt})
		}
	}
	tp := eng.repo.tpkgs[pkg]
	if tp == nil {
		panic(specError{"unknown type " + txt})
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		panic(specError{"unknown type " + txt})
	}
	if isStructT(o.Type()) {
		si, _ := structOf(o.Type())
		return o.Type(), si.sort
	}
	return o.Type(), sortOf(o.Type())
}

func typeText(e *E) string {
	switch e.k {
	case "id":
		return e.s
	case "sel":
		return typeText(e.a[0]) + "." + e.s
	case "un":
		return e.s + typeText(e.a[0])
	}
	panic(specError{fmt.Sprintf("%s:%d: bad type expression", e.file, e.line)})
}

func (en *SEnv) term(e *E) *Term {
	v := en.eval(e)
	return en.c.asTerm(en.st, v.v, v.t)
}

func (en *SEnv) bool_(e *E) *Term {
	t := en.term(e)
	if t.sort != sBool {
		en.fail(e, "expected bool, got %s", t.sort)
	}
	return t
}

func svI(t *Term) SV { return SV{v: t, t: types.Typ[types.Int]} }
func svB(t *Term) SV { return SV{v: t, t: types.Typ[types.Bool]} }
func svS(t *Term) SV { return SV{v: t, t: types.Typ[types.String]} }

func (en *SEnv) sv(t *Term, typ types.Type, s string) SV {
	if typ == nil && s == "" {
		s = t.sort
	}
	return SV{v: t, t: typ, s: s}
}

func (en *SEnv) eval(e *E) SV {
	c := en.c
	c.specDepth++
	defer func() { c.specDepth-- }()
	switch e.k {
	case "int":
		return svI(BigInt(e.n))
	case "str":
		return svS(Str(e.s))
	case "id":
		return en.ident(e)
	case "un":
		switch e.s {
		case "!":
			return svB(Not(en.bool_(e.a[0])))
		case "-":
			return svI(Neg(en.term(e.a[0])))
		case "*":
			x := en.eval(e.a[0])
			if a, ok := x.v.(*Addr); ok {
				return SV{v: c.load(en.st, a), t: a.typ}
			}
			el := deref(x.t)
			return SV{v: c.loadPtr(en.st, x.v, el), t: el}
		}
	case "bin":
		return en.bin(e)
	case "ite":
		cd := en.bool_(e.a[0])
		if cd == tTrue {
			return en.eval(e.a[1])
		}
		if cd == tFalse {
			return en.eval(e.a[2])
		}
		a, b := en.eval(e.a[1]), en.eval(e.a[2])
		at, bt := en.coerce2(a, b)
		r := SV{v: Ite(cd, at, bt), t: a.t, s: a.s}
		if a.t == nil || isNilT(a.t) {
			r.t, r.s = b.t, b.s
		}
		return r
	case "let":
		n := en.child()
		n.vars[e.s] = en.eval(e.a[0])
		return n.eval(e.a[1])
	case "forall", "exists":
		n := en.child()
		var bs []*Term
		for _, p := range e.vars {
			t, s := c.eng.resolveType(p.typ)
			c.bvarN++
			b := BVar(fmt.Sprintf("%s?%d", p.name, c.bvarN), s)
			bs = append(bs, b)
			n.vars[p.name] = SV{v: b, t: t, s: s}
		}
		body := n.bool_(e.a[0])
		var pats [][]*Term
		for _, p := range e.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, n.term(x))
			}
			pats = append(pats, q)
		}
		// canonical bound names for hash-consing
		m := map[*Term]*Term{}
		var cb []*Term
		for i, b := range bs {
			q := BVar(fmt.Sprintf("q%d.%d", quantDepth(body), i), b.sort)
			m[b] = q
			cb = append(cb, q)
		}
		body = Subst(body, m)
		for _, p := range pats {
			for i := range p {
				p[i] = Subst(p[i], m)
			}
		}
		if e.k == "forall" {
			return svB(Forall(cb, body, pats...))
		}
		return svB(Exists(cb, body))
	case "sel":
		return en.sel(e)
	case "idx":
		return en.index(e)
	case "call":
		return en.call(e)
	}
	en.fail(e, "cannot evaluate %s %s", e.k, e.s)
	return SV{}
}

func quantDepth(t *Term) int {
	memo := map[*Term]int{}
	var rec func(t *Term) int
	rec = func(t *Term) int {
		if d, ok := memo[t]; ok {
			return d
		}
		d := 0
		for _, a := range t.args {
			if x := rec(a); x > d {
				d = x
			}
		}
		if len(t.bvars) > 0 {
			d++
		}
		memo[t] = d
		return d
	}
	return rec(t)
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (en *SEnv) coerce2(a, b SV) (*Term, *Term) {
	an := a.t != nil && isNilT(a.t)
	bn := b.t != nil && isNilT(b.t)
	if an && bn {
		return Int(0), Int(0)
	}
	if an {
		bt := en.c.asTerm(en.st, b.v, b.t)
		return nilOf(bt.sort), bt
	}
	at := en.c.asTerm(en.st, a.v, a.t)
	if bn {
		return at, nilOf(at.sort)
	}
	bt := en.c.asTerm(en.st, b.v, b.t)
	if at.sort != bt.sort {
		// pointer compared with interface: box
		if at.sort == sIface && b.t != nil && isPtrLike(b.t) {
			return at, mkIface(Int(int64(tagOf(b.t))), bt)
		}
		if bt.sort == sIface && a.t != nil && isPtrLike(a.t) {
			return mkIface(Int(int64(tagOf(a.t))), at), bt
		}
		panic(specError{fmt.Sprintf("sort mismatch %s:%s vs %s:%s in %s", at.short(), at.sort, bt.short(), bt.sort, en.where)})
	}
	return at, bt
}

func nilOf(s string) *Term {
	switch s {
	case sInt:
		return Int(0)
	case sIface:
		return tNilIface
	case sSlice:
		return tNilSlice
	}
	panic(specError{"nil of sort " + s})
}

func (en *SEnv) ident(e *E) SV {
	if v, ok := en.vars[e.s]; ok {
		return v
	}
	c := en.c
	switch e.s {
	case "true":
		return svB(tTrue)
	case "false":
		return svB(tFalse)
	case "nil":
		return SV{v: Int(0), t: types.Typ[types.UntypedNil]}
	case "cnt":
		return svI(en.st.cnt)
	}
	if v, ok := en.pkgMember(modPath, e.s); ok {
		return v
	}
	if d := c.eng.spec.defs[e.s]; d != nil && len(d.params) == 0 {
		return en.callDef(e, d, nil)
	}
	en.fail(e, "unknown identifier %s (%s)", e.s, en.where)
	return SV{}
}

func (en *SEnv) pkgMember(path, name string) (SV, bool) {
	c := en.c
	tp := c.eng.repo.tpkgs[path]
	if tp == nil {
		return SV{}, false
	}
	switch o := tp.Scope().Lookup(name).(type) {
	case *types.Const:
		return SV{v: constTerm(o.Val(), o.Type()), t: o.Type()}, true
	case *types.Var:
		for _, p := range c.eng.repo.pkgs {
			if p.Pkg == tp {
				g := p.Members[name].(*ssa.Global)
				n := "G!" + globalName(g)
				c.regComp(n, sortOf(o.Type()))
				return SV{v: c.comp(en.st, n), t: o.Type()}, true
			}
		}
	}
	return SV{}, false
}

var _ = constant.MakeBool

func (en *SEnv) bin(e *E) SV {
	switch e.s {
	case "&&":
		a := en.bool_(e.a[0])
		if a == tFalse {
			return svB(tFalse)
		}
		return svB(And(a, en.bool_(e.a[1])))
	case "||":
		a := en.bool_(e.a[0])
		if a == tTrue {
			return svB(tTrue)
		}
		return svB(Or(a, en.bool_(e.a[1])))
	case "==>":
		a := en.bool_(e.a[0])
		if a == tFalse {
			return svB(tTrue)
		}
		return svB(Implies(a, en.bool_(e.a[1])))
	case "<==>":
		return svB(Eq(en.bool_(e.a[0]), en.bool_(e.a[1])))
	}
	x, y := en.eval(e.a[0]), en.eval(e.a[1])
	switch e.s {
	case "==", "!=":
		a, b := en.coerce2(x, y)
		var r *Term
		switch {
		case a.sort == sIface && b == tNilIface:
			r = Eq(ifTag(a), Int(0))
		case a.sort == sIface && a == tNilIface:
			r = Eq(ifTag(b), Int(0))
		case a.sort == sSlice && b == tNilSlice:
			r = Eq(slRef(a), Int(0))
		default:
			r = Eq(a, b)
		}
		if e.s == "!=" {
			r = Not(r)
		}
		return svB(r)
	}
	if e.s == "+" && x.sortName() == "Out" {
		return SV{v: appOut(en.c.asTerm(en.st, x.v, x.t), en.c.asTerm(en.st, y.v, y.t)), s: "Out"}
	}
	a, b := en.coerce2(x, y)
	switch e.s {
	case "<":
		return svB(Lt(a, b))
	case "<=":
		return svB(Le(a, b))
	case ">":
		return svB(Lt(b, a))
	case ">=":
		return svB(Le(b, a))
	case "+":
		if a.sort == sStr {
			return svS(catStr(a, b))
		}
		return svI(Add(a, b))
	case "-":
		return svI(Sub(a, b))
	case "*":
		return svI(Mul(a, b))
	case "/":
		return svI(goDiv(a, b))
	case "%":
		return svI(Sub(a, Mul(b, goDiv(a, b))))
	}
	en.fail(e, "operator %s", e.s)
	return SV{}
}

func (en *SEnv) mutable(e *E, what string) {
	if en.pure {
		en.fail(e, "def reads mutable state %s", what)
	}
}

// worldGhost: world.x is a ghost variable that belongs to no object.
func (en *SEnv) worldGhost(e *E) (Ghost, bool) {
	if b := e.a[0]; b.k == "id" && b.s == "world" {
		for _, g := range en.c.eng.spec.ghosts {
			if g.strct == "world" && g.field == e.s {
				return g, true
			}
		}
	}
	return Ghost{}, false
}

func (en *SEnv) sel(e *E) SV {
	c := en.c
	if b := e.a[0]; b.k == "id" {
		if _, ok := en.vars[b.s]; !ok && b.s == "scanner" {
			if v, ok := en.pkgMember(modPath+"/scanner", e.s); ok {
				return v
			}
		}
	}
	if b := e.a[0]; b.k == "id" {
		// a variable of a library package
		if _, ok := en.vars[b.s]; !ok {
			for _, p := range c.eng.repo.prog.AllPackages() {
				if p.Pkg.Path() != b.s {
					continue
				}
				if g, ok := p.Members[e.s].(*ssa.Global); ok {
					t := deref(g.Type())
					n := "G!" + globalName(g)
					c.regComp(n, sortOf(t))
					return SV{v: c.comp(en.st, n), t: t}
				}
			}
		}
	}
	if g, ok := en.worldGhost(e); ok {
		en.mutable(e, e.s)
		t, s := c.eng.resolveType(g.typ)
		return en.sv(Select(c.comp(en.st, c.eng.ghostComp(g.strct, g.field)), Int(0)), t, s)
	}
	x := en.eval(e.a[0])
	// ghost field
	for _, g := range c.eng.spec.ghosts {
		if g.field == e.s && c.eng.ghostApplies(g, x.t) {
			en.mutable(e, e.s)
			comp := c.eng.ghostComp(g.strct, g.field)
			t, s := c.eng.resolveType(g.typ)
			return en.sv(Select(c.comp(en.st, comp), en.refOf(x)), t, s)
		}
	}
	if x.t == nil {
		en.fail(e, "field %s of logical value", e.s)
	}
	st := x.t
	isPtr := false
	if p, ok := st.Underlying().(*types.Pointer); ok {
		st = p.Elem()
		isPtr = true
	}
	si, ok := structOf(st)
	if !ok {
		en.fail(e, "field %s of non-struct %s", e.s, x.t)
	}
	i := fieldIndex(si.st, e.s)
	if i < 0 {
		// promoted through embedded structs
		for k := 0; k < si.st.NumFields(); k++ {
			f := si.st.Field(k)
			if f.Embedded() {
				if es, ok := structOf(f.Type()); ok && fieldIndex(es.st, e.s) >= 0 && isPtr {
					en.mutable(e, e.s)
					r := c.embRef(si, k, c.asTerm(en.st, x.v, x.t))
					j := fieldIndex(es.st, e.s)
					return SV{v: c.loadField(en.st, es, j, r), t: es.st.Field(j).Type()}
				}
			}
		}
		en.fail(e, "no field %s in %s", e.s, si.name)
	}
	ft := si.st.Field(i).Type()
	if !isPtr {
		return SV{v: si.get(c.asTerm(en.st, x.v, x.t), i), t: ft}
	}
	if a, ok := x.v.(*Addr); ok {
		b := *a
		b.path = append(append([]pstep{}, a.path...), pstep{field: i, typ: st})
		b.typ = ft
		return SV{v: c.load(en.st, &b), t: ft}
	}
	ref := x.v.(*Term)
	if !isImmStruct(si.name) {
		en.mutable(e, si.name+"."+e.s)
	}
	if isStructT(ft) {
		// pointer to embedded struct
		return SV{v: c.embRef(si, i, ref), t: types.NewPointer(ft)}
	}
	return SV{v: c.loadField(en.st, si, i, ref), t: ft}
}

func (en *SEnv) refOf(x SV) *Term {
	t := en.c.asTerm(en.st, x.v, x.t)
	switch t.sort {
	case sIface:
		return ifPay(t)
	case sSlice:
		return slRef(t)
	}
	return t
}

func (en *SEnv) index(e *E) SV {
	c := en.c
	x := en.eval(e.a[0])
	i := en.eval(e.a[1])
	xt := c.asTerm(en.st, x.v, x.t)
	it := c.asTerm(en.st, i.v, i.t)
	if x.t == nil {
		s := arrElemSort(xt.sort)
		ks, _ := splitArr(xt.sort)
		if ks != it.sort {
			en.fail(e, "index sort %s, want %s", it.sort, ks)
		}
		var gt types.Type
		switch s {
		case sInt:
			gt = types.Typ[types.Int]
		case sBool:
			gt = types.Typ[types.Bool]
		case sStr:
			gt = types.Typ[types.String]
		}
		return SV{v: Select(xt, it), t: gt, s: s}
	}
	switch u := x.t.Underlying().(type) {
	case *types.Slice:
		return SV{v: Select(en.elems(e, x), sliceIdx(slOff(xt), it)), t: u.Elem()}
	case *types.Array:
		return SV{v: Select(xt, it), t: u.Elem()}
	case *types.Map:
		_, mv := c.mapRegs(u)
		en.mutableMap(e)
		return SV{v: Select(Select(c.comp(en.st, mv), xt), it), t: u.Elem()}
	case *types.Basic:
		return svI(strAt(xt, it))
	}
	en.fail(e, "index of %s", x.t)
	return SV{}
}

func (en *SEnv) mutableMap(e *E) {}

func (en *SEnv) elems(e *E, x SV) *Term {
	c := en.c
	el := x.t.Underlying().(*types.Slice).Elem()
	imm := immElems[typeName(el)]
	if !imm {
		en.mutable(e, "elements of "+typeName(x.t))
	}
	return c.readAt(en.st, c.elemComp(el), slRef(c.asTerm(en.st, x.v, x.t)), imm)
}

func (en *SEnv) call(e *E) SV {
	c := en.c
	f := e.a[0]
	args := e.a[1:]
	if f.k != "id" {
		en.fail(e, "bad call")
	}
	switch f.s {
	case "old":
		if en.old == nil {
			en.fail(e, "old not available")
		}
		n := *en
		n.st = en.old
		n.vars = en.vars
		return n.eval(args[0])
	case "len", "cap", "off", "ref":
		x := en.eval(args[0])
		t := c.asTerm(en.st, x.v, x.t)
		if t.sort == sStr {
			return svI(strLen(t))
		}
		if f.s == "ref" && t.sort == sInt {
			return svI(t)
		}
		if t.sort == sSlice {
			switch f.s {
			case "len":
				return svI(slLen(t))
			case "cap":
				return svI(slCap(t))
			case "off":
				return svI(slOff(t))
			}
			return svI(slRef(t))
		}
		if x.t != nil {
			if mt, ok := x.t.Underlying().(*types.Map); ok {
				return svI(c.mapLen(en.st, mt, t))
			}
		}
		en.fail(e, "len of %s", t.sort)
	case "elems":
		x := en.eval(args[0])
		return SV{v: en.elems(e, x), s: ArrSort(sInt, sortOf(x.t.Underlying().(*types.Slice).Elem()))}
	case "card":
		return svI(Card(en.term(args[0])))
	case "maps":
		// the key sets of all maps of a type, by reference
		t, _ := c.eng.resolveType(typeText2(args[0]))
		mp, _ := c.mapRegs(t.Underlying().(*types.Map))
		v := c.comp(en.st, mp)
		return SV{v: v, s: v.sort}
	case "inmap":
		x := en.eval(args[0])
		mt := x.t.Underlying().(*types.Map)
		mp, _ := c.mapRegs(mt)
		m := c.asTerm(en.st, x.v, x.t)
		k := en.term(args[1])
		return svB(And(Not(Eq(m, Int(0))), Select(Select(c.comp(en.st, mp), m), k)))
	case "keys":
		x := en.eval(args[0])
		mt := x.t.Underlying().(*types.Map)
		mp, _ := c.mapRegs(mt)
		m := c.asTerm(en.st, x.v, x.t)
		srt := ArrSort(sortOf(mt.Key()), sBool)
		return SV{v: Ite(Eq(m, Int(0)), ConstArr(srt, tFalse), Select(c.comp(en.st, mp), m)), s: srt}
	case "vals":
		x := en.eval(args[0])
		mt := x.t.Underlying().(*types.Map)
		_, mv := c.mapRegs(mt)
		m := c.asTerm(en.st, x.v, x.t)
		return SV{v: Select(c.comp(en.st, mv), m), s: ArrSort(sortOf(mt.Key()), sortOf(mt.Elem()))}
	case "is":
		x := en.term(args[0])
		t, _ := c.eng.resolveType(typeText(args[1]))
		return svB(c.hasType(en.st, x, t))
	case "as":
		x := en.term(args[0])
		t, _ := c.eng.resolveType(typeText(args[1]))
		if isPtrLike(t) {
			return SV{v: ifPay(x), t: t}
		}
		if p := ifPay(x); p.op == "box!"+typeName(t) {
			return SV{v: p.args[0], t: t}
		}
		return SV{v: App("unbox!"+typeName(t), sortOf(t), ifPay(x)), t: t}
	case "iface":
		x := en.eval(args[0])
		t := c.asTerm(en.st, x.v, x.t)
		var it types.Type = types.NewInterfaceType(nil, nil)
		if len(args) > 1 {
			it, _ = c.eng.resolveType(typeText(args[1]))
		}
		if t.sort == sIface {
			return SV{v: t, t: it}
		}
		if isPtrLike(x.t) {
			return SV{v: mkIface(Int(int64(tagOf(x.t))), t), t: it}
		}
		return SV{v: mkIface(Int(int64(tagOf(x.t))), App("box!"+typeName(x.t), sInt, t)), t: it}
	case "ty":
		t, _ := c.eng.resolveType(typeText(args[1]))
		return SV{v: en.term(args[0]), t: t}
	case "tag":
		return svI(ifTag(en.term(args[0])))
	case "pay":
		return svI(ifPay(en.term(args[0])))
	case "own":
		x := en.eval(args[0])
		return svB(Select(c.comp(en.st, "own"), en.refOf(x)))
	case "fresh":
		x := en.eval(args[0])
		base := en.old
		if base == nil {
			base = en.st
		}
		return svB(Lt(base.cnt, en.refOf(x)))
	case "at":
		return svI(strAt(en.term(args[0]), en.term(args[1])))
	case "lower":
		return svS(strLower(en.term(args[0])))
	case "substr":
		return svS(subStr(en.term(args[0]), en.term(args[1]), en.term(args[2])))
	case "ssub":
		return svS(App("ssub", sStr, en.term(args[0]), en.term(args[1]), en.term(args[2])))
	case "mkstr":
		return svS(App("mkstr", sStr, en.term(args[0]), en.term(args[1]), en.term(args[2])))
	case "app":
		return SV{v: appOut(en.term(args[0]), en.term(args[1])), s: "Out"}
	case "i2f":
		return SV{v: i2f(en.term(args[0])), t: types.Typ[types.Float64]}
	case "fneg":
		return SV{v: App("fneg", sFlt, en.term(args[0])), t: types.Typ[types.Float64]}
	case "store":
		a := en.eval(args[0])
		at := c.asTerm(en.st, a.v, a.t)
		return SV{v: Store(at, en.term(args[1]), en.term(args[2])), s: at.sort}
	case "constarr":
		_, s := c.eng.resolveType(typeText2(args[0]))
		return SV{v: ConstArr(s, en.term(args[1])), s: s}
	case "int":
		return svI(en.term(args[0]))
	case "visited":
		// visited set of the innermost active map iteration
		if len(c.iters) == 0 {
			en.fail(e, "no active map iteration")
		}
		it := c.iters[len(c.iters)-1]
		v, ok := en.st.cells[it.vis]
		if !ok {
			en.fail(e, "iteration not live")
		}
		return SV{v: v, s: it.vis.sort}
	}
	if d := c.eng.spec.defs[f.s]; d != nil {
		return en.callDef(e, d, args)
	}
	en.fail(e, "unknown function %s", f.s)
	return SV{}
}

func typeText2(e *E) string {
	if e.k == "str" {
		return e.s
	}
	return typeText(e)
}

func i2f(v *Term) *Term {
	if v.op == "int" {
		return fltConst(v.n.String())
	}
	return App("i2f", sFlt, v)
}

// appOut appends a string to an output log, in normal form (adjacent literals merged).
func appOut(o, s *Term) *Term {
	if s.op == "str" && s.name == "" {
		return o
	}
	if s.op == "cat" {
		return appOut(appOut(o, s.args[0]), s.args[1])
	}
	if s.op == "ite" {
		return Ite(s.args[0], appOut(o, s.args[1]), appOut(o, s.args[2]))
	}
	if s.op == "str" && o.op == "ite" {
		return Ite(o.args[0], appOut(o.args[1], s), appOut(o.args[2], s))
	}
	if s.op == "str" && o.op == "app" && o.args[1].op == "str" {
		return App("app", "Out", o.args[0], Str(o.args[1].name+s.name))
	}
	return App("app", "Out", o, s)
}

func (en *SEnv) callDef(e *E, d *Def, args []*E) SV {
	c := en.c
	if len(args) != len(d.params) {
		en.fail(e, "%s expects %d arguments", d.name, len(d.params))
	}
	if d.macro {
		n := en.child()
		n.vars = map[string]SV{}
		for i, p := range d.params {
			v := en.eval(args[i])
			if p.typ != "" {
				t, _ := c.eng.resolveType(p.typ)
				v = en.conv(v, t)
			}
			n.vars[p.name] = v
		}
		n.where = d.name
		return n.eval(d.body)
	}
	var ts []*Term
	for i, p := range d.params {
		t, s := c.eng.resolveType(p.typ)
		v := en.eval(args[i])
		v = en.conv(v, t)
		x := c.asTerm(en.st, v.v, v.t)
		if x.sort != s {
			en.fail(e, "argument %d of %s: sort %s, want %s", i+1, d.name, x.sort, s)
		}
		ts = append(ts, x)
	}
	rt, rs := c.eng.resolveType(d.ret)
	op := d.name
	if d.body != nil {
		op = "D!" + d.name
	}
	return SV{v: App(op, rs, ts...), t: rt, s: rs}
}

func (en *SEnv) conv(v SV, t types.Type) SV {
	if t == nil || v.t == nil {
		return v
	}
	if isNilT(v.t) {
		if sortOf(t) == sInt {
			return SV{v: Int(0), t: t}
		}
		return SV{v: nilOf(sortOf(t)), t: t}
	}
	if sortOf(t) == sIface && v.sortName() != sIface {
		x := en.c.asTerm(en.st, v.v, v.t)
		if isPtrLike(v.t) {
			return SV{v: mkIface(Int(int64(tagOf(v.t))), x), t: t}
		}
		return SV{v: mkIface(Int(int64(tagOf(v.t))), App("box!"+typeName(v.t), sInt, x)), t: t}
	}
	return SV{v: v.v, t: t}
}

// unfold returns the definitional equation for a ground def application.
func (c *Ctx) unfold(t *Term) *Term {
	if f, ok := c.eng.unfoldMemo[t]; ok {
		return f
	}
	d := c.eng.spec.defs[t.op[2:]]
	if d.ctorAt >= 0 {
		a := t.args[d.ctorAt]
		if !isCtorish(a) {
			c.eng.unfoldMemo[t] = nil
			return nil
		}
	}
	st := &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Val{}, cnt: Int(0)}
	en := &SEnv{c: c, st: st, vars: map[string]SV{}, pure: true, where: d.name}
	for i, p := range d.params {
		ty, s := c.eng.resolveType(p.typ)
		en.vars[p.name] = SV{v: t.args[i], t: ty, s: s}
	}
	r := en.eval(d.body)
	rt, _ := c.eng.resolveType(d.ret)
	r = en.conv(r, rt)
	eq := Eq(t, c.asTerm(st, r.v, r.t))
	c.eng.unfoldMemo[t] = eq
	return eq
}

func isCtorish(a *Term) bool {
	if a.op == "mk!iface" {
		return a.args[0].op == "int"
	}
	if isConst(a) || isCtor(a) {
		return true
	}
	switch a.op {
	case "var", "select", "ite", "bvar":
		return false
	}
	return !strHasPrefix(a.op, "pf!") && !strHasPrefix(a.op, "D!") && !strHasPrefix(a.op, "get!")
}

// ---- locations ----

type loc struct {
	comp string
	ref  *Term
	all  bool
}

// locs evaluates a modifies expression to heap locations.
func (en *SEnv) locs(e *E) []loc {
	c := en.c
	switch e.k {
	case "all":
		x := en.eval(e.a[0])
		return c.allLocs(deref(x.t), c.asTerm(en.st, x.v, x.t))
	case "sel":
		if g, ok := en.worldGhost(e); ok {
			return []loc{{c.eng.ghostComp(g.strct, g.field), Int(0), false}}
		}
		x := en.eval(e.a[0])
		for _, g := range c.eng.spec.ghosts {
			if g.field == e.s && c.eng.ghostApplies(g, x.t) {
				return []loc{{c.eng.ghostComp(g.strct, g.field), en.refOf(x), false}}
			}
		}
		si, ok := structOf(deref(x.t))
		if !ok {
			en.fail(e, "modifies: field of %s", x.t)
		}
		i := fieldIndex(si.st, e.s)
		ref := c.asTerm(en.st, x.v, x.t)
		if i < 0 {
			for k := 0; k < si.st.NumFields(); k++ {
				f := si.st.Field(k)
				if f.Embedded() {
					if es, ok := structOf(f.Type()); ok && fieldIndex(es.st, e.s) >= 0 {
						return c.fieldLocs(es, fieldIndex(es.st, e.s), c.embRef(si, k, ref))
					}
				}
			}
			en.fail(e, "modifies: no field %s", e.s)
		}
		return c.fieldLocs(si, i, ref)
	case "call":
		if ls := c.eng.spec.locsets[e.a[0].s]; ls != nil {
			vars := map[string]SV{}
			for i, p := range ls.params {
				vars[p.name] = en.eval(e.a[1+i])
			}
			e2 := *en
			e2.vars = vars
			var out []loc
			for _, m := range ls.locs {
				out = append(out, e2.locs(m)...)
			}
			return out
		}
		switch e.a[0].s {
		case "elems":
			x := en.eval(e.a[1])
			el := x.t.Underlying().(*types.Slice).Elem()
			return []loc{{c.elemComp(el), slRef(c.asTerm(en.st, x.v, x.t)), false}}
		case "cell":
			x := en.eval(e.a[1])
			el := deref(x.t)
			cc := cellComp(el)
			c.regComp(cc, ArrSort(sInt, sortOf(el)))
			return []loc{{cc, c.asTerm(en.st, x.v, x.t), false}}
		case "map":
			x := en.eval(e.a[1])
			mt := x.t.Underlying().(*types.Map)
			mp, mv := c.mapRegs(mt)
			m := c.asTerm(en.st, x.v, x.t)
			return []loc{{mp, m, false}, {mv, m, false}}
		case "wholeof":
			nt, _ := c.eng.resolveType(e.a[1].s)
			si, ok := structOf(nt)
			if !ok {
				en.fail(e, "no struct %s", e.a[1].s)
			}
			i := fieldIndex(si.st, e.a[2].s)
			if i < 0 {
				en.fail(e, "no field %s", e.a[2].s)
			}
			return []loc{{c.fieldCompOf(si, i), nil, true}}
		case "whole":
			for _, g := range c.eng.spec.ghosts {
				if g.field == e.a[1].s {
					return []loc{{c.eng.ghostComp(g.strct, g.field), nil, true}}
				}
			}
		}
	case "id":
		for _, p := range c.eng.repo.pkgs {
			if g, ok := p.Members[e.s].(*ssa.Global); ok {
				n := "G!" + globalName(g)
				c.regComp(n, sortOf(deref(g.Type())))
				return []loc{{n, nil, true}}
			}
		}
	}
	en.fail(e, "bad modifies location")
	return nil
}

func (c *Ctx) fieldLocs(si *structInfo, i int, ref *Term) []loc {
	ft := si.st.Field(i).Type()
	if isStructT(ft) {
		return c.allLocs(ft, c.embRef(si, i, ref))
	}
	if isArrayT(ft) && c.eng.sliced[si.name+"."+si.st.Field(i).Name()] {
		return []loc{{c.elemComp(ft.Underlying().(*types.Array).Elem()), c.embRef(si, i, ref), false}}
	}
	return []loc{{c.fieldCompOf(si, i), ref, false}}
}

func (c *Ctx) allLocs(t types.Type, ref *Term) []loc {
	si, _ := structOf(t)
	var out []loc
	for i := 0; i < si.st.NumFields(); i++ {
		out = append(out, c.fieldLocs(si, i, ref)...)
	}
	for _, g := range c.eng.spec.ghosts {
		if g.strct == si.name {
			out = append(out, loc{c.eng.ghostComp(g.strct, g.field), ref, false})
		}
	}
	return out
}
