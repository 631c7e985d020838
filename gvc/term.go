package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op   string // "var", "int", "str", "true", "false", or an SMT function symbol
	args []*Term
	sort string
	name string // var name / literal text
	n    *big.Int
	id   int
	// quantifiers
	bvars []*Term
	pats  [][]*Term
	bound bool // contains bound variables free
}

type termTable struct {
	m    map[string]*Term
	next int
}

var tt = &termTable{m: map[string]*Term{}}

func mk(op, sort, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: sort, name: name, id: tt.next}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if op == "bvar" {
		t.bound = true
	}
	tt.next++
	tt.m[k] = t
	return t
}

var (
	tTrue  = mk("true", "Bool", "")
	tFalse = mk("false", "Bool", "")
)

func Var(name, sort string) *Term  { return mk("var", sort, name) }
func BVar(name, sort string) *Term { return mk("bvar", sort, name) }
func Int(n int64) *Term            { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	t := mk("int", "Int", n.String())
	if t.n == nil {
		t.n = new(big.Int).Set(n)
	}
	return t
}
func Str(s string) *Term { return mk("str", "Str", s) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func App(op, sort string, args ...*Term) *Term { return mk(op, sort, "", args...) }

// Card is the number of keys of a finite set given by its characteristic array.
func Card(s *Term) *Term {
	switch s.op {
	case "constarr":
		if s.args[0] == tFalse {
			return Int(0)
		}
	case "store":
		a, k, v := s.args[0], s.args[1], s.args[2]
		switch v {
		case tTrue:
			return Ite(Select(a, k), Card(a), Add(Card(a), Int(1)))
		case tFalse:
			return Ite(Select(a, k), Sub(Card(a), Int(1)), Card(a))
		}
	case "ite":
		return Ite(s.args[0], Card(s.args[1]), Card(s.args[2]))
	}
	return mk("card!"+s.sort, sInt, "", s)
}

func isConst(t *Term) bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "Bool", "", a)
}

func flat(op string, in []*Term) []*Term {
	var out []*Term
	for _, a := range in {
		if a.op == op {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func And(in ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	for _, a := range flat("and", in) {
		if a == tTrue || seen[a.id] {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", "", out...)
}

func Or(in ...*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	for _, a := range flat("or", in) {
		if a == tFalse || seen[a.id] {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	// or(and(p,c), and(p,not c)) -> p
	if len(out) == 2 {
		if r := mergeCompl(out[0], out[1]); r != nil {
			return r
		}
	}
	return mk("or", "Bool", "", out...)
}

func conj(a *Term) []*Term {
	if a.op == "and" {
		return a.args
	}
	return []*Term{a}
}

func mergeCompl(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	am, bm := map[*Term]bool{}, map[*Term]bool{}
	for _, x := range ca {
		am[x] = true
	}
	for _, x := range cb {
		bm[x] = true
	}
	var common, da, db []*Term
	for _, x := range ca {
		if bm[x] {
			common = append(common, x)
		} else {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !am[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 || len(db) == 0 {
		return And(common...)
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		return And(common...)
	}
	return nil
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", "Bool", "", a, b)
}

// isCtor reports datatypes constructors made by the engine (prefix "mk!").
func isCtor(t *Term) bool { return strings.HasPrefix(t.op, "mk!") }

// linear form base + c
func linear(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.n
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].n
	}
	return t, new(big.Int)
}

func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if isConst(a) && isConst(b) {
		return true
	}
	if a.op == "idx" && b.op == "idx" && a.args[0] == b.args[0] {
		return distinctTerms(a.args[1], b.args[1])
	}
	if a.sort == "Int" {
		ab, ac := linear(a)
		bb, bc := linear(b)
		if ab == bb && ac.Cmp(bc) != 0 {
			return true
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a.short(), a.sort, b.short(), b.sort))
	}
	if distinctTerms(a, b) {
		return tFalse
	}
	// cat("ab", x) = "abc"  <=>  x = "c"
	if b.op == "cat" && a.op == "str" {
		a, b = b, a
	}
	if a.op == "cat" && b.op == "str" {
		if l := a.args[0]; l.op == "str" {
			if !strHasPrefix(b.name, l.name) {
				return tFalse
			}
			return Eq(a.args[1], Str(b.name[len(l.name):]))
		}
		if r := a.args[1]; r.op == "str" {
			if len(b.name) < len(r.name) || b.name[len(b.name)-len(r.name):] != r.name {
				return tFalse
			}
			return Eq(a.args[0], Str(b.name[:len(b.name)-len(r.name)]))
		}
	}
	if a.op == "idx" && b.op == "idx" && a.args[0] == b.args[0] {
		return Eq(a.args[1], b.args[1])
	}
	if isCtor(a) && isCtor(b) && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	// ite(c, k1, k2) = k with constants
	if isConst(b) && a.op == "ite" {
		if isConst(a.args[1]) || isConst(a.args[2]) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if isConst(a) && b.op == "ite" {
		return Eq(b, a)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk("=", "Bool", "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch %s vs %s", a.sort, b.sort))
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if isCtor(a) && isCtor(b) && a.op == b.op {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = Ite(c, a.args[i], b.args[i])
		}
		return mk(a.op, a.sort, "", args...)
	}
	if b.op == "ite" && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	return mk("ite", a.sort, "", c, a, b)
}

func Add(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BigInt(new(big.Int).Add(a.n, b.n))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.n.Sign() == 0 {
			return a
		}
		base, c := linear(a)
		s := new(big.Int).Add(c, b.n)
		if base == nil {
			return BigInt(s)
		}
		if s.Sign() == 0 {
			return base
		}
		return mk("+", "Int", "", base, BigInt(s))
	}
	ba, ca := linear(a)
	bb, cb := linear(b)
	if ca.Sign() != 0 || cb.Sign() != 0 {
		return Add(mk("+", "Int", "", ba, bb), BigInt(new(big.Int).Add(ca, cb)))
	}
	return mk("+", "Int", "", a, b)
}

// sliceIdx is the position of element i of a slice starting at off. It stays an opaque term so that
// quantified facts about elements can be matched.
func sliceIdx(off, i *Term) *Term {
	if off.op == "int" && off.n.Sign() == 0 {
		return i
	}
	if off.op == "int" && i.op == "int" {
		return Add(off, i)
	}
	return mk("idx", "Int", "", off, i)
}

func Neg(a *Term) *Term {
	if a.op == "int" {
		return BigInt(new(big.Int).Neg(a.n))
	}
	return mk("-", "Int", "", a)
}

func Sub(a, b *Term) *Term {
	if b.op == "int" {
		return Add(a, BigInt(new(big.Int).Neg(b.n)))
	}
	if a == b {
		return Int(0)
	}
	ba, ca := linear(a)
	bb, cb := linear(b)
	if ba == bb {
		return BigInt(new(big.Int).Sub(ca, cb))
	}
	if ba == nil {
		return Add(Neg(bb), BigInt(new(big.Int).Sub(ca, cb)))
	}
	return Add(mk("-", "Int", "", ba, bb), BigInt(new(big.Int).Sub(ca, cb)))
}

func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BigInt(new(big.Int).Mul(a.n, b.n))
	}
	return mk("*", "Int", "", a, b)
}

func Lt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	ab, ac := linear(a)
	bb, bc := linear(b)
	if ab == bb {
		return Bool(ac.Cmp(bc) < 0)
	}
	return mk("<", "Bool", "", a, b)
}
func Le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	ab, ac := linear(a)
	bb, bc := linear(b)
	if ab == bb {
		return Bool(ac.Cmp(bc) <= 0)
	}
	return mk("<=", "Bool", "", a, b)
}

func arrElemSort(s string) string {
	// "(Array Int X)"
	if !strings.HasPrefix(s, "(Array ") {
		panic("not array sort: " + s)
	}
	_, e := splitArr(s)
	return e
}

func splitArr(s string) (string, string) {
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if i.op == "cat" && a.args[1].op == "str" {
				if e := Eq(a.args[1], i); e == tFalse {
					a = a.args[0]
					continue
				} else {
					return Ite(e, a.args[2], Select(a.args[0], i))
				}
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" {
			x := Select(a.args[1], i)
			y := Select(a.args[2], i)
			if x == y {
				return x
			}
			if x.op != "select" || y.op != "select" {
				return Ite(a.args[0], x, y)
			}
		}
		break
	}
	return mk("select", arrElemSort(a.sort), "", a, i)
}

func Store(a, i, v *Term) *Term {
	if arrElemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("Store sort mismatch %s vs %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, "", a, i, v)
}

func ConstArr(sort string, v *Term) *Term { return mk("constarr", sort, "", v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return quant("forall", vars, body, pats...)
}
func Exists(vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return quant("exists", vars, body)
}

func quant(op string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	var sb strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&sb, "%d,", v.id)
	}
	for _, p := range pats {
		sb.WriteByte(';')
		for _, q := range p {
			fmt.Fprintf(&sb, "%d,", q.id)
		}
	}
	t := mk(op, "Bool", sb.String(), body)
	t.bvars = vars
	t.pats = pats
	// recompute bound: free bvars other than vars
	t.bound = hasFree(body, vars)
	return t
}

func hasFree(t *Term, bound []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, b map[*Term]bool) bool
	rec = func(t *Term, b map[*Term]bool) bool {
		if !t.bound {
			return false
		}
		if t.op == "bvar" {
			return !b[t]
		}
		if len(t.bvars) == 0 {
			if seen[t] {
				return false
			}
			seen[t] = true
		}
		nb := b
		if len(t.bvars) > 0 {
			nb = map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.bvars {
				nb[v] = true
			}
		}
		for _, a := range t.args {
			if rec(a, nb) {
				return true
			}
		}
		return false
	}
	b := map[*Term]bool{}
	for _, v := range bound {
		b[v] = true
	}
	return rec(t, b)
}

// substitute maps terms (vars) to terms, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		var pats [][]*Term
		if len(t.bvars) > 0 {
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					y := rec(x)
					if y != x {
						ch = true
					}
					q = append(q, y)
				}
				pats = append(pats, q)
			}
		}
		if ch {
			if len(t.bvars) > 0 {
				r = quant(t.op, t.bvars, args[0], pats...)
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		if len(args) == 1 {
			return Neg(args[0])
		}
		return Sub(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "idx":
		return sliceIdx(args[0], args[1])
	case "app":
		return appOut(args[0], args[1])
	case "cat":
		return catStr(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "slen":
		return strLen(args[0])
	case "sat":
		return strAt(args[0], args[1])
	case "ssub":
		return subStr(args[0], args[1], args[2])
	case "lower":
		return strLower(args[0])
	case "godiv":
		return goDiv(args[0], args[1])
	case "shl":
		return shl(args[0], args[1])
	case "bitor":
		return bitor(args[0], args[1])
	}
	if strings.HasPrefix(t.op, "pf!") {
		return pfApp(t.op, t.sort, args[0])
	}
	if strings.HasPrefix(t.op, "get!") {
		return getField(t.op, t.sort, args[0])
	}
	return mk(t.op, t.sort, t.name, args...)
}

// datatype field selection: op "get!<ctor>!<idx>"
func getField(op, sort string, v *Term) *Term {
	rest := op[len("get!"):]
	k := strings.LastIndex(rest, "!")
	ctor := "mk!" + rest[:k]
	idx, _ := strconv.Atoi(rest[k+1:])
	if v.op == ctor {
		return v.args[idx]
	}
	if v.op == "ite" && (v.args[1].op == ctor || v.args[2].op == ctor) {
		return Ite(v.args[0], getField(op, sort, v.args[1]), getField(op, sort, v.args[2]))
	}
	return mk(op, sort, "", v)
}

// ---- printing ----

func sym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$%&*+-/<=>?@^~", c)) {
			ok = false
			break
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

func (t *Term) short() string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (t *Term) String() string {
	p := &printer{named: map[*Term]string{}, strs: nil}
	return p.expr(t)
}

type printer struct {
	named map[*Term]string
	strs  map[string]string // literal -> symbol
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	return p.raw(t)
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.n.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.n).String() + ")"
		}
		return t.n.String()
	case "str":
		if p.strs != nil {
			return p.strs[t.name]
		}
		return strconv.Quote(t.name)
	case "var", "bvar":
		return sym(t.name)
	case "constarr":
		return "((as const " + t.sort + ") " + p.raw(t.args[0]) + ")"
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			sb.WriteString("(" + sym(v.name) + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.expr(t.args[0]))
		for _, pt := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteString(" ")
				}
				sb.WriteString(p.expr(x))
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	if len(t.args) == 0 {
		return sym(t.op)
	}
	var sb strings.Builder
	sb.WriteString("(" + sym(t.op))
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(p.expr(a))
	}
	sb.WriteString(")")
	return sb.String()
}

// collect walks terms, gathering vars, string literals, and applied symbols.
type collected struct {
	seen  map[*Term]bool
	count map[*Term]int
	vars  []*Term
	strs  map[string]bool
	order []*Term // post-order
	bops  map[string]bool
	ops   map[string]*Term
	sorts map[string]bool
}

func newCollected() *collected {
	return &collected{seen: map[*Term]bool{}, count: map[*Term]int{}, strs: map[string]bool{}, ops: map[string]*Term{}, sorts: map[string]bool{}}
}

func (c *collected) walk(t *Term) {
	c.count[t]++
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	c.sorts[t.sort] = true
	for _, v := range t.bvars {
		c.sorts[v.sort] = true
	}
	for _, a := range t.args {
		c.walk(a)
	}
	for _, p := range t.pats {
		for _, x := range p {
			c.walk(x)
		}
	}
	switch t.op {
	case "var":
		c.vars = append(c.vars, t)
	case "str":
		c.strs[t.name] = true
	case "bvar", "int", "true", "false", "forall", "exists":
	default:
		if _, ok := c.ops[t.op]; !ok {
			c.ops[t.op] = t
		}
	}
	c.order = append(c.order, t)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
