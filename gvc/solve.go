package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// query builds the SMT-LIB text whose unsatisfiability proves the goal.
func (eng *Engine) query(c *Ctx, facts []*Term, pc, goal *Term, depth int) string {
	return eng.queryOpt(c, facts, pc, goal, depth, true)
}

func (eng *Engine) queryOpt(c *Ctx, facts []*Term, pc, goal *Term, depth int, filter bool) string {
	lits := map[*Term]bool{}
	for _, x := range conj(pc) {
		lits[x] = true
	}
	ng := Not(goal)
	var asserts []*Term
	seen := map[*Term]bool{}
	addA := func(t *Term) {
		if t == tTrue || seen[t] {
			return
		}
		seen[t] = true
		asserts = append(asserts, t)
	}
	// skeleton: pc and negated goal first
	addA(pc)
	if goal.op == "=>" {
		addA(goal.args[0])
		addA(Not(goal.args[1]))
		for _, x := range conj(goal.args[0]) {
			lits[x] = true
		}
	} else {
		addA(ng)
	}
	for _, f := range facts {
		if f.op == "=>" {
			dead := false
			var rest []*Term
			for _, x := range conj(f.args[0]) {
				if lits[Not(x)] {
					dead = true
					break
				}
				if !lits[x] {
					rest = append(rest, x)
				}
			}
			if dead {
				continue
			}
			f = Implies(And(rest...), f.args[1])
		}
		addA(f)
	}
	// instantiate definitions
	if depth <= 0 {
		depth = eng.defDepth
	}
	unf := map[*Term]bool{}
	var opaque map[string]bool
	if c.con != nil {
		opaque = c.con.opaque
	}
	quants := false
	level := append(append([]*Term{}, asserts...), storedApps(asserts)...)
	for d := 0; d < depth; d++ {
		col := newCollected()
		for _, a := range level {
			col.walk(a)
		}
		var next []*Term
		for _, t := range col.order {
			if strHasPrefix(t.op, "D!") && !t.bound && !unf[t] && !opaque[t.op] {
				if l := eng.spec.defs[t.op[2:]].level; l > 0 && d >= l {
					continue
				}
				unf[t] = true
				if eq := c.unfold(t); eq != nil {
					n := len(asserts)
					addA(eq)
					if len(asserts) > n {
						next = append(next, eq)
					}
				}
			}
		}
		if len(next) == 0 {
			break
		}
		level = next
	}
	// non-recursive definitions are unfolded completely in what remains
	for d := 0; d < 12; d++ {
		col := newCollected()
		for _, a := range asserts {
			col.walk(a)
		}
		n := 0
		for _, t := range col.order {
			if strHasPrefix(t.op, "D!") && !t.bound && !unf[t] && !opaque[t.op] && !eng.recDef(t.op[2:]) {
				unf[t] = true
				if eq := c.unfold(t); eq != nil {
					addA(eq)
					n++
				}
			}
		}
		if n == 0 {
			break
		}
	}
	// axioms: those whose function symbols occur
	for round := 0; round < 4; round++ {
		col := newCollected()
		for _, a := range asserts {
			col.walk(a)
		}
		n := len(asserts)
		for _, ax := range eng.axiomTerms(c) {
			for _, op := range ax.ops {
				if _, ok := col.ops[op]; ok {
					addA(ax.t)
					break
				}
			}
		}
		// quantified definitions for applications under binders
		for _, op := range sortedKeys(col.ops) {
			if strHasPrefix(op, "D!") && !opaque[op] && col.boundOps()[op] && eng.spec.defs[op[2:]].level == 0 {
				addA(eng.quantDef(c, op[2:]))
			}
		}
		if len(asserts) == n {
			break
		}
		// definitions exposed by axioms
	}
	col := newCollected()
	for _, a := range asserts {
		col.walk(a)
	}
	// the published nodes built by package initialisation
	for _, k := range sortedKeys(frozenPF) {
		i := strings.LastIndex(k, "@")
		if _, ok := col.ops[k[:i]]; ok {
			v := frozenPF[k]
			n, _ := strconv.ParseInt(k[i+1:], 10, 64)
			addA(Eq(mk(k[:i], v.sort, "", Int(n)), v))
		}
	}
	// ground facts on strings
	catLen := false
	for _, t := range col.order {
		if t.bound {
			continue
		}
		if strHasPrefix(t.op, "card!") {
			addA(Le(Int(0), t))
		}
		switch t.op {
		case "idx":
			addA(Eq(t, Add(t.args[0], t.args[1])))
		case "cat":
			if a := t.args[0]; a.op == "str" {
				addA(Le(Int(int64(len(a.name))), App("slen", sInt, t)))
				catLen = true
			}
		case "slen":
			addA(Le(Int(0), t))
			if t.args[0].op == "ssub" {
				s := t.args[0]
				addA(Implies(And(Le(Int(0), s.args[1]), Le(s.args[1], s.args[2]), Le(s.args[2], strLen(s.args[0]))), Eq(t, Sub(s.args[2], s.args[1]))))
			}
		case "sat":
			addA(And(Le(Int(0), t), Lt(t, Int(256))))
			if s := t.args[0]; s.op == "ssub" {
				addA(Implies(And(Le(Int(0), s.args[1]), Le(Int(0), t.args[1]), Lt(Add(s.args[1], t.args[1]), s.args[2]), Le(s.args[2], strLen(s.args[0]))), Eq(t, strAt(s.args[0], Add(s.args[1], t.args[1])))))
			}
		}
	}
	for _, a := range asserts {
		if len(a.bvars) > 0 || a.op == "=>" && len(a.args[1].bvars) > 0 {
			quants = true
		}
	}
	_ = quants
	if col.boundOps()["idx"] {
		o, i := BVar("ixo", sInt), BVar("ixi", sInt)
		t := mk("idx", "Int", "", o, i)
		addA(Forall([]*Term{o, i}, Eq(t, Add(o, i)), []*Term{t}))
	}
	_, hasLower := col.ops["lower"]
	_, hasLen := col.ops["slen"]
	hasLen = hasLen || catLen
	_, hasAt := col.ops["sat"]
	var litNames []string
	for s := range col.strs {
		litNames = append(litNames, s)
	}
	sort.Strings(litNames)
	if hasLower {
		for _, s := range litNames {
			addA(Eq(mk("lower", sStr, "", Str(s)), Str(strings.ToLower(s))))
		}
	}
	if hasLen {
		for _, s := range litNames {
			addA(Eq(mk("slen", sInt, "", Str(s)), Int(int64(len(s)))))
		}
		// only the empty string has length zero
		if col.strs[""] || true {
			b := BVar("es", sStr)
			addA(Forall([]*Term{b}, Implies(Eq(App("slen", sInt, b), Int(0)), Eq(b, Str(""))), []*Term{App("slen", sInt, b)}))
		}
	}
	if hasAt {
		for _, s := range litNames {
			for i := 0; i < len(s) && i < 12; i++ {
				addA(Eq(mk("sat", sInt, "", Str(s), Int(int64(i))), Int(int64(s[i]))))
			}
		}
	}
	return eng.print(asserts)
}

// boundOps: function symbols applied to bound variables.
func (c *collected) boundOps() map[string]bool {
	if c.bops == nil {
		c.bops = map[string]bool{}
		for _, t := range c.order {
			if t.bound && len(t.args) > 0 {
				c.bops[t.op] = true
			}
		}
	}
	return c.bops
}

func (eng *Engine) print(asserts []*Term) string {
	col := newCollected()
	for _, a := range asserts {
		col.walk(a)
	}
	var b strings.Builder
	b.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n")
	head := b.String()
	b.Reset()
	// sorts
	used := map[string]bool{}
	var useSort func(s string)
	var dts []string
	useSort = func(s string) {
		if used[s] {
			return
		}
		used[s] = true
		switch {
		case strHasPrefix(s, "(Array "):
			k, v := splitArr(s)
			useSort(k)
			useSort(v)
		case strHasPrefix(s, "S!"):
			si := structs[s[2:]]
			for _, f := range si.fsorts {
				useSort(f)
			}
			dts = append(dts, s)
		}
	}
	var sn []string
	for s := range col.sorts {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		useSort(s)
	}
	var un []string
	for s := range used {
		switch {
		case s == "Int" || s == "Bool" || strHasPrefix(s, "(Array ") || strHasPrefix(s, "S!") || s == sIface || s == sSlice:
		default:
			un = append(un, s)
		}
	}
	sort.Strings(un)
	for _, s := range un {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", sym(s))
	}
	if used[sIface] {
		b.WriteString("(declare-datatypes ((Iface 0)) (((mk!iface (get!iface!0 Int) (get!iface!1 Int)))))\n")
	}
	if used[sSlice] {
		b.WriteString("(declare-datatypes ((Slice 0)) (((mk!slice (get!slice!0 Int) (get!slice!1 Int) (get!slice!2 Int) (get!slice!3 Int)))))\n")
	}
	for _, s := range dts {
		si := structs[s[2:]]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", sym(si.sort), sym(si.ctor))
		for i, f := range si.fsorts {
			fmt.Fprintf(&b, " (%s %s)", sym(fmt.Sprintf("get!S!%s!%d", si.name, i)), sortSym(f))
		}
		b.WriteString("))))\n")
	}
	// variables
	names := map[string]bool{}
	p := &printer{named: map[*Term]string{}, strs: map[string]string{}}
	vs := col.vars
	sort.Slice(vs, func(i, j int) bool { return vs[i].name+vs[i].sort < vs[j].name+vs[j].sort })
	for _, v := range vs {
		n := sym(v.name)
		for names[n] {
			n = sym(v.name + "~" + v.sort)
		}
		names[n] = true
		p.named[v] = n
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", n, sortSym(v.sort))
	}
	var lits []string
	for s := range col.strs {
		lits = append(lits, s)
	}
	sort.Strings(lits)
	for i, s := range lits {
		n := fmt.Sprintf("str!%d", i)
		p.strs[s] = n
		fmt.Fprintf(&b, "(declare-fun %s () Str) ; %s\n", n, strconv.Quote(s))
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for i := range lits {
			fmt.Fprintf(&b, " str!%d", i)
		}
		b.WriteString("))\n")
	}
	var flts []string
	for _, v := range vs {
		if strHasPrefix(v.name, "flt!") {
			flts = append(flts, p.named[v])
		}
	}
	if len(flts) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(flts, " ") + "))\n")
	}
	// functions
	for _, op := range sortedKeys(col.ops) {
		t := col.ops[op]
		if builtinOp(op) {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (", sym(op))
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(sortSym(a.sort))
		}
		fmt.Fprintf(&b, ") %s)\n", sortSym(t.sort))
	}
	// ground subterms of patterns become constants: solvers reject boolean structure within patterns
	inPat := map[*Term]bool{}
	var markPat func(t *Term)
	markPat = func(t *Term) {
		if !t.bound && len(t.bvars) == 0 {
			if len(t.args) > 0 && hasBoolOp(t) {
				inPat[t] = true
			}
			return
		}
		for _, a := range t.args {
			markPat(a)
		}
	}
	for _, t := range col.order {
		for _, p := range t.pats {
			for _, x := range p {
				markPat(x)
			}
		}
	}
	// shared ground subterms
	n := 0
	for _, t := range col.order {
		if t.bound || len(t.args) == 0 || len(t.bvars) > 0 {
			continue
		}
		if t.op == "constarr" {
			name := fmt.Sprintf("ca!%d", n)
			n++
			// one line: runSolver rewrites it for solvers with limited support
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", name, sortSym(t.sort), p.raw(t))
			p.named[t] = name
			continue
		}
		if inPat[t] {
			body := p.raw(t)
			name := fmt.Sprintf("t!%d", n)
			n++
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n(assert (= %s %s))\n", name, sortSym(t.sort), name, body)
			p.named[t] = name
			continue
		}
		if col.count[t] > 1 && t.op != "int" {
			body := p.raw(t)
			name := fmt.Sprintf("t!%d", n)
			n++
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", name, sortSym(t.sort), body)
			p.named[t] = name
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		b.WriteString(p.expr(a))
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return head + b.String()
}

// hasBoolOp: does the term contain ite or a boolean connective?
func hasBoolOp(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "<", "<=":
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func sortSym(s string) string {
	if strHasPrefix(s, "(Array ") {
		k, v := splitArr(s)
		return "(Array " + sortSym(k) + " " + sortSym(v) + ")"
	}
	return sym(s)
}

func builtinOp(op string) bool {
	switch op {
	case "not", "and", "or", "=>", "=", "ite", "+", "-", "*", "<", "<=", "select", "store", "constarr", "div", "mod", "forall", "exists":
		return true
	}
	return strHasPrefix(op, "mk!") || strHasPrefix(op, "get!")
}

// ---- axioms ----

type axTerm struct {
	name string
	t    *Term
	ops  []string
}

func (eng *Engine) axiomTerms(c *Ctx) []axTerm {
	if eng.axMemo != nil {
		return eng.axMemo
	}
	eng.axMemo = []axTerm{}
	for _, a := range eng.spec.axioms {
		t, trig := eng.axiomTerm(c, a)
		ax := axTerm{a.name, t, nil}
		col := newCollected()
		for _, p := range trig {
			for _, x := range p {
				col.walk(x)
			}
		}
		if len(trig) == 0 {
			col.walk(t)
		}
		for _, op := range sortedKeys(col.ops) {
			if !builtinOp(op) {
				ax.ops = append(ax.ops, op)
			}
		}
		eng.axMemo = append(eng.axMemo, ax)
	}
	return eng.axMemo
}

func (eng *Engine) axiomTerm(c *Ctx, a *Axiom) (*Term, [][]*Term) {
	st := &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Val{}, cnt: Int(0)}
	en := &SEnv{c: c, st: st, vars: map[string]SV{}, pure: true, where: "axiom " + a.name}
	var bs []*Term
	for _, p := range a.vars {
		t, s := eng.resolveType(p.typ)
		b := BVar("ax."+p.name, s)
		bs = append(bs, b)
		en.vars[p.name] = SV{v: b, t: t, s: s}
	}
	c.specDepth++
	defer func() { c.specDepth-- }()
	var pats [][]*Term
	for _, p := range a.pats {
		var q []*Term
		for _, x := range p {
			q = append(q, en.term(x))
		}
		pats = append(pats, q)
	}
	body := en.bool_(a.body)
	if len(bs) == 0 {
		return body, nil
	}
	return Forall(bs, body, pats...), pats
}

// quantDef: a definition as a quantified equation, triggered by its own application.
func (eng *Engine) quantDef(c *Ctx, name string) *Term {
	if t, ok := eng.qdMemo[name]; ok {
		return t
	}
	d := eng.spec.defs[name]
	st := &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Val{}, cnt: Int(0)}
	en := &SEnv{c: c, st: st, vars: map[string]SV{}, pure: true, where: name}
	var bs []*Term
	for _, p := range d.params {
		t, s := eng.resolveType(p.typ)
		b := BVar("qd."+p.name, s)
		bs = append(bs, b)
		en.vars[p.name] = SV{v: b, t: t, s: s}
	}
	c.specDepth++
	defer func() { c.specDepth-- }()
	r := en.eval(d.body)
	rt, rs := eng.resolveType(d.ret)
	r = en.conv(r, rt)
	ap := App("D!"+name, rs, bs...)
	t := Forall(bs, Eq(ap, c.asTerm(st, r.v, r.t)), []*Term{ap})
	eng.qdMemo[name] = t
	return t
}

// recDef: is the definition (mutually) recursive?
func (eng *Engine) recDef(name string) bool {
	if r, ok := eng.recMemo[name]; ok {
		return r
	}
	seen := map[string]bool{}
	var visit func(e *E)
	found := false
	visit = func(e *E) {
		if e == nil || found {
			return
		}
		if e.k == "id" {
			if e.s == name {
				found = true
				return
			}
			if d := eng.spec.defs[e.s]; d != nil && !seen[e.s] {
				seen[e.s] = true
				visit(d.body)
			}
		}
		for _, a := range e.a {
			visit(a)
		}
	}
	visit(eng.spec.defs[name].body)
	eng.recMemo[name] = found
	return found
}

// ---- running solvers ----

type solveRes struct {
	res    string // unsat, sat, unknown, timeout, error
	solver string
	out    string
	ms     int64
	cached bool
}

var solverSem = make(chan struct{}, runtime.NumCPU()+3)

type solverCache struct {
	mu sync.Mutex
	m  map[string]solveRes
}

var scache = &solverCache{m: map[string]solveRes{}}

// solverDeadline, when set, ends all solving of the run.
var solverDeadline time.Time

var statQueries, statSolverMs int64

func runSolver(name, text string, tmo time.Duration, model bool) solveRes {
	sum := sha256.Sum256([]byte(name + fmt.Sprint(tmo, model) + text))
	key := hex.EncodeToString(sum[:])
	scache.mu.Lock()
	if r, ok := scache.m[key]; ok {
		scache.mu.Unlock()
		r.cached = true
		return r
	}
	scache.mu.Unlock()
	dir := os.Getenv("GVC_CACHE")
	if dir != "" {
		if b, err := os.ReadFile(filepath.Join(dir, key)); err == nil {
			parts := strings.SplitN(string(b), "\n", 2)
			r := solveRes{res: parts[0], solver: name, cached: true}
			if len(parts) > 1 {
				r.out = parts[1]
			}
			scache.mu.Lock()
			scache.m[key] = r
			scache.mu.Unlock()
			return r
		}
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if !solverDeadline.IsZero() && time.Now().After(solverDeadline) {
		return solveRes{res: "timeout", solver: name, out: "the time for the whole check has run out"}
	}
	start := time.Now()
	var cmd *exec.Cmd
	wall := 5 * tmo
	if name == "cvc5" {
		wall = tmo
	}
	ctx, cancel := context.WithTimeout(context.Background(), wall+2*time.Second)
	defer cancel()
	sec := fmt.Sprint(int(wall.Seconds() + 0.999))
	in := text
	switch name {
	case "z3", "z3-new":
		// the limit is on the solver's own steps, so that the outcome does not depend on the load
		args := []string{"-T:" + sec, "-memory:4000", "-in", "-smt2"}
		rate := 4.5e6
		if name == "z3-new" {
			rate = 6e6
			args = append(args, "smt.arith.solver=2")
		}
		args = append(args, fmt.Sprintf("rlimit=%d", int64(rate*tmo.Seconds())))
		cmd = exec.CommandContext(ctx, name, args...)
		if model {
			in = text + "(get-model)\n"
		}
	case "cvc5":
		var keep []string
		for _, l := range strings.Split(text, "\n") {
			if strHasPrefix(l, "(set-option") {
				continue
			}
			if m := constArrLine.FindStringSubmatch(l); m != nil {
				// cvc5 rejects store chains over distinct constant arrays: state what they hold instead
				l = fmt.Sprintf("(declare-fun %s () %s)\n(assert (forall ((ix Int)) (! (= (select %s ix) %s) :pattern ((select %s ix)))))", m[1], m[2], m[1], m[3], m[1])
			}
			keep = append(keep, l)
		}
		in = "(set-logic ALL)\n" + strings.Join(keep, "\n")
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--tlimit="+fmt.Sprint(tmo.Milliseconds()), "-")
	}
	cmd.Stdin = strings.NewReader(in)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	err := cmd.Run()
	out := ob.String()
	ms := time.Since(start).Milliseconds()
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statSolverMs, ms)
	r := solveRes{solver: name, ms: ms, out: out}
	first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	switch {
	case first == "unsat":
		r.res = "unsat"
	case first == "sat":
		r.res = "sat"
	case first == "unknown":
		r.res = "unknown"
	case strings.Contains(out, "timeout") || ctx.Err() != nil:
		r.res = "timeout"
	default:
		r.res = "error"
		if err != nil && out == "" {
			r.out = err.Error()
		}
	}
	if d := os.Getenv("GVC_SLOW"); d != "" && r.ms > slowMs {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("%05d-%s-%s-%s.smt2", r.ms, name, r.res, key[:6])), []byte(text), 0o644)
	}
	scache.mu.Lock()
	scache.m[key] = r
	scache.mu.Unlock()
	if dir != "" && r.res != "error" {
		os.WriteFile(filepath.Join(dir, key), []byte(r.res+"\n"+r.out), 0o644)
	}
	return r
}

// storedApps: definitions quantified over the elements of a sequence, applied to the values that the
// path stores into sequences.
func storedApps(asserts []*Term) []*Term {
	col := newCollected()
	for _, a := range asserts {
		col.walk(a)
	}
	var vals []*Term
	seen := map[*Term]bool{}
	for _, t := range col.order {
		if t.op == "store" && !t.bound && t.args[2].sort == sIface && t.args[2].op == "mk!iface" && !seen[t.args[2]] {
			seen[t.args[2]] = true
			vals = append(vals, t.args[2])
		}
	}
	if len(vals) == 0 || len(vals) > 12 {
		return nil
	}
	var out []*Term
	for _, t := range col.order {
		if !t.bound || !strHasPrefix(t.op, "D!") {
			continue
		}
		k := -1
		for i, a := range t.args {
			if a.bound {
				if k >= 0 || a.op != "select" || a.sort != sIface {
					k = -2
					break
				}
				k = i
			}
		}
		if k < 0 {
			continue
		}
		for _, v := range vals {
			args := append([]*Term{}, t.args...)
			args[k] = v
			u := mk(t.op, t.sort, t.name, args...)
			if !seen[u] {
				seen[u] = true
				out = append(out, u)
			}
		}
	}
	return out
}

var constArrLine = regexp.MustCompile(`^\(define-fun (ca!\d+) \(\) (\(Array Int .*?\)) \(\(as const \(Array Int .*?\)\) (.*)\)\)$`)

// quick proves a goal with the short time limit.
func (eng *Engine) quick(c *Ctx, facts []*Term, pc, goal *Term) bool {
	return eng.quickPrep(c, facts, pc, goal, eng.quickTmo)()
}

func (eng *Engine) quickPrep(c *Ctx, facts []*Term, pc, goal *Term, tmo time.Duration) func() bool {
	if goal == tFalse && pc == tTrue {
		return func() bool { return false }
	}
	text := eng.query(c, facts, pc, goal, c.depthOf())
	return func() bool {
		r := runSolver("z3-new", text, tmo, false)
		if r.res == "error" {
			fmt.Fprintln(os.Stderr, "solver error:", r.out)
			dumpQuery("error", text)
			return false
		}
		if r.res == "unsat" {
			return true
		}
		if r.res != "sat" {
			r = runSolver("z3", text, tmo, false)
			return r.res == "unsat"
		}
		return false
	}
}

func (c *Ctx) depthOf() int {
	if c.con != nil && c.con.depth > 0 {
		return c.con.depth
	}
	return 0
}

func dumpQuery(name, text string) {
	if d := os.Getenv("GVC_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, strings.NewReplacer("/", "_", " ", "_", "*", "").Replace(name)+".smt2"), []byte(text), 0o644)
	}
}

// prepare builds the query of an obligation (not concurrent); the result discharges it (concurrent).
func (eng *Engine) prepare(c *Ctx, o *Obl) func() {
	if o.Trivial {
		return func() {}
	}
	text := eng.query(c, o.facts, o.cond, o.goal, o.depth)
	o.facts = nil
	return func() {
		dumpQuery(o.Name, text)
		var outs []string
		for _, s := range eng.solvers {
			r := runSolver(s, text, eng.tmo, false)
			o.Ms += r.ms
			outs = append(outs, s+": "+firstLines(r.out, 3))
			if r.res == "unsat" {
				o.Status, o.Solver, o.Cached = "proved", s, r.cached
				return
			}
			o.Solver = s
			o.Status = r.res
			if r.res == "sat" && eng.defDepth > 0 {
				// a model of the quantifier-free part is definite only without quantifiers; the other
				// solvers would agree
				if s == "z3-new" {
					continue
				}
				break
			}
		}
		if o.Status == "sat" || o.Status == "unknown" {
			if r := runSolver("z3-new", text, eng.tmo, true); r.res == "sat" || r.res == "unknown" {
				outs = append(outs, "model: "+firstLines(r.out, 120))
			}
		}
		o.Output = strings.Join(outs, "\n")
		dumpQuery("FAIL-"+o.Name, text)
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func parallel(fs []func()) {
	var wg sync.WaitGroup
	ch := make(chan func())
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	for _, f := range fs {
		ch <- f
	}
	close(ch)
	wg.Wait()
}

var slowMs = func() int64 {
	n := int64(500)
	fmt.Sscan(os.Getenv("GVC_SLOWMS"), &n)
	return n
}()
