package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Name  string
	Kind  string
	Fn    string
	Tags  []string
	Pos   string
	facts []*Term
	goal  *Term
	cond  *Term // pc
	// results
	Status  string
	Solver  string
	Ms      int64
	Output  string
	Cached  bool
	Trivial bool
	depth   int
	Src     string
}

// Ctx is the verification of one function.
type Ctx struct {
	fnFields    []fnField
	eng         *Engine
	fn          *ssa.Function
	con         *Contract
	facts       []*Term
	obls        []*Obl
	fresh       int
	dry         int
	entry       *State
	entryArgs   []Val
	entryHeap   map[string]*Term
	specDepth   int
	tfSeen      map[*Term]bool
	depth       int // inline depth
	stack       []*ssa.Function
	pub         []pubEvent
	counts      map[string]int
	curPos      token.Pos
	cellN       int
	iters       []*MapIter
	inits       bool
	modset      []modLoc
	loopInfo    map[string]int
	nhoudini    int
	unused      int
	houdObls    []*Obl
	caseName    string
	frames      int
	curFrame    *Frame
	invUsed     map[*Clause]bool
	entryCnt    *Term
	decEntry    []*Term
	noteSet     map[string]bool
	silentInit  bool
	bvarN       int
	notOwned    map[*Term]bool
	condSink    func(b *ssa.BasicBlock, t *Term)
	silentSolve bool
	entryVars   map[string]SV
}

type pubEvent struct {
	guard *Term // pc
	own   *Term // own set to publish (array term)
	heap  map[string]*Term
}

type modLoc struct {
	comp string
	ref  *Term
	all  bool // whole component
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	free     []Val
	rets     []retOut
	panics   []panicOut
	defers   []deferred
	loops    map[*ssa.BasicBlock]*Loop
	rpo      map[*ssa.BasicBlock]int
	order    []*ssa.BasicBlock
	panicVal *Cell
	recov    *Cell
	parent   *Frame
	names    map[string]ssa.Value
}

type retOut struct {
	st *State
	vs []Val
}
type panicOut struct {
	st *State
	v  *Term // Iface
}
type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, map[*ssa.BasicBlock]int, []*ssa.BasicBlock) {
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
		// recover block last
		order = append([]*ssa.BasicBlock{fn.Recover}, order[:len(order)-1]...)
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	rpo := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		rpo[b] = i
	}
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			} else if rpo[s] <= rpo[b] {
				limit("irreducible control flow in %s", fn)
			}
		}
	}
	return loops, rpo, order
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (c *Ctx) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent}
	fr.loops, fr.rpo, fr.order = findLoops(fn)
	return fr
}

// runRegion executes blocks of the region starting at start with the state; returns edges leaving
// the region and back edges to `header`.
func (c *Ctx) runRegion(fr *Frame, region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, st *State, header *Loop) (exits, backs []edge) {
	return c.runFrom(fr, region, start, []edge{{nil, start, st}}, header)
}

func (c *Ctx) runFrom(fr *Frame, region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, in []edge, header *Loop) (exits, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	first := true
	pending[start] = in
	split := region == nil && c.con != nil && c.con.flags["split"] && fr.fn == c.fn
	for _, b := range fr.order {
		if region != nil && !region[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if split && len(es) > 4 {
			// the rest of the function for each way to get here
			for _, e := range es {
				c.runFrom(fr, nil, b, []edge{e}, nil)
			}
			continue
		}
		var outs []edge
		if l := fr.loops[b]; l != nil && !(first && b == start && header == l) {
			outs = c.runLoop(fr, l, es)
		} else {
			st := c.enterBlock(fr, b, es)
			if st != nil {
				outs = c.execBlock(fr, b, st)
			}
		}
		first = false
		for _, e := range outs {
			if e.st.pc == tFalse {
				continue
			}
			if header != nil && e.to == header.header {
				backs = append(backs, e)
				continue
			}
			if region != nil && !region[e.to] {
				exits = append(exits, e)
				continue
			}
			pending[e.to] = append(pending[e.to], e)
		}
	}
	return
}

// enterBlock merges edges and evaluates phis.
func (c *Ctx) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var live []edge
	for _, e := range es {
		if e.st.pc != tFalse {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil
	}
	es = live
	var ss []*State
	var pcs []*Term
	for _, e := range es {
		ss = append(ss, e.st)
		pcs = append(pcs, e.st.pc)
	}
	_, conds := commonConj(pcs)
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if es[0].from == nil {
			break // loop header entered with preset phis
		}
		var vs []Val
		for _, e := range es {
			vs = append(vs, c.phiVal(fr, p, e))
		}
		phis = append(phis, p)
		vals = append(vals, mergeVals(conds, vs))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	return c.mergeStates(ss)
}

func (c *Ctx) phiVal(fr *Frame, p *ssa.Phi, e edge) Val {
	for i, pr := range p.Block().Preds {
		if pr == e.from {
			return c.val(fr, e.st, p.Edges[i])
		}
	}
	panic("phi: no pred")
}

// phi edges must be evaluated when the edge is created since env may be overwritten by loops;
// values defined inside an inlined loop iteration are read before the next iteration starts.

func (c *Ctx) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	for _, ins := range b.Instrs {
		if p := ins.Pos(); p.IsValid() {
			c.curPos = p
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := c.term(fr, st, x.Cond)
			if c.condSink != nil {
				c.condSink(b, cond)
			}
			var out []edge
			if cond != tFalse {
				out = append(out, edge{b, b.Succs[0], st.with(cond)})
			}
			if cond != tTrue {
				out = append(out, edge{b, b.Succs[1], st.with(Not(cond))})
			}
			return out
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, c.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retOut{st, vs})
			return nil
		case *ssa.Panic:
			v := c.term(fr, st, x.X)
			fr.panics = append(fr.panics, panicOut{st, v})
			return nil
		default:
			st = c.execInstr(fr, ins, st)
			if st == nil || st.pc == tFalse {
				return nil
			}
		}
	}
	return nil
}

// execFn inlines/executes a function body. Returns normal outcome (merged) and panics.
func (c *Ctx) execFn(fn *ssa.Function, args []Val, free []Val, st *State, parent *Frame) (*State, Val, []panicOut) {
	for _, f := range c.stack {
		if f == fn {
			limit("recursive function %s has no contract", fnName(fn))
		}
	}
	if len(c.stack) > 40 {
		limit("inline depth exceeded at %s", fnName(fn))
	}
	if fn.Blocks == nil {
		limit("function %s has no body", fnName(fn))
	}
	c.stack = append(c.stack, fn)
	savedPos := c.curPos
	savedFrame := c.curFrame
	defer func() { c.stack = c.stack[:len(c.stack)-1]; c.curPos = savedPos; c.curFrame = savedFrame }()
	fr := c.newFrame(fn, parent)
	c.curFrame = fr
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	fr.free = free
	if fn.Recover != nil {
		fr.panicVal = c.newCell("panicval", nil, sIface)
		st.cells[fr.panicVal] = tNilIface
	}
	exits, _ := c.runRegion(fr, nil, fn.Blocks[0], st, nil)
	if len(exits) > 0 {
		panic("exits from whole function")
	}
	// deferred functions at panic exits with recover
	if fn.Recover != nil && len(fr.panics) > 0 {
		ps := fr.panics
		fr.panics = nil
		for _, p := range ps {
			c.runPanicDefers(fr, p)
		}
	}
	if len(fr.rets) == 0 {
		return nil, nil, fr.panics
	}
	var ss []*State
	var pcs []*Term
	for _, r := range fr.rets {
		ss = append(ss, r.st)
		pcs = append(pcs, r.st.pc)
	}
	_, conds := commonConj(pcs)
	n := len(fr.rets[0].vs)
	res := make(Tuple, n)
	for k := 0; k < n; k++ {
		var vs []Val
		for _, r := range fr.rets {
			vs = append(vs, r.vs[k])
		}
		res[k] = mergeVals(conds, vs)
	}
	out := c.mergeStates(ss)
	if n == 1 {
		return out, res[0], fr.panics
	}
	return out, res, fr.panics
}

func (c *Ctx) newCell(name string, t types.Type, sort string) *Cell {
	c.cellN++
	return &Cell{id: c.cellN, name: name, typ: t, sort: sort}
}

func (c *Ctx) runPanicDefers(fr *Frame, p panicOut) {
	st := p.st.clone()
	st.cells[fr.panicVal] = p.v
	recovered := false
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		cl, ok := d.fn.(*Closure)
		if !ok {
			limit("defer of non-closure with recover")
		}
		if callsRecover(cl.fn) {
			recovered = true
		}
		ns, _, ps := c.execFn(cl.fn, d.args, cl.binds, st, fr)
		fr.panics = append(fr.panics, ps...)
		if ns == nil {
			return
		}
		st = ns
	}
	if !recovered {
		fr.panics = append(fr.panics, panicOut{st, p.v})
		return
	}
	// execute the recover block
	outs := c.execBlock(fr, fr.fn.Recover, st)
	if len(outs) > 0 {
		limit("complex recover block")
	}
}

func callsRecover(fn *ssa.Function) bool {
	// recover must be called on every path: require it in the entry block
	for _, ins := range fn.Blocks[0].Instrs {
		if call, ok := ins.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
				return true
			}
		}
	}
	return false
}

// ---- values ----

func (c *Ctx) term(fr *Frame, st *State, v ssa.Value) *Term {
	x := c.val(fr, st, v)
	return c.asTerm(st, x, v.Type())
}

func (c *Ctx) asTerm(st *State, x Val, t types.Type) *Term {
	switch y := x.(type) {
	case *Term:
		return y
	case *Closure:
		return Var("fn!"+fnName(y.fn), sInt)
	case *Addr:
		if y.kind == aCell {
			return Var(fmt.Sprintf("addr!cell%d", y.cell.id), sInt)
		}
		return App("addr!"+y.comp, sInt, y.ref)
	}
	limit("no term for value %T of type %s", x, t)
	return nil
}

func (c *Ctx) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return c.constVal(x)
	case *ssa.Global:
		n := "G!" + globalName(x)
		t := x.Type().(*types.Pointer).Elem()
		if isStructT(t) {
			return Var("gaddr!"+n, sInt)
		}
		c.regComp(n, sortOf(t))
		return &Addr{kind: aGlobal, comp: n, typ: t}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		limit("builtin as value")
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func globalName(g *ssa.Global) string {
	if g.Pkg.Pkg.Path() == modPath {
		return g.Name()
	}
	return g.Pkg.Pkg.Name() + "." + g.Name()
}

func constTerm(val constant.Value, t types.Type) *Term {
	if val == nil {
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic("const of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(val))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(val)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic("int const " + v.ExactString())
		}
		return BigInt(n)
	case b.Info()&types.IsString != 0:
		return Str(constant.StringVal(val))
	case b.Info()&types.IsFloat != 0:
		return fltConst(val.ExactString())
	}
	panic("const of type " + t.String())
}

func (c *Ctx) constVal(x *ssa.Const) Val {
	if x.Value == nil {
		return zero(x.Type())
	}
	return constTerm(x.Value, x.Type())
}

// ---- addresses ----

func (c *Ctx) load(st *State, a *Addr) Val {
	var base Val
	switch a.kind {
	case aCell:
		v, ok := st.cells[a.cell]
		if !ok {
			limit("read of dead cell %s", a.cell.name)
		}
		if len(a.path) == 0 {
			return v
		}
		base = v
	case aGlobal:
		base = c.comp(st, a.comp)
	case aField, aDeref:
		base = c.readAt(st, a.comp, a.ref, a.imm)
	case aElem:
		m := c.readAt(st, a.comp, a.ref, a.imm)
		base = Select(m, a.idx)
	}
	t, ok := base.(*Term)
	if !ok {
		limit("path into non-term")
	}
	r := walkPath(t, a.path)
	c.typeFacts(st, r, a.typ)
	return r
}

func walkPath(t *Term, path []pstep) *Term {
	for _, p := range path {
		if p.field >= 0 {
			si, _ := structOf(p.typ)
			t = si.get(t, p.field)
		} else {
			t = Select(t, p.idx)
		}
	}
	return t
}

func updPath(t *Term, path []pstep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.field >= 0 {
		si, _ := structOf(p.typ)
		args := make([]*Term, si.st.NumFields())
		for i := range args {
			args[i] = si.get(t, i)
		}
		args[p.field] = updPath(args[p.field], path[1:], v)
		return si.mk(args)
	}
	return Store(t, p.idx, updPath(Select(t, p.idx), path[1:], v))
}

func (c *Ctx) store(st *State, a *Addr, v Val, why string) {
	switch a.kind {
	case aCell:
		if len(a.path) == 0 {
			st.cells[a.cell] = v
			return
		}
		st.cells[a.cell] = updPath(st.cells[a.cell].(*Term), a.path, c.asTerm(st, v, a.typ))
		return
	case aGlobal:
		c.checkWrite(st, a.comp, nil, false, why)
		st.heap[a.comp] = updPath(c.comp(st, a.comp), a.path, c.asTerm(st, v, a.typ))
		return
	}
	tv := c.asTerm(st, v, a.typ)
	arr := c.comp(st, a.comp)
	c.checkWrite(st, a.comp, a.ref, a.imm, why)
	old := Select(arr, a.ref)
	if a.kind == aElem {
		st.heap[a.comp] = Store(arr, a.ref, Store(old, a.idx, updPath(Select(old, a.idx), a.path, tv)))
		return
	}
	st.heap[a.comp] = Store(arr, a.ref, updPath(old, a.path, tv))
}

// pointer value + pointee type -> Addr or struct ref
func (c *Ctx) derefAddr(st *State, p Val, t types.Type) *Addr {
	switch x := p.(type) {
	case *Addr:
		return x
	case *Term:
		if isStructT(t) {
			return nil
		}
		c.safety(st, "nil-deref", Not(Eq(x, Int(0))))
		if arr, ok := t.Underlying().(*types.Array); ok {
			mc := memComp(arr.Elem())
			c.regComp(mc, ArrSort(sInt, ArrSort(sInt, sortOf(arr.Elem()))))
			return &Addr{kind: aDeref, comp: mc, ref: x, typ: t, imm: immElems[typeName(arr.Elem())]}
		}
		cc := cellComp(t)
		c.regComp(cc, ArrSort(sInt, sortOf(t)))
		return &Addr{kind: aDeref, comp: cc, ref: x, typ: t}
	}
	limit("deref of %T", p)
	return nil
}

func (c *Ctx) loadPtr(st *State, p Val, t types.Type) Val {
	if tm, ok := p.(*Term); ok && isStructT(t) {
		c.safety(st, "nil-deref", Not(Eq(tm, Int(0))))
		return c.loadStruct(st, t, tm)
	}
	return c.load(st, c.derefAddr(st, p, t))
}

func (c *Ctx) storePtr(st *State, p Val, t types.Type, v Val) {
	if tm, ok := p.(*Term); ok && isStructT(t) {
		c.safety(st, "nil-deref", Not(Eq(tm, Int(0))))
		c.storeStruct(st, t, tm, c.asTerm(st, v, t), "store")
		return
	}
	c.store(st, c.derefAddr(st, p, t), v, "store")
}

// ---- obligations ----

func (c *Ctx) oblige(st *State, kind, name string, tags []string, goal *Term, src string) {
	if c.dry > 0 || c.silentInit {
		return
	}
	g := Implies(st.pc, goal)
	key := kind + ":" + name
	c.counts[key]++
	nm := fnName(c.fn)
	if c.caseName != "" {
		nm += "{" + c.caseName + "}"
	}
	full := fmt.Sprintf("%s/%s/%s", nm, kind, name)
	if n := c.counts[key]; n > 1 {
		full += fmt.Sprintf("#%d", n)
	}
	o := &Obl{Name: full, Kind: kind, Fn: fnName(c.fn), Tags: tags, Pos: c.eng.repo.pos(c.curPos), facts: c.facts[:len(c.facts):len(c.facts)], goal: goal, cond: st.pc, Src: src}
	if c.con != nil {
		o.depth = c.con.depth
	}
	if g == tTrue {
		o.Status = "proved"
		o.Solver = "simplifier"
		o.Trivial = true
	}
	c.obls = append(c.obls, o)
}

func (c *Ctx) contractTags() []string {
	if c.con != nil {
		return c.con.tags
	}
	return nil
}

// safety: an implicit no-panic obligation; assumed afterwards.
func (c *Ctx) safety(st *State, name string, goal *Term) {
	if goal == tTrue || c.specDepth > 0 {
		return
	}
	tags := c.contractTags()
	if c.con != nil && len(c.con.panics) > 0 && c.con.flags["runtime_panics_ok"] {
		tags = nil
	}
	c.oblige(st, "safety", name, tags, goal, "")
	st.pc = And(st.pc, tTrue)
	c.assume(st, goal)
}

// checkWrite is the frame obligation for a heap write.
func (c *Ctx) checkWrite(st *State, comp string, ref *Term, imm bool, why string) {
	if c.inits || c.specDepth > 0 {
		return
	}
	if imm {
		g := Select(c.comp(st, "own"), ref)
		if g != tTrue {
			c.oblige(st, "frame", "own "+comp, c.frameTags(), g, why)
			c.assume(st, g)
		}
		return
	}
	g := c.inMod(st, comp, ref)
	if g != tTrue {
		c.oblige(st, "frame", comp, c.frameTags(), g, why)
		c.assume(st, g)
	}
}

func (c *Ctx) frameTags() []string {
	t := append([]string{}, c.contractTags()...)
	return t
}

func (c *Ctx) inMod(st *State, comp string, ref *Term) *Term {
	var alts []*Term
	for _, m := range c.modset {
		if m.comp != comp {
			continue
		}
		if m.all || ref == nil || m.ref == ref {
			return tTrue
		}
		alts = append(alts, Eq(m.ref, ref))
	}
	if ref == nil {
		return tFalse
	}
	for _, a := range st.allocs {
		if a.ref == ref {
			return tTrue
		}
	}
	if c.entryCnt != nil {
		root := ref
		for strHasPrefix(root.op, "emb!") {
			root = root.args[0]
		}
		for _, a := range st.allocs {
			if a.ref == root {
				return tTrue
			}
		}
		alts = append(alts, Lt(c.entryCnt, root))
	}
	return Or(alts...)
}

// ---- allocation ----

func (c *Ctx) alloc(st *State, strc string, elem types.Type, imm bool) *Term {
	ref := Add(st.cnt, Int(1))
	st.cnt = ref
	st.allocs = append(st.allocs, allocRec{ref, strc, elem})
	if imm {
		st.heap["own"] = Store(c.comp(st, "own"), ref, tTrue)
	}
	c.allocFacts(ref)
	return ref
}

func (c *Ctx) allocFacts(ref *Term) {
	if ref.op != "int" {
		c.assumeRaw(Lt(Int(0), ref))
	}
}

func (c *Ctx) allocStruct(st *State, t types.Type) *Term {
	si, _ := structOf(t)
	imm := isImmStruct(si.name)
	ref := c.alloc(st, si.name, nil, imm)
	c.initStruct(st, t, ref)
	return ref
}

func (c *Ctx) initStruct(st *State, t types.Type, ref *Term) {
	si, _ := structOf(t)
	for i := 0; i < si.st.NumFields(); i++ {
		ft := si.st.Field(i).Type()
		if isStructT(ft) {
			c.initStruct(st, ft, c.embRef(si, i, ref))
			continue
		}
		if isArrayT(ft) && c.eng.sliced[si.name+"."+si.st.Field(i).Name()] {
			el := ft.Underlying().(*types.Array).Elem()
			mc := memComp(el)
			c.regComp(mc, ArrSort(sInt, ArrSort(sInt, sortOf(el))))
			st.heap[mc] = Store(c.comp(st, mc), c.embRef(si, i, ref), zero(ft))
			continue
		}
		comp := c.fieldCompOf(si, i)
		st.heap[comp] = Store(c.comp(st, comp), ref, zero(ft))
	}
	for _, g := range c.eng.spec.ghosts {
		if g.strct == si.name {
			comp := c.eng.ghostComp(g.strct, g.field)
			s := arrElemSort(c.compSort(comp))
			var z *Term
			switch s {
			case sInt:
				z = Int(0)
			case sBool:
				z = tFalse
			case sStr:
				z = Str("")
			default:
				z = Var("zero!"+s, s)
			}
			st.heap[comp] = Store(c.comp(st, comp), ref, z)
		}
	}
}

func (c *Ctx) allocArray(st *State, elem types.Type, content *Term) *Term {
	mc := memComp(elem)
	c.regComp(mc, ArrSort(sInt, ArrSort(sInt, sortOf(elem))))
	ref := c.alloc(st, "", elem, immElems[typeName(elem)])
	st.heap[mc] = Store(c.comp(st, mc), ref, content)
	return ref
}

// cellable: the allocation is only accessed through loads, stores, sub-addresses and inlined closures.
func (c *Ctx) cellable(v ssa.Value) bool {
	if r, ok := c.eng.cellMemo[v]; ok {
		return r
	}
	c.eng.cellMemo[v] = true // optimistic for recursion
	r := c.cellable1(v)
	c.eng.cellMemo[v] = r
	return r
}

func (c *Ctx) cellable1(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ins := range *refs {
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !c.cellable(x) {
				return false
			}
		case *ssa.IndexAddr:
			if x.X != v || !c.cellable(x) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !c.cellable(fn.FreeVars[i]) {
					return false
				}
			}
			if closureEscapes(x) {
				return false
			}
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			if fn == nil || fn.Blocks == nil {
				return false
			}
			if c.eng.contractFor(fn) != nil {
				con := c.eng.contractFor(fn)
				if !con.flags["cells"] {
					return false
				}
				continue
			}
			args := x.Call.Args
			for i, a := range args {
				if a == v && !c.cellable(fn.Params[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func closureEscapes(m *ssa.MakeClosure) bool {
	for _, ins := range *m.Referrers() {
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if x.Call.Value != m {
				return true
			}
		case *ssa.Defer:
		default:
			return true
		}
	}
	return false
}

// ---- instructions ----

func (c *Ctx) execInstr(fr *Frame, ins ssa.Instruction, st *State) *State {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if c.cellable(x) {
			cell := c.newCell(x.Comment, t, sortOf(t))
			st.cells[cell] = zero(t)
			fr.env[x] = &Addr{kind: aCell, cell: cell, typ: t}
			return st
		}
		if isStructT(t) {
			ref := c.allocStruct(st, t)
			fr.env[x] = ref
			if !c.inits && isImmStruct(typeName(t)) {
				if last, ok := c.eng.literalInfo(x); ok && last == nil {
					c.publishLiteral(st, t, ref)
				}
			}
			return st
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			fr.env[x] = c.allocArray(st, at.Elem(), zero(t))
			return st
		}
		cc := cellComp(t)
		c.regComp(cc, ArrSort(sInt, sortOf(t)))
		ref := c.alloc(st, "", nil, false)
		st.heap[cc] = Store(c.comp(st, cc), ref, zero(t))
		fr.env[x] = ref
		return st
	case *ssa.BinOp:
		fr.env[x] = c.binop(fr, st, x)
		return st
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := c.val(fr, st, x.X)
			fr.env[x] = c.loadPtr(st, p, deref(x.X.Type()))
		case token.NOT:
			fr.env[x] = Not(c.term(fr, st, x.X))
		case token.SUB:
			v := c.term(fr, st, x.X)
			if v.sort == sFlt {
				fr.env[x] = App("fneg", sFlt, v)
			} else {
				fr.env[x] = Neg(v)
			}
		case token.XOR:
			fr.env[x] = Sub(Neg(c.term(fr, st, x.X)), Int(1))
		default:
			limit("unop %s", x.Op)
		}
		return st
	case *ssa.ChangeType:
		fr.env[x] = c.val(fr, st, x.X)
		return st
	case *ssa.ChangeInterface:
		v := c.term(fr, st, x.X)
		if !isCtor(v) {
			c.assumeRaw(c.implTags(x.X.Type(), v))
		}
		if nt := typeName(x.X.Type()); nt == "error" {
			c.assume(st, Or(Eq(ifTag(v), Int(0)), App("impl!error", sBool, ifTag(v))))
		}
		fr.env[x] = v
		return st
	case *ssa.Convert:
		fr.env[x] = c.convert(fr, st, x)
		return st
	case *ssa.MakeInterface:
		t := x.X.Type()
		v := c.val(fr, st, x.X)
		if _, isI := t.Underlying().(*types.Interface); isI {
			fr.env[x] = v
			return st
		}
		tv := c.asTerm(st, v, t)
		if al, ok := x.X.(*ssa.Alloc); ok && !c.inits && isStructT(deref(al.Type())) && isImmStruct(typeName(deref(al.Type()))) {
			if ref, ok := v.(*Term); ok && Select(c.comp(st, "own"), ref) != tFalse && c.eng.finalAt(al, x) {
				c.publishLiteral(st, deref(al.Type()), ref)
			}
		}
		if cl, ok := v.(*Closure); ok {
			tv = Var("fn!"+fnName(cl.fn), sInt)
		}
		if isPtrLike(t) {
			fr.env[x] = mkIface(Int(int64(tagOf(t))), tv)
		} else {
			fr.env[x] = mkIface(Int(int64(tagOf(t))), App("box!"+typeName(t), sInt, tv))
		}
		return st
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.binds = append(cl.binds, c.val(fr, st, b))
		}
		fr.env[x] = cl
		return st
	case *ssa.Extract:
		fr.env[x] = c.val(fr, st, x.Tuple).(Tuple)[x.Index]
		return st
	case *ssa.Field:
		si, _ := structOf(x.X.Type())
		fr.env[x] = si.get(c.term(fr, st, x.X), x.Field)
		return st
	case *ssa.FieldAddr:
		p := c.val(fr, st, x.X)
		t := deref(x.X.Type())
		fr.env[x] = c.fieldAddr(st, p, t, x.Field)
		return st
	case *ssa.IndexAddr:
		fr.env[x] = c.indexAddr(fr, st, x)
		return st
	case *ssa.Index:
		i := c.term(fr, st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			c.safety(st, "index", And(Le(Int(0), i), Lt(i, Int(u.Len()))))
			fr.env[x] = Select(c.term(fr, st, x.X), i)
		case *types.Basic:
			s := c.term(fr, st, x.X)
			c.safety(st, "index", And(Le(Int(0), i), Lt(i, strLen(s))))
			r := strAt(s, i)
			if r.op != "int" {
				c.assumeRaw(And(Le(Int(0), r), Lt(r, Int(256))))
			}
			fr.env[x] = r
		default:
			limit("index of %s", x.X.Type())
		}
		return st
	case *ssa.Lookup:
		fr.env[x] = c.lookup(fr, st, x)
		return st
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		mp, mv := c.mapRegs(mt)
		ref := c.alloc(st, "", nil, false)
		ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
		st.heap[mp] = Store(c.comp(st, mp), ref, ConstArr(ArrSort(ks, sBool), tFalse))
		st.heap[mv] = Store(c.comp(st, mv), ref, ConstArr(ArrSort(ks, vs), zero(mt.Elem())))
		fr.env[x] = ref
		return st
	case *ssa.MapUpdate:
		m := c.term(fr, st, x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		c.safety(st, "nil-map-write", Not(Eq(m, Int(0))))
		c.mapPut(st, mt, m, c.term(fr, st, x.Key), c.term(fr, st, x.Value))
		return st
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n := c.term(fr, st, x.Len)
		cp := c.term(fr, st, x.Cap)
		c.safety(st, "makeslice", And(Le(Int(0), n), Le(n, cp)))
		ref := c.allocArray(st, el, ConstArr(ArrSort(sInt, sortOf(el)), zero(el)))
		fr.env[x] = mkSlice(ref, Int(0), n, cp)
		return st
	case *ssa.Slice:
		fr.env[x] = c.slice(fr, st, x)
		return st
	case *ssa.Store:
		p := c.val(fr, st, x.Addr)
		v := c.val(fr, st, x.Val)
		c.storePtr(st, p, deref(x.Addr.Type()), v)
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !c.inits {
			c.storedFn(fr, st, fa, v)
		}
		if !c.inits {
			if ad, ok := p.(*Addr); ok && ad.kind != aCell && !ad.imm {
				c.publishArg(st, v, x.Val.Type())
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok && isImmStruct(typeName(deref(al.Type()))) {
					if ref, ok := fr.env[al].(*Term); ok {
						if last, ok := c.eng.literalInfo(al); ok && last == x {
							c.publishLiteral(st, deref(al.Type()), ref)
						}
					}
				}
			}
		}
		return st
	case *ssa.TypeAssert:
		fr.env[x] = c.typeAssert(fr, st, x)
		return st
	case *ssa.Call:
		ns, v := c.call(fr, st, &x.Call, x)
		if ns != nil {
			fr.env[x] = v
		}
		return ns
	case *ssa.Defer:
		var d deferred
		d.call = &x.Call
		if x.Call.IsInvoke() {
			limit("defer of interface method")
		}
		d.fn = c.val(fr, st, x.Call.Value)
		for _, a := range x.Call.Args {
			d.args = append(d.args, c.val(fr, st, a))
		}
		if st.pc != tTrue && len(c.stack) == 0 {
			limit("conditional defer")
		}
		fr.defers = append(fr.defers, d)
		return st
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			cl, ok := d.fn.(*Closure)
			if !ok {
				limit("defer of non-closure")
			}
			ns, _, ps := c.execFn(cl.fn, d.args, cl.binds, st, fr)
			fr.panics = append(fr.panics, ps...)
			if ns == nil {
				return nil
			}
			st = ns
		}
		return st
	case *ssa.Range:
		switch u := x.X.Type().Underlying().(type) {
		case *types.Map:
			mp, _ := c.mapRegs(u)
			m := c.term(fr, st, x.X)
			vis := c.newCell("visited", nil, ArrSort(sortOf(u.Key()), sBool))
			st.cells[vis] = ConstArr(vis.sort, tFalse)
			it := &MapIter{mref: m, mt: u, vis: vis}
			dom := Select(c.comp(st, mp), m)
			it.dom = Ite(Eq(m, Int(0)), ConstArr(vis.sort, tFalse), dom)
			fr.env[x] = it
			c.iters = append(c.iters, it)
		default:
			limit("range over %s", x.X.Type())
		}
		return st
	case *ssa.Next:
		it := c.val(fr, st, x.Iter).(*MapIter)
		return c.mapNext(fr, st, x, it)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		limit("concurrency instruction %s", ins)
	}
	limit("unsupported instruction %T: %s", ins, ins)
	return nil
}

func (c *Ctx) fieldAddr(st *State, p Val, t types.Type, i int) Val {
	si, _ := structOf(t)
	f := si.st.Field(i)
	switch y := p.(type) {
	case *Addr:
		a := *y
		a.path = append(append([]pstep{}, y.path...), pstep{field: i, typ: t})
		a.typ = f.Type()
		return &a
	case *Term:
		c.safety(st, "nil-deref", Not(Eq(y, Int(0))))
		if isStructT(f.Type()) {
			e := c.embRef(si, i, y)
			c.embFacts(e)
			return e
		}
		if isArrayT(f.Type()) && c.eng.sliced[si.name+"."+f.Name()] {
			e := c.embRef(si, i, y)
			c.embFacts(e)
			return e
		}
		return &Addr{kind: aField, comp: c.fieldCompOf(si, i), ref: y, typ: f.Type(), imm: isImmStruct(si.name), from: si.name + "." + f.Name()}
	}
	limit("fieldaddr of %T", p)
	return nil
}

// embFacts: embedded objects are negative, non-nil, injective.
func (c *Ctx) embFacts(e *Term) {
	if e.bound {
		return
	}
	key := e
	if c.tfSeen[key] {
		return
	}
	c.assumeRaw(And(Lt(e, Int(0)), Eq(App("inv"+e.op, sInt, e), e.args[0]), Eq(App("embkind", sInt, e), Int(int64(c.eng.embKind(e.op))))))
}

func (c *Ctx) elemComp(el types.Type) string {
	mc := memComp(el)
	c.regComp(mc, ArrSort(sInt, ArrSort(sInt, sortOf(el))))
	return mc
}

func (c *Ctx) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	i := c.term(fr, st, x.Index)
	base := c.val(fr, st, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := c.asTerm(st, base, x.X.Type())
		c.safety(st, "index", And(Le(Int(0), i), Lt(i, slLen(s))))
		return &Addr{kind: aElem, comp: c.elemComp(u.Elem()), ref: slRef(s), idx: sliceIdx(slOff(s), i), typ: u.Elem(), imm: immElems[typeName(u.Elem())]}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		c.safety(st, "index", And(Le(Int(0), i), Lt(i, Int(at.Len()))))
		switch b := base.(type) {
		case *Addr:
			a := *b
			a.path = append(append([]pstep{}, b.path...), pstep{field: -1, idx: i, typ: u.Elem()})
			a.typ = at.Elem()
			return &a
		case *Term:
			c.safety(st, "nil-deref", Not(Eq(b, Int(0))))
			return &Addr{kind: aElem, comp: c.elemComp(at.Elem()), ref: b, idx: i, typ: at.Elem(), imm: immElems[typeName(at.Elem())]}
		}
	}
	limit("indexaddr of %s", x.X.Type())
	return nil
}

func (c *Ctx) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	lo := Int(0)
	if x.Low != nil {
		lo = c.term(fr, st, x.Low)
	}
	base := c.val(fr, st, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := c.asTerm(st, base, x.X.Type())
		hi := slLen(s)
		if x.High != nil {
			hi = c.term(fr, st, x.High)
		}
		mx := slCap(s)
		if x.Max != nil {
			mx = c.term(fr, st, x.Max)
		}
		c.safety(st, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, slCap(s))))
		return mkSlice(slRef(s), Add(slOff(s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := Int(at.Len())
		hi := n
		if x.High != nil {
			hi = c.term(fr, st, x.High)
		}
		mx := n
		if x.Max != nil {
			mx = c.term(fr, st, x.Max)
		}
		c.safety(st, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		b, ok := base.(*Term)
		if !ok {
			limit("slice of non-heap array")
		}
		return mkSlice(b, lo, Sub(hi, lo), Sub(mx, lo))
	case *types.Basic:
		s := c.asTerm(st, base, x.X.Type())
		hi := strLen(s)
		if x.High != nil {
			hi = c.term(fr, st, x.High)
		}
		c.safety(st, "slice-bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(s))))
		return subStr(s, lo, hi)
	}
	limit("slice of %s", x.X.Type())
	return nil
}

func strLen(s *Term) *Term {
	if s.op == "str" {
		return Int(int64(len(s.name)))
	}
	if s.op == "cat" {
		return Add(strLen(s.args[0]), strLen(s.args[1]))
	}
	if s.op == "ite" && isConst(s.args[1]) && isConst(s.args[2]) {
		return Ite(s.args[0], strLen(s.args[1]), strLen(s.args[2]))
	}
	return App("slen", sInt, s)
}

func strAt(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" && i.n.IsInt64() && i.n.Int64() >= 0 && i.n.Int64() < int64(len(s.name)) {
		return Int(int64(s.name[i.n.Int64()]))
	}
	return App("sat", sInt, s, i)
}

func subStr(s, lo, hi *Term) *Term {
	if lo == Int(0) && hi == strLen(s) {
		return s
	}
	if s.op == "str" && lo.op == "int" && hi.op == "int" {
		a, b := lo.n.Int64(), hi.n.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.name)) {
			return Str(s.name[a:b])
		}
	}
	return App("ssub", sStr, s, lo, hi)
}

func catStr(a, b *Term) *Term {
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	if a.op == "str" && b.op == "str" {
		return Str(a.name + b.name)
	}
	// right-assoc normal form
	if a.op == "cat" {
		return catStr(a.args[0], catStr(a.args[1], b))
	}
	if a.op == "str" && b.op == "cat" && b.args[0].op == "str" {
		return catStr(Str(a.name+b.args[0].name), b.args[1])
	}
	return App("cat", sStr, a, b)
}

func strLower(s *Term) *Term {
	if s.op == "str" {
		return Str(strings.ToLower(s.name))
	}
	if s.op == "ite" && (isConst(s.args[1]) || isConst(s.args[2])) {
		return Ite(s.args[0], strLower(s.args[1]), strLower(s.args[2]))
	}
	if s.op == "lower" {
		return s
	}
	return App("lower", sStr, s)
}

func isUnsignedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (c *Ctx) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	xv, yv := c.val(fr, st, x.X), c.val(fr, st, x.Y)
	// address comparisons with nil
	if x.Op == token.EQL || x.Op == token.NEQ {
		_, ax := xv.(*Addr)
		_, ay := yv.(*Addr)
		_, cx := xv.(*Closure)
		_, cy := yv.(*Closure)
		if (ax || cx) && yv == Val(Int(0)) || (ay || cy) && xv == Val(Int(0)) {
			return Bool(x.Op == token.NEQ)
		}
	}
	a, b := c.asTerm(st, xv, x.X.Type()), c.asTerm(st, yv, x.Y.Type())
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case a.sort == sSlice:
			// comparison with nil only
			if b == tNilSlice {
				r = Eq(slRef(a), Int(0))
			} else {
				r = Eq(slRef(b), Int(0))
			}
		case a.sort == sFlt:
			r = App("feq", sBool, a, b)
		default:
			r = Eq(a, b)
		}
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return r
	case token.ADD:
		switch a.sort {
		case sStr:
			return catStr(a, b)
		case sFlt:
			return App("fadd", sFlt, a, b)
		}
		return Add(a, b)
	case token.SUB:
		if a.sort == sFlt {
			return App("fsub", sFlt, a, b)
		}
		return Sub(a, b)
	case token.MUL:
		if a.sort == sFlt {
			return App("fmul", sFlt, a, b)
		}
		return Mul(a, b)
	case token.QUO:
		if a.sort == sFlt {
			return App("fdiv", sFlt, a, b)
		}
		c.safety(st, "div-zero", Not(Eq(b, Int(0))))
		// Go truncates toward zero
		return goDiv(a, b)
	case token.REM:
		c.safety(st, "div-zero", Not(Eq(b, Int(0))))
		return Sub(a, Mul(b, goDiv(a, b)))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if a.sort == sFlt {
			return App("f"+map[token.Token]string{token.LSS: "lt", token.GTR: "gt", token.LEQ: "le", token.GEQ: "ge"}[x.Op], sBool, a, b)
		}
		if a.sort == sStr {
			if x.Op == token.LSS {
				return App("slt", sBool, a, b)
			}
			if x.Op == token.GTR {
				return App("slt", sBool, b, a)
			}
			if x.Op == token.LEQ {
				return Not(App("slt", sBool, b, a))
			}
			return Not(App("slt", sBool, a, b))
		}
		switch x.Op {
		case token.LSS:
			return Lt(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.LEQ:
			return Le(a, b)
		}
		return Le(b, a)
	case token.AND:
		return c.bitand(a, b, x.Type())
	case token.OR:
		return bitor(a, b)
	case token.SHL:
		return shl(a, b)
	case token.SHR:
		if b.op == "int" {
			return App("div", sInt, a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.n.Int64()))))
		}
	case token.AND_NOT, token.XOR:
		return App("bit"+x.Op.String(), sInt, a, b)
	}
	limit("binop %s", x.Op)
	return nil
}

func goDiv(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.n.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.n, b.n))
	}
	if b.op == "int" && b.n.Sign() > 0 {
		// truncated division by a positive constant
		return Ite(Le(Int(0), a), App("div", sInt, a, b), Sub(Int(0), App("div", sInt, Sub(Int(0), a), b)))
	}
	return App("godiv", sInt, a, b)
}

// bitand of a constant mask is rewritten exactly; single-bit test 1<<x against a constant becomes a disjunction.
func (c *Ctx) bitand(a, b *Term, t types.Type) *Term {
	if a.op == "int" && b.op == "int" {
		return BigInt(new(big.Int).And(a.n, b.n))
	}
	if isUnsignedT(t) && b.op == "int" && b.n.Sign() > 0 && new(big.Int).And(b.n, new(big.Int).Sub(b.n, big.NewInt(1))).Sign() == 0 {
		// one bit
		bit := App("mod", sInt, App("div", sInt, a, b), Int(2))
		return Ite(Eq(bit, Int(1)), b, Int(0))
	}
	if isUnsignedT(t) && b.op == "int" && b.n.Sign() > 0 && onesCount(b.n) <= 4 {
		// the bits one by one
		sum := Int(0)
		for i := 0; i < b.n.BitLen(); i++ {
			if b.n.Bit(i) == 1 {
				sum = Add(sum, c.bitand(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(i))), t))
			}
		}
		return sum
	}
	if isUnsignedT(t) && b.op == "shl" && b.args[0] == Int(1) {
		return Ite(App("bitAt", sBool, a, b.args[1]), b, Int(0))
	}
	if isUnsignedT(t) && a.op == "shl" && a.args[0] == Int(1) {
		return Ite(App("bitAt", sBool, b, a.args[1]), a, Int(0))
	}
	return App("bitand", sInt, a, b)
}

func onesCount(n *big.Int) int {
	k := 0
	for i := 0; i < n.BitLen(); i++ {
		k += int(n.Bit(i))
	}
	return k
}

func bitor(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BigInt(new(big.Int).Or(a.n, b.n))
	}
	if a.op == "int" && b.op != "int" {
		a, b = b, a
	}
	if b.op == "int" && b.n.Sign() > 0 && a.op != "ite" && new(big.Int).And(b.n, new(big.Int).Sub(b.n, big.NewInt(1))).Sign() == 0 {
		// one bit
		bit := App("mod", sInt, App("div", sInt, a, b), Int(2))
		return Ite(Eq(bit, Int(1)), a, Add(a, b))
	}
	if a.op == "ite" && isConst(a.args[1]) && isConst(a.args[2]) && isConst(b) {
		return Ite(a.args[0], bitor(a.args[1], b), bitor(a.args[2], b))
	}
	return App("bitor", sInt, a, b)
}

func shl(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		if b.n.Cmp(big.NewInt(64)) >= 0 {
			return Int(0)
		}
		return BigInt(new(big.Int).Lsh(a.n, uint(b.n.Int64())))
	}
	return App("shl", sInt, a, b)
}

func (c *Ctx) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	v := c.term(fr, st, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := sortOf(from), sortOf(to)
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	switch {
	case fs == sInt && ts == sInt && fb != nil && tb != nil:
		return c.intConv(st, v, fb, tb)
	case fs == sInt && ts == sFlt:
		if v.op == "int" {
			return fltConst(v.n.String())
		}
		return App("i2f", sFlt, v)
	case fs == sFlt && ts == sFlt:
		return v
	case fs == sFlt && ts == sInt:
		return App("f2i", sInt, v)
	case fs == sSlice && ts == sStr:
		mc := memComp(from.(*types.Slice).Elem())
		c.elemComp(from.(*types.Slice).Elem())
		m := c.readAt(st, mc, slRef(v), false)
		return App("mkstr", sStr, m, slOff(v), Add(slOff(v), slLen(v)))
	case fs == sStr && ts == sSlice:
		el := to.(*types.Slice).Elem()
		ref := c.allocArray(st, el, App("strbytes", ArrSort(sInt, sInt), v))
		return mkSlice(ref, Int(0), strLen(v), strLen(v))
	case fs == sInt && ts == sStr:
		return App("rune2str", sStr, v)
	case fs == ts:
		return v
	}
	limit("convert %s to %s", from, to)
	return nil
}

func intRange(b *types.Basic) (lo, hi *big.Int) {
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Int8:
		return new(big.Int).Neg(p(7)), new(big.Int).Sub(p(7), one)
	case types.Int16:
		return new(big.Int).Neg(p(15)), new(big.Int).Sub(p(15), one)
	case types.Int32:
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), one)
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return new(big.Int).Neg(p(63)), new(big.Int).Sub(p(63), one)
	case types.Uint8:
		return new(big.Int), new(big.Int).Sub(p(8), one)
	case types.Uint16:
		return new(big.Int), new(big.Int).Sub(p(16), one)
	case types.Uint32:
		return new(big.Int), new(big.Int).Sub(p(32), one)
	case types.Uint, types.Uint64, types.Uintptr:
		return new(big.Int), new(big.Int).Sub(p(64), one)
	}
	return nil, nil
}

// intConv: narrowing conversions wrap; expressed exactly with ite on range when the range may be exceeded.
func (c *Ctx) intConv(st *State, v *Term, from, to *types.Basic) Val {
	fl, fh := intRange(from)
	tl, th := intRange(to)
	if fl == nil || tl == nil {
		return v
	}
	if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
		return v
	}
	if v.op == "int" {
		w := new(big.Int).Sub(v.n, tl)
		m := new(big.Int).Add(new(big.Int).Sub(th, tl), big.NewInt(1))
		w.Mod(w, m)
		return BigInt(w.Add(w, tl))
	}
	in := And(Le(BigInt(tl), v), Le(v, BigInt(th)))
	m := new(big.Int).Add(new(big.Int).Sub(th, tl), big.NewInt(1))
	wrapped := Add(App("mod", sInt, Add(v, BigInt(new(big.Int).Neg(tl))), BigInt(m)), BigInt(tl))
	return Ite(in, v, wrapped)
}

// ---- maps ----

func (c *Ctx) mapRegs(mt *types.Map) (string, string) {
	mp, mv := mapComps(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	c.regComp(mp, ArrSort(sInt, ArrSort(ks, sBool)))
	c.regComp(mv, ArrSort(sInt, ArrSort(ks, vs)))
	return mp, mv
}

// mapLen is the cardinality of the map's key set.
func (c *Ctx) mapLen(st *State, mt *types.Map, m *Term) *Term {
	mp, _ := c.mapRegs(mt)
	return Ite(Eq(m, Int(0)), Int(0), Card(Select(c.comp(st, mp), m)))
}

func (c *Ctx) mapPut(st *State, mt *types.Map, m, k, v *Term) {
	mp, mv := c.mapRegs(mt)
	c.checkWrite(st, mp, m, false, "map update")
	st.heap[mp] = Store(c.comp(st, mp), m, Store(Select(c.comp(st, mp), m), k, tTrue))
	st.heap[mv] = Store(c.comp(st, mv), m, Store(Select(c.comp(st, mv), m), k, v))
}

func (c *Ctx) lookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := c.term(fr, st, x.X)
		i := c.term(fr, st, x.Index)
		c.safety(st, "index", And(Le(Int(0), i), Lt(i, strLen(s))))
		r := strAt(s, i)
		if r.op != "int" {
			c.assumeRaw(And(Le(Int(0), r), Lt(r, Int(256))))
		}
		return r
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := c.term(fr, st, x.X)
	k := c.term(fr, st, x.Index)
	mp, mv := c.mapRegs(mt)
	ok := And(Not(Eq(m, Int(0))), Select(Select(c.comp(st, mp), m), k))
	v := Ite(ok, Select(Select(c.comp(st, mv), m), k), zero(mt.Elem()))
	c.typeFacts(st, v, mt.Elem())
	if x.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

// constDomain enumerates the keys of a concrete set term.
func constDomain(t *Term) ([]*Term, bool) {
	var ks []*Term
	seen := map[*Term]bool{}
	for {
		switch {
		case t.op == "store":
			k := t.args[1]
			if !isConst(k) {
				return nil, false
			}
			if !seen[k] {
				seen[k] = true
				if t.args[2] == tTrue {
					ks = append(ks, k)
				} else if t.args[2] != tFalse {
					return nil, false
				}
			}
			t = t.args[0]
		case t.op == "constarr" && t.args[0] == tFalse:
			sort.Slice(ks, func(i, j int) bool {
				if ks[i].n != nil && ks[j].n != nil {
					return ks[i].n.Cmp(ks[j].n) < 0
				}
				return ks[i].name < ks[j].name
			})
			return ks, true
		default:
			return nil, false
		}
	}
}

func (c *Ctx) mapNext(fr *Frame, st *State, x *ssa.Next, it *MapIter) *State {
	_, mv := c.mapRegs(it.mt)
	vis := st.cells[it.vis].(*Term)
	ks := sortOf(it.mt.Key())
	dom, isC := constDomain(it.dom)
	if c.inits {
		if !isC {
			limit("init: range over symbolic map")
		}
		var next *Term
		if c.eng.initReverse {
			for i := len(dom) - 1; i >= 0; i-- {
				if Select(vis, dom[i]) == tFalse {
					next = dom[i]
					break
				}
			}
		} else {
			for _, k := range dom {
				if Select(vis, k) == tFalse {
					next = k
					break
				}
			}
		}
		if next == nil {
			fr.env[x] = Tuple{tFalse, zero(it.mt.Key()), zero(it.mt.Elem())}
			return st
		}
		st.cells[it.vis] = Store(vis, next, tTrue)
		fr.env[x] = Tuple{tTrue, next, Select(Select(c.comp(st, mv), it.mref), next)}
		return st
	}
	if mp, _ := c.mapRegs(it.mt); true {
		// the iteration is over a map that does not change meanwhile
		c.safety(st, "map-range", Or(Eq(it.mref, Int(0)), Eq(Select(c.comp(st, mp), it.mref), it.dom)))
	}
	ok := c.freshVar("rng.ok", sBool)
	k := c.freshVar("rng.k", ks)
	c.assume(st, Implies(ok, And(Select(it.dom, k), Not(Select(vis, k)))))
	if isC {
		var opts, all []*Term
		for _, d := range dom {
			opts = append(opts, Eq(k, d))
			all = append(all, Select(vis, d))
		}
		c.assume(st, Implies(ok, Or(opts...)))
		c.assume(st, Eq(Not(ok), And(all...)))
	} else {
		// the visited keys are keys of the map, so at the end they are all of them
		c.assume(st, Implies(Not(ok), Eq(vis, it.dom)))
	}
	v := Select(Select(c.comp(st, mv), it.mref), k)
	c.typeFacts(st, v, it.mt.Elem())
	st.cells[it.vis] = Ite(ok, Store(vis, k, tTrue), vis)
	fr.env[x] = Tuple{ok, k, v}
	return st
}

// ---- type assertions ----

func (c *Ctx) implTags(t types.Type, v *Term) *Term {
	n := typeName(t)
	impls := c.eng.closedImpls(n, t)
	if impls == nil {
		return tTrue
	}
	alts := []*Term{Eq(ifTag(v), Int(0))}
	for _, id := range impls {
		alts = append(alts, Eq(ifTag(v), Int(int64(id))))
	}
	return Or(alts...)
}

func (c *Ctx) hasType(st *State, v *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		n := typeName(t)
		if impls := c.eng.closedImpls(n, t); impls != nil {
			var alts []*Term
			for _, id := range impls {
				alts = append(alts, Eq(ifTag(v), Int(int64(id))))
			}
			return Or(alts...)
		}
		if ifTag(v).op == "int" {
			id := int(ifTag(v).n.Int64())
			if id == 0 {
				return tFalse
			}
			if dt := tagTypes[id]; dt != nil {
				return Bool(types.Implements(dt, it))
			}
		}
		if it.NumMethods() == 0 {
			return Not(Eq(ifTag(v), Int(0)))
		}
		return And(Not(Eq(ifTag(v), Int(0))), App("impl!"+n, sBool, ifTag(v)))
	}
	return Eq(ifTag(v), Int(int64(tagOf(t))))
}

func (c *Ctx) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	v := c.term(fr, st, x.X)
	t := x.AssertedType
	ok := c.hasType(st, v, t)
	var r *Term
	if _, isI := t.Underlying().(*types.Interface); isI {
		r = v
		if x.CommaOk {
			r = Ite(ok, v, tNilIface)
		}
	} else {
		if isPtrLike(t) {
			r = ifPay(v)
		} else {
			r = App("unbox!"+typeName(t), sortOf(t), ifPay(v))
			if p := ifPay(v); p.op == "box!"+typeName(t) {
				r = p.args[0]
			}
		}
		if x.CommaOk {
			r = Ite(ok, r, zero(t))
		}
	}
	if x.CommaOk {
		return Tuple{r, ok}
	}
	c.safety(st, "type-assert", ok)
	return r
}
