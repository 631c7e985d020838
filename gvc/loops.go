package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// snapshot of everything a dry run may change.
type snapshot struct {
	facts, obls, fresh, cellN, rets, panics, iters int
	counts                                         map[string]int
	env                                            map[ssa.Value]Val
}

func (c *Ctx) snap(fr *Frame) snapshot {
	s := snapshot{facts: len(c.facts), obls: len(c.obls), fresh: c.fresh, cellN: c.cellN, rets: len(fr.rets), panics: len(fr.panics), iters: len(c.iters)}
	s.counts = map[string]int{}
	for k, v := range c.counts {
		s.counts[k] = v
	}
	s.env = map[ssa.Value]Val{}
	for k, v := range fr.env {
		s.env[k] = v
	}
	return s
}

func (c *Ctx) restore(fr *Frame, s snapshot) {
	c.facts = c.facts[:s.facts:s.facts]
	c.obls = c.obls[:s.obls:s.obls]
	c.fresh = s.fresh
	c.cellN = s.cellN
	fr.rets = fr.rets[:s.rets:s.rets]
	fr.panics = fr.panics[:s.panics:s.panics]
	c.iters = c.iters[:s.iters]
	c.counts = map[string]int{}
	for k, v := range s.counts {
		c.counts[k] = v
	}
	fr.env = map[ssa.Value]Val{}
	for k, v := range s.env {
		fr.env[k] = v
	}
}

func cloneEdges(es []edge) []edge {
	out := make([]edge, len(es))
	for i, e := range es {
		out[i] = edge{e.from, e.to, e.st.clone()}
	}
	return out
}

func (c *Ctx) runLoop(fr *Frame, l *Loop, es []edge) []edge {
	if c.con != nil && c.con.flags["nounroll"] && fr.fn == c.fn {
		return c.invLoop(fr, l, es)
	}
	if outs, ok := c.tryUnroll(fr, l, es); ok {
		return outs
	}
	if c.inits {
		limit("init: loop that does not unroll in %s", fnName(fr.fn))
	}
	return c.invLoop(fr, l, es)
}

// headerConst: does the header's branch fold to a constant in this state?
func (c *Ctx) headerConst(fr *Frame, l *Loop, es []edge) bool {
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// the header must decide the exit
	if l.blocks[l.header.Succs[0]] && l.blocks[l.header.Succs[1]] {
		return false
	}
	for _, ins := range l.header.Instrs {
		switch x := ins.(type) {
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Defer:
			return false
		case *ssa.Next:
			if !c.inits {
				return false
			}
		}
	}
	s := c.snap(fr)
	c.dry++
	st := c.enterBlock(fr, l.header, cloneEdges(es))
	r := false
	if st != nil {
		c.execBlock(fr, l.header, st)
		t := c.term(fr, st, ifi.Cond)
		r = isConst(t)
		if traceInv && !r {
			fmt.Fprintln(os.Stderr, "header", fnName(fr.fn), t.op, (&printer{}).raw(t))
		}
	} else {
		r = true
	}
	c.dry--
	c.restore(fr, s)
	return r
}

func (c *Ctx) tryUnroll(fr *Frame, l *Loop, es []edge) ([]edge, bool) {
	if !c.headerConst(fr, l, es) {
		return nil, false
	}
	s := c.snap(fr)
	orig := cloneEdges(es)
	_ = orig
	type exitEnv struct {
		e   edge
		env map[ssa.Value]Val
	}
	var outs []exitEnv
	outer := c.loopOutValues(fr, l)
	max := 64
	if c.inits {
		max = 4000
	}
	cur := cloneEdges(es)
	for it := 0; ; it++ {
		if it > max || !c.headerConst(fr, l, cur) {
			c.restore(fr, s)
			return nil, false
		}
		st := c.enterBlock(fr, l.header, cur)
		if st == nil {
			break
		}
		exits, backs := c.runRegion(fr, l.blocks, l.header, st, l)
		for _, e := range exits {
			ev := map[ssa.Value]Val{}
			for v := range outer {
				if x, ok := fr.env[v]; ok {
					ev[v] = x
				}
			}
			outs = append(outs, exitEnv{e, ev})
		}
		if len(backs) == 0 {
			break
		}
		cur = backs
	}
	// merge values defined in the loop and used after it
	for v, uses := range outer {
		def := v.(ssa.Instruction).Block()
		var pcs []*Term
		var vs []Val
		for _, o := range outs {
			x, ok := o.env[v]
			if !ok || !(def == o.e.from || def.Dominates(o.e.from)) {
				continue
			}
			reach := false
			for _, u := range uses {
				if reachable(o.e.to, u, l) {
					reach = true
					break
				}
			}
			if reach {
				pcs = append(pcs, o.e.st.pc)
				vs = append(vs, x)
			}
		}
		if len(vs) > 0 {
			_, conds := commonConj(pcs)
			fr.env[v] = mergeVals(conds, vs)
		}
	}
	var r []edge
	for _, o := range outs {
		r = append(r, o.e)
	}
	// phis at the exit targets read fr.env when they are entered; resolve them per edge by grouping:
	// edges of the same (from,to) with different phi inputs are merged through env above.
	return mergeSameEdges(c, r), true
}

// mergeSameEdges joins edges with the same endpoints (phi inputs are already merged in env).
func mergeSameEdges(c *Ctx, es []edge) []edge {
	type key struct{ f, t *ssa.BasicBlock }
	idx := map[key]int{}
	var groups [][]edge
	for _, e := range es {
		k := key{e.from, e.to}
		if i, ok := idx[k]; ok {
			groups[i] = append(groups[i], e)
			continue
		}
		idx[k] = len(groups)
		groups = append(groups, []edge{e})
	}
	var out []edge
	for _, g := range groups {
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		var ss []*State
		for _, e := range g {
			ss = append(ss, e.st)
		}
		out = append(out, edge{g[0].from, g[0].to, c.mergeStates(ss)})
	}
	return out
}

// loopOutValues: values defined inside the loop with uses outside, and the using blocks.
func (c *Ctx) loopOutValues(fr *Frame, l *Loop) map[ssa.Value][]*ssa.BasicBlock {
	out := map[ssa.Value][]*ssa.BasicBlock{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if p, ok := r.(*ssa.Phi); ok {
					for i, e := range p.Edges {
						if e == v && !l.blocks[p.Block()] {
							// used on the edge pred -> block
							_ = i
							out[v] = append(out[v], p.Block())
						}
					}
					continue
				}
				if !l.blocks[r.Block()] {
					out[v] = append(out[v], r.Block())
				}
			}
		}
	}
	return out
}

func reachable(from, to *ssa.BasicBlock, l *Loop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] || l.blocks[b] {
			continue
		}
		seen[b] = true
		if b == to {
			return true
		}
		st = append(st, b.Succs...)
	}
	return false
}

// ---- invariant mode ----

type cand struct {
	name string
	tags []string
	eval func(st *State, phi map[*ssa.Phi]Val) *Term
	auto bool
	src  string
}

type havocPlan struct {
	cells map[*Cell]bool
	whole map[string]bool
	idx   map[string]map[*Term]bool
	cnt   bool
}

func (c *Ctx) headerPhis(l *Loop) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, ins := range l.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

var traceInv = os.Getenv("GVC_TRACE") != ""

func (c *Ctx) invLoop(fr *Frame, l *Loop, es []edge) []edge {
	st0 := c.enterBlock(fr, l.header, es)
	if traceInv {
		fmt.Fprintln(os.Stderr, "invLoop", fnName(fr.fn), c.dry, c.eng.repo.pos(c.curPos), time.Now().Format("05.0"))
	}
	if st0 == nil {
		return nil
	}
	phis := c.headerPhis(l)
	entry := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entry[p] = fr.env[p]
	}
	// fresh loop variables
	hphi := map[*ssa.Phi]Val{}
	base := c.fresh
	for _, p := range phis {
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		if _, ok := entry[p].(*Term); ok {
			hphi[p] = c.freshVar("l."+name, sortOf(p.Type()))
		} else {
			hphi[p] = entry[p] // checked to be invariant below
		}
	}
	isHavocVar := func(t *Term) bool {
		// fresh variables created since `base`
		if t.op != "var" {
			return false
		}
		i := len(t.name) - 1
		for i >= 0 && t.name[i] != '!' {
			i--
		}
		if i < 0 {
			return false
		}
		n := 0
		for _, ch := range t.name[i+1:] {
			if ch < '0' || ch > '9' {
				return false
			}
			n = n*10 + int(ch-'0')
		}
		return n > base
	}
	memoInv := map[*Term]bool{}
	var invariantTerm func(t *Term) bool
	invariantTerm = func(t *Term) bool {
		if r, ok := memoInv[t]; ok {
			return r
		}
		r := !isHavocVar(t)
		for _, a := range t.args {
			if !r {
				break
			}
			r = invariantTerm(a)
		}
		memoInv[t] = r
		return r
	}
	plan := &havocPlan{cells: map[*Cell]bool{}, whole: map[string]bool{}, idx: map[string]map[*Term]bool{}}
	var hst *State
	build := func() *State {
		st := st0.clone()
		var ck []*Cell
		for cl := range plan.cells {
			ck = append(ck, cl)
		}
		sort.Slice(ck, func(i, j int) bool { return ck[i].id < ck[j].id })
		for _, cl := range ck {
			st.cells[cl] = c.freshVar("c."+cl.name, cl.sort)
		}
		for _, k := range sortedKeys(plan.whole) {
			st.heap[k] = c.freshVar("h."+lastSeg(k), c.compSort(k))
		}
		var ks []string
		for k := range plan.idx {
			if !plan.whole[k] {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			var ts []*Term
			for t := range plan.idx[k] {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
			arr := c.comp(st0, k)
			for _, t := range ts {
				arr = Store(arr, t, c.freshVar("m."+lastSeg(k), arrElemSort(c.compSort(k))))
			}
			st.heap[k] = arr
		}
		if plan.cnt {
			st.cnt = c.freshVar("cnt", sInt)
			c.assumeRaw(Le(st0.cnt, st.cnt))
		}
		if plan.whole["own"] {
			st.ownQ = true
		}
		for _, p := range phis {
			fr.env[p] = hphi[p]
			if t, ok := hphi[p].(*Term); ok && t.op == "var" {
				c.typeFacts(st, t, p.Type())
			}
		}
		for _, cl := range ck {
			if cl.typ != nil {
				c.typeFacts(st, st.cells[cl].(*Term), cl.typ)
			}
		}
		return st
	}
	var conds []*Term
	runBody := func(st *State) (exits, backs []edge) {
		saved := c.condSink
		conds = nil
		c.condSink = func(b *ssa.BasicBlock, t *Term) {
			if b.Parent() == fr.fn && l.blocks[b] {
				conds = append(conds, t)
			}
		}
		exits, backs = c.runRegion(fr, l.blocks, l.header, st, l)
		c.condSink = saved
		return
	}
	// 1. which locations does the body change?
	var diffArr func(k string, arr, start *Term, add func(string, *Term) bool) bool
	diffArr = func(k string, arr, start *Term, add func(string, *Term) bool) bool {
		seen := map[*Term]bool{}
		ok := true
		// stores to an index already in start replace it: the chain may end below start
		below := map[*Term][]*Term{}
		var above []*Term
		for t := start; ; t = t.args[0] {
			below[t] = append([]*Term{}, above...)
			if t.op != "store" {
				break
			}
			above = append(above, t.args[1])
		}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == start || seen[t] || !ok {
				return
			}
			seen[t] = true
			if is, in := below[t]; in {
				for _, i := range is {
					if !invariantTerm(i) || !add(k, i) {
						ok = false
						return
					}
				}
				return
			}
			switch t.op {
			case "store":
				if !invariantTerm(t.args[1]) || !add(k, t.args[1]) {
					ok = false
					return
				}
				rec(t.args[0])
			case "ite":
				rec(t.args[1])
				rec(t.args[2])
			default:
				ok = false
			}
		}
		rec(arr)
		return ok
	}
	savedSilent := c.silentSolve
	for round := 0; ; round++ {
		if round > 30 {
			limit("loop analysis does not converge in %s", fnName(fr.fn))
		}
		s := c.snap(fr)
		c.dry++
		c.silentSolve = true // nested loops keep no invariants while the write set is computed
		st := build()
		start := st.clone()
		_, backs := runBody(st)
		changed := false
		for _, e := range backs {
			for cl, v := range start.cells {
				if nv, ok := e.st.cells[cl]; ok && !valEq(nv, v) && !plan.cells[cl] {
					if _, ok := v.(*Term); !ok {
						limit("loop changes non-scalar local %s", cl.name)
					}
					if cl.sort == "" {
						limit("loop changes untyped cell")
					}
					plan.cells[cl] = true
					changed = true
				}
			}
			for k := range e.st.heap {
				if plan.whole[k] {
					continue
				}
				a, b := c.comp(e.st, k), c.comp(start, k)
				if a == b {
					continue
				}
				if !strHasPrefix(c.compSort(k), "(Array") || k == "own" || strHasPrefix(k, "G!") {
					plan.whole[k] = true
					changed = true
					continue
				}
				s0 := c.comp(st0, k)
				okIdx := diffArr(k, a, b, func(k string, i *Term) bool {
					if plan.idx[k] == nil {
						plan.idx[k] = map[*Term]bool{}
					}
					if !plan.idx[k][i] {
						plan.idx[k][i] = true
						changed = true
					}
					return len(plan.idx[k]) < 12
				})
				_ = s0
				if !okIdx {
					if traceInv {
						x := (&printer{}).raw(a)
						fmt.Fprintln(os.Stderr, "whole", k, len(x), x[:min(len(x), 700)])
					}
					plan.whole[k] = true
					changed = true
				}
			}
			if e.st.cnt != start.cnt && !plan.cnt {
				plan.cnt = true
				changed = true
			}
			for _, p := range phis {
				if _, ok := hphi[p].(*Term); ok {
					continue
				}
				if !valEq(c.phiVal(fr, p, e), hphi[p]) {
					limit("loop variable %s of %s is not first order", p.Name(), fnName(fr.fn))
				}
			}
		}
		c.dry--
		c.silentSolve = savedSilent
		c.restore(fr, s)
		if !changed {
			break
		}
	}
	loopConds := conds
	if c.dry > 0 && c.silentSolve {
		// only the write set matters: run the body once without invariants
		st := build()
		start := st
		exits, _ := runBody(start)
		return exits
	}
	// 2. candidate invariants
	cands := c.candidates(fr, l, st0, entry, hphi, plan, loopConds, invariantTerm)
	// entry filter
	hst = nil
	var entryGoals []*Term
	var kept []cand
	for _, cd := range cands {
		g := c.evalCand(cd, st0, entry)
		if g == nil {
			continue
		}
		kept = append(kept, cd)
		entryGoals = append(entryGoals, g)
	}
	res := c.proveAll(st0, c.facts, entryGoals, kept)
	cands = nil
	for i, cd := range kept {
		if res[i] {
			cands = append(cands, cd)
		} else {
			if traceInv {
				fmt.Fprintf(os.Stderr, "entry: dropped %s %s\n", kept[i].name, kept[i].src)
			}
			if !cd.auto {
				c.note(fmt.Sprintf("invariant %s not established on entry (%s)", cd.name, fnName(fr.fn)))
			}
		}
	}
	// Houdini
	for round := 0; len(cands) > 0 && round < 60; round++ {
		s := c.snap(fr)
		c.dry++
		st := build()
		for _, cd := range cands {
			if g := c.evalCand(cd, st, hphi); g != nil {
				c.assume(st, g)
			}
		}
		_, backs := runBody(st)
		bad := make([]bool, len(cands))
		nb := 0
		for _, e := range backs {
			ph := map[*ssa.Phi]Val{}
			for _, p := range phis {
				ph[p] = c.phiVal(fr, p, e)
			}
			var gs []*Term
			for _, cd := range cands {
				g := c.evalCand(cd, e.st, ph)
				if g == nil {
					g = tFalse
				}
				gs = append(gs, g)
			}
			r := c.proveAll(e.st, c.facts, gs, cands)
			for i := range r {
				if !r[i] && !bad[i] {
					bad[i] = true
					nb++
				}
			}
		}
		c.dry--
		c.restore(fr, s)
		if nb == 0 {
			break
		}
		var nc []cand
		for i, cd := range cands {
			if bad[i] && traceInv {
				fmt.Fprintf(os.Stderr, "round %d: dropped %s %s\n", round, cd.name, cd.src)
			}
			if !bad[i] {
				nc = append(nc, cd)
			} else if !cd.auto {
				c.note(fmt.Sprintf("invariant %s not preserved (%s)", cd.name, fnName(fr.fn)))
			}
		}
		cands = nc
	}
	if traceInv {
		for _, cd := range cands {
			fmt.Fprintf(os.Stderr, "kept %s %s\n", cd.name, cd.src)
		}
	}
	// 3. final run
	for i, cd := range cands {
		g := c.evalCand(cd, st0, entry)
		if g != tTrue {
			c.oblige(st0, "loop-inv-entry", fmt.Sprintf("%s.%d", cd.name, i), c.invTags(cd), g, cd.src)
		}
	}
	hst = build()
	for _, cd := range cands {
		if g := c.evalCand(cd, hst, hphi); g != nil {
			c.assume(hst, g)
		}
	}
	head := hst.clone()
	exits, backs := runBody(hst)
	measures := c.measureCands(fr, l, head, hphi, loopConds, invariantTerm)
	for _, e := range backs {
		ph := map[*ssa.Phi]Val{}
		for _, p := range phis {
			ph[p] = c.phiVal(fr, p, e)
		}
		for i, cd := range cands {
			g := c.evalCand(cd, e.st, ph)
			if g == nil {
				g = tFalse
			}
			if g != tTrue {
				c.oblige(e.st, "loop-inv", fmt.Sprintf("%s.%d", cd.name, i), c.invTags(cd), g, cd.src)
			}
		}
		c.loopTermination(fr, l, head, e, hphi, ph, measures)
	}
	return exits
}

func (c *Ctx) invTags(cd cand) []string {
	return c.contractTags()
}

func (c *Ctx) evalCand(cd cand, st *State, phi map[*ssa.Phi]Val) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(specError); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	return cd.eval(st, phi)
}

// proveAll checks goals in the given state with the solver (quick), batching first.
func (c *Ctx) proveAll(st *State, facts []*Term, goals []*Term, cands []cand) []bool {
	res := make([]bool, len(goals))
	var idx []int
	for i, g := range goals {
		if Implies(st.pc, g) == tTrue {
			res[i] = true
		} else {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return res
	}
	if len(idx) > 1 {
		var gs []*Term
		for _, i := range idx {
			gs = append(gs, goals[i])
		}
		if c.eng.quick(c, facts, st.pc, And(gs...)) {
			for _, i := range idx {
				res[i] = true
			}
			return res
		}
	}
	done := make(chan int, len(idx))
	if traceInv {
		done = make(chan int, len(idx))
	}
	prs := make([]func() bool, len(goals))
	for _, i := range idx {
		tmo := c.eng.quickTmo
		if !strHasPrefix(cands[i].name, "auto-") {
			tmo *= 5 // a stated invariant: try harder before giving it up
		}
		prs[i] = c.eng.quickPrep(c, facts, st.pc, goals[i], tmo)
	}
	for _, i := range idx {
		go func(i int) {
			res[i] = prs[i]()
			if traceInv && !res[i] {
				dumpQuery(fmt.Sprintf("inv-%d-%d-%s", c.dry, i, fnName(c.fn)), c.eng.query(c, facts, st.pc, goals[i], c.depthOf()))
			}
			done <- i
		}(i)
	}
	for range idx {
		<-done
	}
	return res
}

type localVal struct {
	get func(st *State, phi map[*ssa.Phi]Val) Val
	typ types.Type
	phi bool
	key string
}

// locals visible at the loop header in this frame and the frames that inlined it.
func (c *Ctx) locals(fr *Frame, l *Loop, st0 *State) []localVal {
	var out []localVal
	seen := map[Val]bool{}
	first := true
	for f := fr; f != nil; f = f.parent {
		if first {
			for _, p := range c.headerPhis(l) {
				p := p
				out = append(out, localVal{func(st *State, phi map[*ssa.Phi]Val) Val { return phi[p] }, p.Type(), true, "phi " + p.Name()})
			}
		}
		addConst := func(v Val, t types.Type, key string) {
			switch x := v.(type) {
			case *Term:
				if isConst(x) || seen[v] {
					return
				}
				seen[v] = true
				out = append(out, localVal{func(*State, map[*ssa.Phi]Val) Val { return x }, t, false, key})
			case *Addr:
				if x.kind == aCell {
					if seen[x.cell] {
						return
					}
					seen[x.cell] = true
					out = append(out, localVal{func(st *State, _ map[*ssa.Phi]Val) Val { return st.cells[x.cell] }, x.typ, false, key})
				} else {
					// address of a location: its current content
					out = append(out, localVal{func(st *State, _ map[*ssa.Phi]Val) Val { return c.load(st, x) }, x.typ, false, key})
				}
			}
		}
		for _, p := range f.fn.Params {
			addConst(f.env[p], p.Type(), "param "+p.Name())
		}
		for i, v := range f.free {
			t := f.fn.FreeVars[i].Type()
			addConst(v, t, "free")
		}
		var vs []ssa.Value
		for v := range f.env {
			ins, ok := v.(ssa.Instruction)
			if !ok {
				continue
			}
			if first && l.blocks[ins.Block()] {
				continue
			}
			switch v.(type) {
			case *ssa.Alloc, *ssa.Phi, *ssa.MakeSlice, *ssa.MakeMap:
				vs = append(vs, v)
			default:
				for _, r := range *v.Referrers() {
					if _, ok := r.(*ssa.DebugRef); ok {
						vs = append(vs, v)
						break
					}
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			bi, bj := vs[i].(ssa.Instruction).Block().Index, vs[j].(ssa.Instruction).Block().Index
			if bi != bj {
				return bi < bj
			}
			return vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			if first && !v.(ssa.Instruction).Block().Dominates(l.header) {
				continue
			}
			addConst(f.env[v], v.Type(), "local "+v.Name())
		}
		first = false
	}
	return out
}

func (c *Ctx) candidates(fr *Frame, l *Loop, st0 *State, entry, hphi map[*ssa.Phi]Val, plan *havocPlan, conds []*Term, invT func(*Term) bool) []cand {
	var out []cand
	phis := c.headerPhis(l)
	// integer bounds from branch conditions
	seen := map[*Term]bool{}
	var subst func(t *Term, phi map[*ssa.Phi]Val) *Term
	subst = func(t *Term, phi map[*ssa.Phi]Val) *Term {
		m := map[*Term]*Term{}
		for _, p := range phis {
			if h, ok := hphi[p].(*Term); ok {
				if v, ok := phi[p].(*Term); ok {
					m[h] = v
				}
			}
		}
		return Subst(t, m)
	}
	onlyPhi := func(t *Term) bool { // mentions loop phis and invariant terms only
		ok := true
		ph := map[*Term]bool{}
		for _, p := range phis {
			if h, k := hphi[p].(*Term); k {
				ph[h] = true
			}
		}
		var rec func(t *Term)
		rec = func(t *Term) {
			if ph[t] || !ok {
				return
			}
			if len(t.args) == 0 {
				if !invT(t) {
					ok = false
				}
				return
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return ok
	}
	addT := func(t *Term, name string) {
		if t == tTrue || t == tFalse || seen[t] || invT(t) || !onlyPhi(t) {
			return
		}
		seen[t] = true
		out = append(out, cand{name: name, auto: true, eval: func(st *State, phi map[*ssa.Phi]Val) *Term { return subst(t, phi) }})
	}
	for _, p := range phis {
		h, ok := hphi[p].(*Term)
		if !ok {
			continue
		}
		e := entry[p].(*Term)
		if h.sort == sInt && !isPtrLike(p.Type()) {
			addT(Le(e, h), "auto-ge-entry")
			addT(Le(h, e), "auto-le-entry")
			addT(Le(Int(0), h), "auto-nonneg")
			addT(Le(Int(-1), h), "auto-ge-m1")
		}
		if isPtrLike(p.Type()) {
			addT(Not(Eq(h, Int(0))), "auto-nonnil")
		}
		if h.sort == sIface {
			addT(Not(Eq(ifTag(h), Int(0))), "auto-nonnil")
		}
		if h.sort == sSlice {
			if es, ok := entry[p].(*Term); ok {
				addT(Implies(Eq(slRef(h), slRef(es)), Eq(slOff(h), slOff(es))), "auto-slice-off")
				addT(Eq(slOff(h), Int(0)), "auto-slice-off0")
			}
			addT(Or(Lt(st0.cnt, slRef(h)), Eq(slRef(h), slRef(e))), "auto-slice-fresh")
			if c.entryCnt != nil {
				addT(Or(Eq(slCap(h), Int(0)), Lt(c.entryCnt, slRef(h))), "auto-slice-own")
			}
		}
	}
	var atoms func(t *Term)
	atoms = func(t *Term) {
		switch t.op {
		case "and", "or", "not", "=>":
			for _, a := range t.args {
				atoms(a)
			}
		case "<", "<=":
			a, b := t.args[0], t.args[1]
			addT(Le(a, b), "auto-bound")
			addT(Le(b, a), "auto-bound")
			addT(Le(a, Add(b, Int(1))), "auto-bound")
			addT(Le(b, Add(a, Int(1))), "auto-bound")
		}
	}
	for _, t := range conds {
		atoms(t)
	}
	// cells of pointer / int kind
	var cells []*Cell
	for cl := range plan.cells {
		cells = append(cells, cl)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, cl := range cells {
		cl := cl
		if cl.typ == nil {
			continue
		}
		cell := func(st *State) *Term { return st.cells[cl].(*Term) }
		switch {
		case cl.sort == sInt && isPtrLike(cl.typ):
			out = append(out, cand{name: "auto-cell-nonnil", auto: true, eval: func(st *State, _ map[*ssa.Phi]Val) *Term { return Not(Eq(cell(st), Int(0))) }})
		case cl.sort == sInt:
			e, ok := st0.cells[cl].(*Term)
			if ok {
				out = append(out, cand{name: "auto-cell-ge", auto: true, eval: func(st *State, _ map[*ssa.Phi]Val) *Term { return Le(e, cell(st)) }})
			}
		}
	}
	// own set
	if plan.whole["own"] {
		r := BVar("owr", sInt)
		ec := c.entryCnt
		if ec == nil {
			ec = Int(0)
		}
		out = append(out, cand{name: "auto-own", auto: true, eval: func(st *State, _ map[*ssa.Phi]Val) *Term {
			s := Select(c.comp(st, "own"), r)
			return Forall([]*Term{r}, Implies(s, And(Lt(ec, r), Le(r, st.cnt))), []*Term{mk("select", sBool, "", c.comp(st, "own"), r)})
		}})
		for _, lv := range c.locals(fr, l, st0) {
			lv := lv
			if p, ok := lv.typ.Underlying().(*types.Pointer); ok && isStructT(p.Elem()) && isImmStruct(typeName(p.Elem())) {
				out = append(out, cand{name: "auto-own-local", auto: true, eval: func(st *State, phi map[*ssa.Phi]Val) *Term {
					v, ok := lv.get(st, phi).(*Term)
					if !ok {
						return nil
					}
					return Or(Eq(v, Int(0)), Select(c.comp(st, "own"), v))
				}})
				si, _ := structOf(p.Elem())
				for i := 0; i < si.st.NumFields(); i++ {
					i := i
					if sl, ok := si.st.Field(i).Type().Underlying().(*types.Slice); ok && immElems[typeName(sl.Elem())] {
						out = append(out, cand{name: "auto-own-slice", auto: true, eval: func(st *State, phi map[*ssa.Phi]Val) *Term {
							v, ok := lv.get(st, phi).(*Term)
							if !ok {
								return nil
							}
							f := c.loadField(st, si, i, v)
							return Or(Eq(v, Int(0)), Eq(slCap(f), Int(0)), Select(c.comp(st, "own"), slRef(f)))
						}})
					}
				}
			}
			if sl, ok := lv.typ.Underlying().(*types.Slice); ok && immElems[typeName(sl.Elem())] {
				out = append(out, cand{name: "auto-own-slice", auto: true, eval: func(st *State, phi map[*ssa.Phi]Val) *Term {
					v, ok := lv.get(st, phi).(*Term)
					if !ok {
						return nil
					}
					return Or(Eq(slCap(v), Int(0)), Select(c.comp(st, "own"), slRef(v)))
				}})
			}
		}
	}
	// frame for arrays that are written at varying places: objects older than the loop are untouched
	for _, k := range sortedKeys(plan.whole) {
		k := k
		if k == "own" || !strHasPrefix(c.compSort(k), "(Array Int") || isImmComp(k) || strHasPrefix(k, "G!") {
			continue
		}
		a0 := c.comp(st0, k)
		r := BVar("frr", sInt)
		cnt0 := st0.cnt
		out = append(out, cand{name: "auto-frame " + k, auto: true, eval: func(st *State, _ map[*ssa.Phi]Val) *Term {
			a := c.comp(st, k)
			if a == a0 {
				return tTrue
			}
			return Forall([]*Term{r}, Implies(Le(r, cnt0), Eq(Select(a, r), Select(a0, r))), []*Term{mk("select", arrElemSort(a.sort), "", a, r)})
		}})
	}
	if c.con == nil {
		return out
	}
	// the declared measures do not grow in the loop
	for _, m := range c.con.measures {
		m := m
		ev := func(st *State) (r *Term) {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(specError); !ok {
						panic(x)
					}
					r = nil
				}
			}()
			return c.loopEnv(st).term(m)
		}
		if m0 := ev(st0); m0 != nil {
			out = append(out, cand{name: "auto-measure", auto: true, eval: func(st *State, _ map[*ssa.Phi]Val) *Term {
				v := ev(st)
				if v == nil {
					return nil
				}
				return Le(v, m0)
			}})
		}
	}
	// declared invariants and templates
	var locs []localVal
	for ci, cl := range c.con.invs {
		cl := cl
		name := cl.label
		if name == "" {
			name = fmt.Sprintf("inv%d", ci+1)
		}
		if len(cl.vars) == 0 {
			out = append(out, cand{name: name, tags: cl.tags, src: cl.src, eval: func(st *State, phi map[*ssa.Phi]Val) *Term {
				en := c.loopEnv(st)
				return en.bool_(cl.e)
			}})
			continue
		}
		if locs == nil {
			locs = c.locals(fr, l, st0)
		}
		var choices [][]localVal
		for _, p := range cl.vars {
			t, s := c.eng.resolveType(p.typ)
			var ch []localVal
			for _, lv := range locs {
				if t != nil && types.Identical(lv.typ, t) || t == nil && sortOf(lv.typ) == s {
					ch = append(ch, lv)
					if lv.phi && s == sInt && !isPtrLike(lv.typ) {
						g := lv.get
						ch = append(ch, localVal{func(st *State, phi map[*ssa.Phi]Val) Val { return Add(g(st, phi).(*Term), Int(1)) }, lv.typ, true, lv.key + "+1"})
					}
				}
			}
			choices = append(choices, ch)
		}
		n := 0
		var rec func(i int, pick []localVal)
		rec = func(i int, pick []localVal) {
			if n > 400 {
				return
			}
			if i == len(choices) {
				n++
				pk := append([]localVal{}, pick...)
				out = append(out, cand{name: name, auto: true, tags: cl.tags, src: cl.src, eval: func(st *State, phi map[*ssa.Phi]Val) *Term {
					en := c.loopEnv(st)
					for k, p := range cl.vars {
						t, s := c.eng.resolveType(p.typ)
						v := pk[k].get(st, phi)
						if v == nil {
							return nil
						}
						en.vars[p.name] = SV{v: v, t: t, s: s}
					}
					return en.bool_(cl.e)
				}})
				return
			}
			for _, lv := range choices[i] {
				dup := false
				for _, q := range pick {
					if q.key == lv.key {
						dup = true
					}
				}
				if !dup {
					rec(i+1, append(pick, lv))
				}
			}
		}
		rec(0, nil)
	}
	return out
}

// loopEnv: spec environment with the verified function's parameters.
func (c *Ctx) loopEnv(st *State) *SEnv {
	vars := map[string]SV{}
	for k, v := range c.entryVars {
		vars[k] = v
	}
	return &SEnv{c: c, st: st, old: c.entry, vars: vars, where: "invariant"}
}

type measure struct {
	name string
	eval func(st *State, phi map[*ssa.Phi]Val) *Term
}

func (c *Ctx) measureCands(fr *Frame, l *Loop, head *State, hphi map[*ssa.Phi]Val, conds []*Term, invT func(*Term) bool) []measure {
	var ms []measure
	if c.con != nil {
		for i, m := range c.con.measures {
			m := m
			ms = append(ms, measure{fmt.Sprintf("measure%d", i+1), func(st *State, phi map[*ssa.Phi]Val) (r *Term) {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(specError); !ok {
							panic(x)
						}
						r = nil
					}
				}()
				return c.loopEnv(st).term(m)
			}})
		}
	}
	phis := c.headerPhis(l)
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if seen[t] || invT(t) {
			return
		}
		seen[t] = true
		ms = append(ms, measure{"auto " + t.short(), func(st *State, phi map[*ssa.Phi]Val) *Term {
			m := map[*Term]*Term{}
			for _, p := range phis {
				if h, ok := hphi[p].(*Term); ok {
					if v, ok := phi[p].(*Term); ok {
						m[h] = v
					}
				}
			}
			return Subst(t, m)
		}})
	}
	var atoms func(t *Term)
	atoms = func(t *Term) {
		switch t.op {
		case "and", "or", "not":
			for _, a := range t.args {
				atoms(a)
			}
		case "<", "<=":
			add(Sub(t.args[1], t.args[0]))
			add(Sub(t.args[0], t.args[1]))
		}
	}
	for _, t := range conds {
		atoms(t)
	}
	return ms
}

func (c *Ctx) loopTermination(fr *Frame, l *Loop, head *State, e edge, hphi, ph map[*ssa.Phi]Val, ms []measure) {
	if c.dry > 0 || c.con == nil || c.con.flags["noterm"] {
		return
	}
	// ranging over a map visits each key at most once
	for _, ins := range l.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok && !n.IsString {
			return
		}
	}
	var firstGoal *Term
	for _, m := range ms {
		a := m.eval(head, hphi)
		b := m.eval(e.st, ph)
		if a == nil || b == nil || a.sort != sInt || b.sort != sInt {
			continue
		}
		g := And(Lt(b, a), Le(Int(-1), a))
		if firstGoal == nil {
			firstGoal = g
		}
		if Implies(e.st.pc, g) == tTrue || c.eng.quick(c, c.facts, e.st.pc, g) {
			c.oblige(e.st, "loop-decreases", "loop", c.contractTags(), g, "")
			return
		}
	}
	if firstGoal == nil {
		firstGoal = tFalse
	}
	c.oblige(e.st, "loop-decreases", "loop", c.contractTags(), firstGoal, "no measure proves termination")
}
