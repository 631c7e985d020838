package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Addr, *Closure, Tuple, *MapIter.
type Val interface{}

type Tuple []Val

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type MapIter struct {
	mref *Term
	mt   *types.Map
	vis  *Cell // visited set
	dom  *Term
	str  *Term // string iteration (unsupported)
}

// Cell is a non-escaping local variable.
type Cell struct {
	id   int
	name string
	typ  types.Type
	sort string
}

const (
	aField = iota
	aElem
	aCell
	aGlobal
	aDeref
)

type pstep struct {
	field int // >=0 struct field, -1 array index
	idx   *Term
	typ   types.Type // type of the container
}

// Addr is an address of a memory location (other than a pointer to a heap struct, which is a Term).
type Addr struct {
	kind  int
	comp  string
	csort string
	ref   *Term
	idx   *Term
	cell  *Cell
	path  []pstep
	typ   types.Type // pointee type
	imm   bool
	from  string // "Struct.field" origin
}

type allocRec struct {
	ref  *Term
	strc string     // struct name or ""
	elem types.Type // element type for backing arrays
}

type State struct {
	pc     *Term
	heap   map[string]*Term
	cells  map[*Cell]Val
	cnt    *Term
	allocs []allocRec
	ownQ   bool // own set may contain objects not in allocs (loop havoc)
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, cnt: s.cnt, ownQ: s.ownQ}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.allocs = s.allocs[:len(s.allocs):len(s.allocs)]
	return n
}

func (s *State) with(pc *Term) *State {
	n := s.clone()
	n.pc = And(s.pc, pc)
	return n
}

type engineLimit struct{ msg string }

func limit(f string, a ...any) { panic(engineLimit{fmt.Sprintf(f, a...)}) }

// commonConj factors the common conjuncts of path conditions.
func commonConj(pcs []*Term) (common []*Term, rest []*Term) {
	if len(pcs) == 0 {
		return nil, nil
	}
	cnt := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conj(p) {
			cnt[c]++
		}
	}
	for _, c := range conj(pcs[0]) {
		if cnt[c] == len(pcs) && c != tTrue {
			common = append(common, c)
		}
	}
	in := map[*Term]bool{}
	for _, c := range common {
		in[c] = true
	}
	for _, p := range pcs {
		var r []*Term
		for _, c := range conj(p) {
			if !in[c] {
				r = append(r, c)
			}
		}
		rest = append(rest, And(r...))
	}
	return
}

// orPcs builds the disjunction of path conditions, factoring.
func orPcs(pcs []*Term) *Term {
	common, rest := commonConj(pcs)
	work := append([]*Term{}, rest...)
	for ch := true; ch && len(work) > 1; {
		ch = false
	outer:
		for i := 0; i < len(work); i++ {
			for j := i + 1; j < len(work); j++ {
				if r := mergeCompl(work[i], work[j]); r != nil {
					work[i] = r
					work = append(work[:j], work[j+1:]...)
					ch = true
					break outer
				}
			}
		}
	}
	return And(append(append([]*Term{}, common...), Or(work...))...)
}

func mergeVals(conds []*Term, vs []Val) Val {
	last := vs[len(vs)-1]
	same := true
	for _, v := range vs {
		if !valEq(v, last) {
			same = false
			break
		}
	}
	if same {
		return last
	}
	switch l := last.(type) {
	case *Term:
		r := l
		for i := len(vs) - 2; i >= 0; i-- {
			t, ok := vs[i].(*Term)
			if !ok {
				limit("merge of term with %T", vs[i])
			}
			r = Ite(conds[i], t, r)
		}
		return r
	case Tuple:
		out := make(Tuple, len(l))
		for k := range l {
			var sub []Val
			for _, v := range vs {
				sub = append(sub, v.(Tuple)[k])
			}
			out[k] = mergeVals(conds, sub)
		}
		return out
	case *Addr:
		a0 := *l
		for i := len(vs) - 2; i >= 0; i-- {
			o, ok := vs[i].(*Addr)
			if !ok || o.kind != l.kind || o.comp != l.comp || o.cell != l.cell || len(o.path) != len(l.path) {
				limit("merge of distinct addresses")
			}
			if o.ref != nil && a0.ref != nil {
				a0.ref = Ite(conds[i], o.ref, a0.ref)
			}
			if o.idx != nil && a0.idx != nil {
				a0.idx = Ite(conds[i], o.idx, a0.idx)
			}
		}
		return &a0
	}
	limit("merge of %T values", last)
	return nil
}

func valEq(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Term:
		return a == b
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Addr:
		y, ok := b.(*Addr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.kind != y.kind || x.comp != y.comp || x.ref != y.ref || x.idx != y.idx || x.cell != y.cell || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].idx != y.path[i].idx {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !valEq(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *MapIter:
		return a == b
	}
	return false
}

// mergeStates joins states.
func (c *Ctx) mergeStates(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	var pcs []*Term
	for _, s := range ss {
		pcs = append(pcs, s.pc)
	}
	_, conds := commonConj(pcs)
	out := &State{pc: orPcs(pcs), heap: map[string]*Term{}, cells: map[*Cell]Val{}}
	comps := map[string]bool{}
	for _, s := range ss {
		for k := range s.heap {
			comps[k] = true
		}
		if s.ownQ {
			out.ownQ = true
		}
	}
	for k := range comps {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, c.comp(s, k))
		}
		out.heap[k] = mergeVals(conds, vs).(*Term)
	}
	cells := map[*Cell]int{}
	for _, s := range ss {
		for k := range s.cells {
			cells[k]++
		}
	}
	for k, n := range cells {
		if n < len(ss) {
			continue // not live in all predecessors
		}
		var vs []Val
		for _, s := range ss {
			vs = append(vs, s.cells[k])
		}
		out.cells[k] = mergeVals(conds, vs)
	}
	var cv []Val
	for _, s := range ss {
		cv = append(cv, s.cnt)
	}
	cnt := mergeVals(conds, cv).(*Term)
	if cnt.op == "ite" {
		// name the merged counter: all refs so far are below it
		n := c.freshVar("cnt", sInt)
		for i, s := range ss {
			_ = i
			c.assumeRaw(Implies(s.pc, Eq(n, s.cnt)))
		}
		cnt = n
	}
	out.cnt = cnt
	seen := map[*Term]bool{}
	for _, s := range ss {
		for _, a := range s.allocs {
			if !seen[a.ref] {
				seen[a.ref] = true
				out.allocs = append(out.allocs, a)
			}
		}
	}
	return out
}

func (c *Ctx) compSort(name string) string {
	if s, ok := c.eng.compSorts[name]; ok {
		return s
	}
	panic("unknown heap component " + name)
}

func (c *Ctx) regComp(name, sort string) {
	if o, ok := c.eng.compSorts[name]; ok {
		if o != sort {
			panic("component sort clash " + name)
		}
		return
	}
	c.eng.compSorts[name] = sort
}

// comp reads a heap component (lazily its entry value).
func (c *Ctx) comp(s *State, name string) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	if c.entryHeap != nil {
		if t, ok := c.entryHeap[name]; ok {
			return t
		}
	}
	if name == "own" {
		return ConstArr(ArrSort(sInt, sBool), tFalse)
	}
	return Var("h0!"+name, c.compSort(name))
}

func (c *Ctx) freshVar(hint, sort string) *Term {
	c.fresh++
	return Var(fmt.Sprintf("%s!%d", hint, c.fresh), sort)
}

func (c *Ctx) assume(s *State, f *Term) {
	c.assumeRaw(Implies(s.pc, f))
}
func (c *Ctx) assumeRaw(f *Term) {
	if f == tTrue {
		return
	}
	c.facts = append(c.facts, f)
}

func sortedComps(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- memory access ----

func (c *Ctx) fieldCompOf(si *structInfo, i int) string {
	f := fieldComp(si.name, si.st.Field(i).Name())
	c.regComp(f, ArrSort(sInt, si.fsorts[i]))
	return f
}

// frozenPF: fields of syntax tree nodes built by package initialisation.
var frozenPF = map[string]*Term{}

// pfApp reads a field of a published node.
func pfApp(op, sort string, ref *Term) *Term {
	if len(frozenPF) > 0 {
		if ref.op == "int" {
			if v, ok := frozenPF[op+"@"+ref.String()]; ok {
				return v
			}
		} else if ref.op == "ite" && frozenLeaves(ref) {
			return Ite(ref.args[0], pfApp(op, sort, ref.args[1]), pfApp(op, sort, ref.args[2]))
		}
	}
	return App(op, sort, ref)
}

func frozenLeaves(t *Term) bool {
	if t.op == "ite" {
		return frozenLeaves(t.args[1]) && frozenLeaves(t.args[2])
	}
	return t.op == "int"
}

func pfName(comp string) string { return "pf!" + comp }

// readAt reads comp[ref] under the ownership discipline for immutable kinds.
func (c *Ctx) readAt(s *State, comp string, ref *Term, imm bool) *Term {
	arr := c.comp(s, comp)
	if !imm {
		return Select(arr, ref)
	}
	own := Select(c.comp(s, "own"), ref)
	pub := pfApp(pfName(comp), arrElemSort(arr.sort), ref)
	if own == tFalse || !c.mayOwn(s, ref) {
		return pub
	}
	return Ite(own, Select(arr, ref), pub)
}

func (c *Ctx) embRef(si *structInfo, i int, ref *Term) *Term {
	return App("emb!"+si.name+"!"+si.st.Field(i).Name(), sInt, ref)
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
func isArrayT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// loadStruct loads a whole struct at heap ref.
func (c *Ctx) loadStruct(s *State, t types.Type, ref *Term) *Term {
	si, _ := structOf(t)
	var a []*Term
	for i := 0; i < si.st.NumFields(); i++ {
		ft := si.st.Field(i).Type()
		if isStructT(ft) {
			a = append(a, c.loadStruct(s, ft, c.embRef(si, i, ref)))
			continue
		}
		a = append(a, c.loadField(s, si, i, ref))
	}
	return si.mk(a)
}

func (c *Ctx) loadField(s *State, si *structInfo, i int, ref *Term) *Term {
	ft := si.st.Field(i).Type()
	if isArrayT(ft) && c.eng.sliced[si.name+"."+si.st.Field(i).Name()] {
		el := ft.Underlying().(*types.Array).Elem()
		mc := memComp(el)
		c.regComp(mc, ArrSort(sInt, ArrSort(sInt, sortOf(el))))
		return Select(c.comp(s, mc), c.embRef(si, i, ref))
	}
	v := c.readAt(s, c.fieldCompOf(si, i), ref, isImmStruct(si.name))
	c.typeFacts(s, v, ft)
	return v
}

func (c *Ctx) storeStruct(s *State, t types.Type, ref *Term, v *Term, why string) {
	si, _ := structOf(t)
	for i := 0; i < si.st.NumFields(); i++ {
		ft := si.st.Field(i).Type()
		if isStructT(ft) {
			c.storeStruct(s, ft, c.embRef(si, i, ref), si.get(v, i), why)
			continue
		}
		c.storeField(s, si, i, ref, si.get(v, i), why)
	}
}

func (c *Ctx) storeField(s *State, si *structInfo, i int, ref, v *Term, why string) {
	comp := c.fieldCompOf(si, i)
	c.checkWrite(s, comp, ref, isImmStruct(si.name), why)
	s.heap[comp] = Store(c.comp(s, comp), ref, v)
}

// typeFacts assumes basic well-formedness of a loaded value.
func (c *Ctx) typeFacts(s *State, v *Term, t types.Type) {
	if v.bound || c.specDepth > 0 {
		return
	}
	if c.tfSeen[v] {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isCtor(v) {
			return
		}
		c.assumeRaw(And(Le(Int(0), slOff(v)), Le(Int(0), slLen(v)), Le(slLen(v), slCap(v)), Le(Int(0), slRef(v)),
			Implies(Eq(slRef(v), Int(0)), Eq(slCap(v), Int(0)))))
		c.assume(s, Le(slRef(v), s.cnt))
	case *types.Pointer, *types.Map:
		if v.op == "int" || strHasPrefix(v.op, "emb!") {
			return
		}
		c.assume(s, Le(v, s.cnt))
		if _, isM := u.(*types.Map); isM {
			c.assumeRaw(Le(Int(0), v))
		}
	case *types.Interface:
		if isCtor(v) {
			return
		}
		c.assume(s, Le(ifPay(v), s.cnt))
		c.assumeRaw(And(Le(Int(0), ifTag(v)), Implies(Eq(ifTag(v), Int(0)), Eq(ifPay(v), Int(0)))))
		c.assumeRaw(c.implTags(t, v))
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			c.assumeRaw(And(Le(Int(0), v), Lt(v, Int(256))))
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			c.assumeRaw(Le(Int(0), v))
		default:
			return
		}
	default:
		return
	}
}

func strHasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }
