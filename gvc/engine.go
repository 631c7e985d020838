package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine verifies contracts over one repository tree.
type Engine struct {
	layerOut    string
	layers      map[string]*layerRun
	repo        *Repo
	spec        *Spec
	compSorts   map[string]string
	sliced      map[string]bool
	cellMemo    map[ssa.Value]bool
	litMemo     map[*ssa.Alloc]litRes
	finMemo     map[*ssa.MakeInterface]bool
	typeMemo    map[string]SV
	unfoldMemo  map[*Term]*Term
	conMemo     map[*ssa.Function]*Contract
	recMemo     map[string]bool
	qdMemo      map[string]*Term
	axMemo      []axTerm
	implMemo    map[string][]int
	embKinds    map[string]int
	sccMemo     map[*ssa.Function]int
	ssaToTypes  map[string]bool
	useContract func(*Ctx, *Contract)
	initReverse bool
	defDepth    int
	tmo         time.Duration
	budget      int // seconds of solving before the first answer
	quickTmo    time.Duration
	batch       int
	solvers     []string
	initHeap    map[string]*Term
	initCnt     int64
	initObls    []*Obl
	frozenRefs  map[string][]frozenEntry
	targets     []*Target
	missing     []string
	renamed     []string
	verbose     bool
}

type frozenEntry struct {
	comp string
	ref  *Term
	val  *Term
}

// Target is one function under contract.
type Target struct {
	con *Contract
	fn  *ssa.Function
}

func newEngine(repo *Repo, spec *Spec) *Engine {
	e := &Engine{repo: repo, spec: spec, compSorts: map[string]string{}, sliced: map[string]bool{}, cellMemo: map[ssa.Value]bool{}, litMemo: map[*ssa.Alloc]litRes{}, finMemo: map[*ssa.MakeInterface]bool{},
		typeMemo: map[string]SV{}, unfoldMemo: map[*Term]*Term{}, conMemo: map[*ssa.Function]*Contract{}, recMemo: map[string]bool{}, qdMemo: map[string]*Term{}, implMemo: map[string][]int{},
		embKinds: map[string]int{}, defDepth: 3, tmo: 10 * time.Second, quickTmo: 2 * time.Second, batch: 12, solvers: []string{"z3-new", "z3", "cvc5"}, frozenRefs: map[string][]frozenEntry{}}
	e.compSorts["own"] = ArrSort(sInt, sBool)
	e.scanSliced()
	return e
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if fn.Parent() != nil {
			return e.inRepo(fn.Parent())
		}
		// synthetic wrappers
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strHasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strHasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// scanSliced finds array fields whose address is sliced or indexed through a pointer outside the struct.
func (e *Engine) scanSliced() {
	for _, fn := range e.repo.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Slice); ok {
					if fa, ok := s.X.(*ssa.FieldAddr); ok {
						st := deref(fa.X.Type())
						si, _ := structOf(st)
						e.sliced[si.name+"."+si.st.Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
}

func (r *Repo) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, n := range sortedKeys(r.funcs) {
		add(r.funcs[n])
	}
	return out
}

func (e *Engine) ghostApplies(g Ghost, t types.Type) bool {
	if t == nil {
		return false
	}
	n := typeName(t)
	if n == g.strct || typeName(deref(t)) == g.strct {
		return true
	}
	return false
}

func (e *Engine) ghostComp(strct, field string) string {
	for _, g := range e.spec.ghosts {
		if g.field == field {
			_, s := e.resolveType(g.typ)
			n := "GH!" + field
			if _, ok := e.compSorts[n]; !ok {
				e.compSorts[n] = ArrSort(sInt, s)
			}
			return n
		}
	}
	panic("no ghost " + field)
}

func (e *Engine) embKind(op string) int {
	if k, ok := e.embKinds[op]; ok {
		return k
	}
	e.embKinds[op] = len(e.embKinds) + 1
	return e.embKinds[op]
}

// closedImpls: interfaces with an unexported method declared in the repository can only be implemented there.
func (e *Engine) closedImpls(name string, t types.Type) []int {
	if r, ok := e.implMemo[name]; ok {
		return r
	}
	var out []int
	it, ok := t.Underlying().(*types.Interface)
	named, isN := t.(*types.Named)
	closed := false
	if ok && isN && named.Obj().Pkg() != nil && strHasPrefix(named.Obj().Pkg().Path(), modPath) {
		for i := 0; i < it.NumMethods(); i++ {
			if !it.Method(i).Exported() {
				closed = true
			}
		}
	}
	if closed {
		for _, id := range sortedTags() {
			dt := tagTypes[id]
			if _, isI := dt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(dt, it) {
				out = append(out, id)
			}
		}
	}
	e.implMemo[name] = out
	return out
}

func sortedTags() []int {
	var ids []int
	for id := range tagTypes {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	if c, ok := e.conMemo[fn]; ok {
		return c
	}
	var r *Contract
	n := fnName(fn)
	if c := e.spec.contracts[n]; c != nil && (c.kind == "contract" || c.kind == "extern") {
		r = c
	} else if recv := fn.Signature.Recv(); recv != nil && fn.Parent() == nil && e.inRepo(fn) {
		for _, k := range sortedKeys(e.spec.contracts) {
			c := e.spec.contracts[k]
			if c.kind != "iface" || !c.flags["recviface"] {
				continue
			}
			i := strings.LastIndex(c.name, ".")
			if c.name[i+1:] != fn.Name() {
				continue
			}
			it, _ := e.resolveType(c.name[:i])
			c.recvT = it
			if types.Implements(recv.Type(), it.Underlying().(*types.Interface)) {
				r = c
			}
		}
	}
	e.conMemo[fn] = r
	return r
}

// sameSCC: static call graph (calls, invokes to every implementation, closures).
func (e *Engine) sameSCC(a, b *ssa.Function) bool {
	if e.sccMemo == nil {
		e.buildSCC()
	}
	x, ok1 := e.sccMemo[a]
	y, ok2 := e.sccMemo[b]
	return ok1 && ok2 && x == y
}

func (e *Engine) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			var cc *ssa.CallCommon
			switch x := ins.(type) {
			case *ssa.Call:
				cc = &x.Call
			case *ssa.Defer:
				cc = &x.Call
			case *ssa.MakeClosure:
				out = append(out, x.Fn.(*ssa.Function))
				continue
			default:
				continue
			}
			if cc.IsInvoke() {
				if impls := e.closedImpls(typeName(cc.Value.Type()), cc.Value.Type()); impls != nil {
					for _, id := range impls {
						if m := e.repo.prog.LookupMethod(tagTypes[id], cc.Method.Pkg(), cc.Method.Name()); m != nil {
							out = append(out, m)
						}
					}
				}
				continue
			}
			if fn := cc.StaticCallee(); fn != nil {
				out = append(out, fn)
			}
		}
	}
	return out
}

func (e *Engine) buildSCC() {
	e.sccMemo = map[*ssa.Function]int{}
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range e.callees(f) {
			if g == f {
				self = true
			}
			if !e.inRepo(g) || g.Blocks == nil {
				continue
			}
			if idx[g] == 0 {
				dfs(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			comp++
			var members []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				members = append(members, g)
				if g == f {
					break
				}
			}
			if len(members) > 1 || self {
				for _, g := range members {
					e.sccMemo[g] = comp
				}
			}
		}
	}
	for _, f := range e.repo.allFuncs() {
		if idx[f] == 0 && e.inRepo(f) {
			dfs(f)
		}
	}
}

// ---- package initialisation ----

func (e *Engine) newCtx(fn *ssa.Function, con *Contract) *Ctx {
	return &Ctx{eng: e, fn: fn, con: con, tfSeen: map[*Term]bool{}, counts: map[string]int{}, invUsed: map[*Clause]bool{}, noteSet: map[string]bool{}, notOwned: map[*Term]bool{}}
}

func (e *Engine) runInit(reverse bool) (heap map[string]*Term, cnt *Term, err error) {
	defer func() {
		if x := recover(); x != nil {
			if l, ok := x.(engineLimit); ok {
				err = fmt.Errorf("init: %s", l.msg)
				return
			}
			panic(x)
		}
	}()
	e.initReverse = reverse
	var st *State
	for _, p := range e.repo.pkgs {
		fn := p.Func("init")
		c := e.newCtx(fn, nil)
		c.inits = true
		c.silentInit = true
		if st == nil {
			st = &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Val{}, cnt: Int(0)}
		}
		// globals start at their zero values
		for _, n := range sortedKeysM(p.Members) {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := deref(g.Type())
			if isStructT(t) {
				continue
			}
			comp := "G!" + globalName(g)
			c.regComp(comp, sortOf(t))
			if _, ok := st.heap[comp]; !ok {
				st.heap[comp] = zero(t)
			}
		}
		ns, _, _ := c.execFn(fn, nil, nil, st, nil)
		if ns == nil {
			return nil, nil, fmt.Errorf("init does not return")
		}
		st = ns
	}
	return st.heap, st.cnt, nil
}

func sortedKeysM(m map[string]ssa.Member) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// prepareInit executes package initialisation and records the values of frozen globals.
func (e *Engine) prepareInit() {
	h1, cnt, err := e.runInit(false)
	add := func(name string, ok bool, out string) {
		o := &Obl{Name: "init/" + name, Kind: "init", Fn: "init", Status: "proved", Solver: "init", Trivial: true}
		if !ok {
			o.Status = "failed"
			o.Output = out
		}
		e.initObls = append(e.initObls, o)
	}
	if err != nil {
		add("execute", false, err.Error())
		return
	}
	h2, _, err2 := e.runInit(true)
	if err2 != nil {
		add("execute", false, err2.Error())
		return
	}
	e.initReverse = false
	e.initHeap = h1
	if cnt.op != "int" {
		add("execute", false, "symbolic allocation count in init")
		return
	}
	e.initCnt = cnt.n.Int64()
	stores := e.storesOutsideInit()
	for _, g := range e.spec.frozen {
		comp := "G!" + g
		v, ok := h1[comp]
		if !ok {
			e.missing = append(e.missing, "frozen global "+g)
			continue
		}
		if w, bad := stores[g]; bad {
			add("frozen "+g, false, "package variable "+g+" is modified at "+w)
			continue
		}
		// order independence: contents identical under both map iteration orders
		var gt types.Type
		for _, p := range e.repo.pkgs {
			if m, ok := p.Members[g].(*ssa.Global); ok {
				gt = deref(m.Type())
			}
		}
		entries, eq := e.frozenVals(gt, v, h1, h2)
		add("deterministic "+g, eq, "the value of "+g+" depends on map iteration order")
		for _, fe := range entries {
			if isImmComp(fe.comp) {
				frozenPF[pfName(fe.comp)+"@"+fe.ref.String()] = fe.val
			}
		}
		e.frozenRefs[g] = append([]frozenEntry{{comp, nil, v}}, entries...)
	}
}

// frozenVals lists the memory reachable from a package variable after initialisation.
func (e *Engine) frozenVals(t types.Type, v *Term, h1, h2 map[string]*Term) ([]frozenEntry, bool) {
	var out []frozenEntry
	eq := true
	seen := map[string]bool{}
	at := func(comp string, ref *Term) *Term {
		a, ok := h1[comp]
		if !ok {
			return nil
		}
		x := Select(a, ref)
		key := comp + "@" + ref.String()
		if !seen[key] {
			seen[key] = true
			out = append(out, frozenEntry{comp, ref, x})
			if b, ok := h2[comp]; ok {
				y := Select(b, ref)
				eq = eq && (x == y || strHasPrefix(x.sort, "(Array") && sameArr(x, y))
			}
		}
		return x
	}
	done := map[string]bool{}
	var visit func(t types.Type, v *Term, depth int)
	visit = func(t types.Type, v *Term, depth int) {
		if v == nil || depth > 8 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			if v.op != "int" || v.n.Sign() == 0 {
				return
			}
			mp, mv := mapComps(u)
			ks := at(mp, v)
			vs := at(mv, v)
			if ks == nil || vs == nil {
				return
			}
			if dom, ok := constDomain(ks); ok {
				for _, k := range dom {
					visit(u.Elem(), Select(vs, k), depth+1)
				}
			}
		case *types.Slice:
			r := slRef(v)
			if r.op != "int" || r.n.Sign() == 0 {
				return
			}
			arr := at(memComp(u.Elem()), r)
			if o, n := slOff(v), slLen(v); arr != nil && o.op == "int" && n.op == "int" {
				for i := int64(0); i < n.n.Int64() && i < 1000; i++ {
					visit(u.Elem(), Select(arr, Int(o.n.Int64()+i)), depth+1)
				}
			}
		case *types.Pointer:
			if v.op != "int" || v.n.Sign() == 0 || done[v.String()] {
				return
			}
			si, ok := structOf(u.Elem())
			if !ok {
				return
			}
			done[v.String()] = true
			for i := 0; i < si.st.NumFields(); i++ {
				f := si.st.Field(i)
				if isStructT(f.Type()) || isArrayT(f.Type()) {
					continue
				}
				visit(f.Type(), at(fieldComp(si.name, f.Name()), v), depth+1)
			}
		case *types.Interface:
			if tg := ifTag(v); tg.op == "int" && tg.n.Sign() != 0 {
				if dt := tagTypes[int(tg.n.Int64())]; dt != nil && isPtrLike(dt) {
					visit(dt, ifPay(v), depth+1)
				}
			}
		}
	}
	visit(t, v, 0)
	return out, eq
}

// sameArr compares constant arrays as functions (order of stores is irrelevant).
func sameArr(a, b *Term) bool {
	keys := map[*Term]bool{}
	for _, t := range []*Term{a, b} {
		for t.op == "store" {
			if !isConst(t.args[1]) {
				return a == b
			}
			keys[t.args[1]] = true
			t = t.args[0]
		}
	}
	for k := range keys {
		if Select(a, k) != Select(b, k) {
			return false
		}
	}
	return true
}

// storesOutsideInit: package variables that are written (directly, or through map updates on them) by
// functions other than package initialisation.
func (e *Engine) storesOutsideInit() map[string]string {
	out := map[string]string{}
	for _, fn := range e.repo.allFuncs() {
		if !e.inRepo(fn) || isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if g := rootGlobal(x.Addr); g != nil {
						out[globalName(g)] = e.repo.pos(x.Pos())
					}
				case *ssa.MapUpdate:
					if g := rootGlobal(x.Map); g != nil {
						out[globalName(g)] = e.repo.pos(x.Pos())
					}
				case *ssa.Call:
					if bt, ok := x.Call.Value.(*ssa.Builtin); ok && bt.Name() == "delete" {
						if g := rootGlobal(x.Call.Args[0]); g != nil {
							out[globalName(g)] = e.repo.pos(x.Pos())
						}
						continue
					}
					// a frozen map or slice handed to other code could be changed there
				}
			}
		}
	}
	return out
}

func isInitFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" || strHasPrefix(fn.Name(), "init#")
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.Next:
			v = x.Iter
		case *ssa.Range:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// ---- targets ----

func (e *Engine) collectTargets() {
	for _, n := range sortedKeys(e.spec.contracts) {
		c := e.spec.contracts[n]
		switch c.kind {
		case "contract":
			f := e.repo.funcs[n]
			if f == nil || f.Blocks == nil {
				e.missing = append(e.missing, "function "+n)
				continue
			}
			e.targets = append(e.targets, &Target{c, f})
		case "iface":
			if !c.flags["recviface"] {
				continue
			}
			i := strings.LastIndex(c.name, ".")
			it, _ := e.resolveType(c.name[:i])
			c.recvT = it
			for _, id := range e.closedImpls(typeName(it), it) {
				var pkg *types.Package
				if nt, ok := deref(tagTypes[id]).(*types.Named); ok {
					pkg = nt.Obj().Pkg()
				}
				m := e.repo.prog.LookupMethod(tagTypes[id], pkg, c.name[i+1:])
				if m == nil || e.spec.contracts[fnName(m)] != nil {
					continue
				}
				e.targets = append(e.targets, &Target{c, m})
			}
		}
	}
}

// FnResult is the verification result of one function.
type FnResult struct {
	name   string
	con    *Contract
	obls   []*Obl
	limit  string
	notes  []string
	used   map[*Contract]bool
	ctxs   []*Ctx
	ms     int64
	loops  int
	target *Target
	lemma  string
}

func (e *Engine) verify(t *Target) *FnResult {
	r := &FnResult{name: fnName(t.fn), con: t.con, used: map[*Contract]bool{}}
	start := time.Now()
	old := e.useContract
	e.useContract = func(c *Ctx, con *Contract) { r.used[con] = true }
	defer func() { e.useContract = old; r.ms = time.Since(start).Milliseconds() }()
	cases := t.con.cases
	if len(cases) == 0 {
		cases = []*Clause{nil}
	}
	for i, cs := range cases {
		e.verifyCase(t, r, cs, i)
	}
	return r
}

func (e *Engine) verifyCase(t *Target, r *FnResult, cs *Clause, ci int) {
	c := e.newCtx(t.fn, t.con)
	if cs != nil {
		c.caseName = cs.label
		if c.caseName == "" {
			c.caseName = fmt.Sprint(ci + 1)
		}
	}
	r.ctxs = append(r.ctxs, c)
	defer func() {
		if x := recover(); x != nil {
			msg := ""
			switch y := x.(type) {
			case engineLimit:
				msg = y.msg
			case specError:
				msg = "spec: " + y.msg
			default:
				msg = fmt.Sprintf("internal: %v", x)
				if e.verbose || os.Getenv("GVC_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
				}
			}
			r.limit = msg + " (at " + e.repo.pos(c.curPos) + ")"
			// obligations so far are reported, the function as a whole is undecided
			c.obls = append(c.obls, &Obl{Name: r.name + "/reach/" + "verifier", Kind: "reach", Fn: r.name, Tags: allTags(t.con), Status: "failed", Output: r.limit, Trivial: true, Pos: e.repo.pos(c.curPos)})
		}
		r.obls = append(r.obls, c.obls...)
		for _, n := range sortedKeys(c.noteSet) {
			r.notes = append(r.notes, n)
		}
	}()
	fn, con := t.fn, t.con
	st := &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Val{}}
	st.cnt = Var("cnt0", sInt)
	c.assumeRaw(Le(Int(e.initCnt), st.cnt))
	c.entryCnt = st.cnt
	// frozen package variables have their initial values
	c.entryHeap = map[string]*Term{}
	for _, g := range e.spec.frozen {
		for _, fe := range e.frozenRefs[g] {
			if fe.ref == nil {
				c.regComp(fe.comp, fe.val.sort)
				c.entryHeap[fe.comp] = fe.val
				continue
			}
			arr, ok := c.entryHeap[fe.comp]
			if !ok {
				arr = Var("h0!"+fe.comp, c.compSort(fe.comp))
			}
			c.entryHeap[fe.comp] = Store(arr, fe.ref, fe.val)
		}
	}
	// parameters
	if len(con.params) != len(fn.Params) {
		panic(specError{fmt.Sprintf("contract %s declares %d parameters, the function has %d", con.name, len(con.params), len(fn.Params))})
	}
	vars := map[string]SV{}
	var args []Val
	for i, p := range fn.Params {
		pt := p.Type()
		var v Val
		if con.flags["cells"] {
			if pp, ok := pt.Underlying().(*types.Pointer); ok && !isStructT(pp.Elem()) && i > 0 {
				cell := c.newCell(con.params[i].name, pp.Elem(), sortOf(pp.Elem()))
				st.cells[cell] = Var("p!*"+con.params[i].name, cell.sort)
				v = &Addr{kind: aCell, cell: cell, typ: pp.Elem()}
				args = append(args, v)
				vars[con.params[i].name] = SV{v: v, t: pt}
				continue
			}
		}
		tv := Var("p!"+con.params[i].name, sortOf(pt))
		c.typeFacts(st, tv, pt)
		args = append(args, tv)
		v = tv
		t2 := pt
		if i == 0 && con.flags["recviface"] {
			v = mkIface(Int(int64(tagOf(pt))), tv)
			t2 = con.recvT
			c.assumeRaw(Lt(Int(0), tv))
		}
		vars[con.params[i].name] = SV{v: v, t: t2}
	}
	c.entryVars = vars
	pre := st.clone()
	c.entry = pre
	en := &SEnv{c: c, st: pre, old: pre, vars: vars, where: "contract " + con.name}
	for _, q := range con.requires {
		c.assumeRaw(en.bool_(q.e))
	}
	if cs != nil {
		if ci == 0 {
			// the cases must cover everything
			var alts []*Term
			for _, x := range con.cases {
				alts = append(alts, en.bool_(x.e))
			}
			c.oblige(st, "cases", "exhaustive", con.tags, Or(alts...), "")
		}
		cc := en.bool_(cs.e)
		if cc.op == "=" && (cc.args[0].op == "var" && isConst(cc.args[1]) || cc.args[1].op == "var" && isConst(cc.args[0])) {
			// a parameter with a fixed value in this case
			v, k := cc.args[0], cc.args[1]
			if isConst(v) {
				v, k = k, v
			}
			sub := map[*Term]*Term{v: k}
			for i, a := range args {
				if t, ok := a.(*Term); ok {
					args[i] = Subst(t, sub)
				}
			}
			for n, x := range vars {
				if t, ok := x.v.(*Term); ok {
					x.v = Subst(t, sub)
					vars[n] = x
				}
			}
			fs := make([]*Term, len(c.facts))
			for i, f := range c.facts {
				fs[i] = Subst(f, sub)
			}
			c.facts = fs
			cc = tTrue
		}
		c.assumeRaw(cc)
		// equalities with constants are substituted by the solver
	}
	for _, h := range con.hints {
		c.assumeRaw(Or(en.bool_(h.e), tTrue))
	}
	for _, m := range con.modifies {
		for _, l := range en.locs(m) {
			c.modset = append(c.modset, modLoc{l.comp, l.ref, l.all})
		}
	}
	for _, d := range con.decreases {
		c.decEntry = append(c.decEntry, en.term(d))
	}
	// vacuity: the precondition must be satisfiable
	c.obls = append(c.obls, &Obl{Name: r.name + "/vacuity/requires", Kind: "vacuity", Fn: r.name, Tags: con.tags, Pos: e.repo.pos(fn.Pos()), facts: c.facts[:len(c.facts):len(c.facts)], goal: tFalse, cond: tTrue, depth: con.depth})
	rets, panics := c.execTop(fn, args, st)
	// panic exits
	for _, p := range panics {
		c.curPos = fn.Pos()
		if !con.mayPanic {
			c.oblige(p.st, "safety", "panic", con.tags, tFalse, "explicit panic reaches the caller")
			continue
		}
		ps := p.st.clone()
		c.publishAll(ps)
		ev := map[string]SV{}
		for k, v := range vars {
			ev[k] = v
		}
		ev["panicval"] = SV{v: p.v, t: types.NewInterfaceType(nil, nil)}
		pe := &SEnv{c: c, st: ps, old: pre, vars: ev, where: "contract " + con.name}
		for i, cl := range con.panics {
			lab := cl.label
			if lab == "" {
				lab = fmt.Sprint(i + 1)
			}
			c.oblige(ps, "panics", lab, tagsOr(cl.tags, con.tags), pe.bool_(cl.e), cl.src)
		}
	}
	reachable := tFalse
	for ri, ro := range rets {
		rs := ro.st.clone()
		c.publishAll(rs)
		ev := map[string]SV{}
		for k, v := range vars {
			ev[k] = v
		}
		for i := range ro.vs {
			rt := fn.Signature.Results().At(i).Type()
			name := fmt.Sprintf("result%d", i)
			if i < len(con.results) {
				name = con.results[i].name
			}
			ev[name] = SV{v: c.asTerm(rs, ro.vs[i], rt), t: rt}
			if i == 0 {
				ev["result"] = ev[name]
			}
		}
		re := &SEnv{c: c, st: rs, old: pre, vars: ev, where: "contract " + con.name}
		c.ghostSets(re, rs, con)
		for i, cl := range con.ensures {
			lab := cl.label
			if lab == "" {
				lab = fmt.Sprint(i + 1)
			}
			if len(rets) > 1 {
				lab += fmt.Sprintf("@ret%d", ri+1)
			}
			for _, g := range splitGoal(re.bool_(cl.e)) {
				c.oblige(rs, "ensures", lab, tagsOr(cl.tags, con.tags), g, cl.src)
			}
		}
		c.checkFnFields(rs)
		reachable = Or(reachable, rs.pc)
	}
}

// ghostSets makes the ghost assignments of the contract at a return.
func (c *Ctx) ghostSets(re *SEnv, rs *State, con *Contract) {
	for _, g := range con.sets {
		w := tTrue
		if g.when != nil {
			w = re.bool_(g.when)
		}
		v := re.eval(g.val)
		for _, l := range re.locs(g.loc) {
			if !strHasPrefix(l.comp, "GH!") || l.all {
				panic(specError{"sets: only ghost state can be set"})
			}
			if m := c.inModAll(rs, l); m != tTrue {
				c.oblige(rs, "frame", "set "+l.comp, c.frameTags(), Implies(w, m), "")
			}
			old := c.comp(rs, l.comp)
			nv := Store(old, l.ref, v.v.(*Term))
			if w != tTrue {
				nv = Ite(w, nv, old)
			}
			rs.heap[l.comp] = nv
		}
	}
}

// splitGoal splits a conjunctive goal (also under implications).
func splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, Implies(g.args[0], a))
		}
		return out
	}
	return []*Term{g}
}

func tagsOr(a, b []string) []string {
	if len(a) > 0 {
		return a
	}
	return b
}

func allTags(c *Contract) []string {
	m := map[string]bool{}
	for _, t := range c.tags {
		m[t] = true
	}
	for _, cl := range c.ensures {
		for _, t := range cl.tags {
			m[t] = true
		}
	}
	for _, cl := range c.panics {
		for _, t := range cl.tags {
			m[t] = true
		}
	}
	return sortedKeys(m)
}

// execTop runs the body of the verified function, keeping return paths separate.
func (c *Ctx) execTop(fn *ssa.Function, args []Val, st *State) ([]retOut, []panicOut) {
	c.stack = append(c.stack, fn)
	fr := c.newFrame(fn, nil)
	c.curFrame = fr
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	if fn.Recover != nil {
		fr.panicVal = c.newCell("panicval", nil, sIface)
		st.cells[fr.panicVal] = tNilIface
	}
	c.runRegion(fr, nil, fn.Blocks[0], st, nil)
	if fn.Recover != nil && len(fr.panics) > 0 {
		ps := fr.panics
		fr.panics = nil
		for _, p := range ps {
			c.runPanicDefers(fr, p)
		}
	}
	if len(fr.rets) > 40 {
		limit("too many return paths")
	}
	return fr.rets, fr.panics
}

// verifyLemma checks a lemma: requires imply ensures.
func (e *Engine) verifyLemma(con *Contract) *FnResult {
	r := &FnResult{name: "lemma " + con.name, con: con, used: map[*Contract]bool{}}
	var anyFn *ssa.Function
	for _, n := range sortedKeys(e.repo.funcs) {
		anyFn = e.repo.funcs[n]
		break
	}
	c := e.newCtx(anyFn, con)
	r.ctxs = append(r.ctxs, c)
	defer func() {
		if x := recover(); x != nil {
			msg := fmt.Sprint(x)
			if y, ok := x.(specError); ok {
				msg = y.msg
			}
			r.limit = msg
			c.obls = append(c.obls, &Obl{Name: r.name + "/reach/verifier", Kind: "reach", Fn: r.name, Tags: allTags(con), Status: "failed", Output: msg, Trivial: true})
		}
		r.obls = c.obls
	}()
	st := &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Val{}, cnt: Var("cnt0", sInt)}
	vars := map[string]SV{}
	for _, p := range con.params {
		t, s := e.resolveType(p.typ)
		vars[p.name] = SV{v: Var("p!"+p.name, s), t: t, s: s}
	}
	c.entryHeap = map[string]*Term{}
	for _, g := range e.spec.frozen {
		for _, fe := range e.frozenRefs[g] {
			if fe.ref == nil {
				c.regComp(fe.comp, fe.val.sort)
				c.entryHeap[fe.comp] = fe.val
				continue
			}
			arr, ok := c.entryHeap[fe.comp]
			if !ok {
				arr = Var("h0!"+fe.comp, c.compSort(fe.comp))
			}
			c.entryHeap[fe.comp] = Store(arr, fe.ref, fe.val)
		}
	}
	en := &SEnv{c: c, st: st, old: st, vars: vars, where: "lemma " + con.name}
	for _, q := range con.requires {
		c.assumeRaw(en.bool_(q.e))
	}
	for i, cl := range con.ensures {
		lab := cl.label
		if lab == "" {
			lab = fmt.Sprint(i + 1)
		}
		for _, g := range splitGoal(en.bool_(cl.e)) {
			c.oblige(st, "lemma", con.name+":"+lab, tagsOr(cl.tags, con.tags), g, cl.src)
		}
	}
	for _, o := range c.obls {
		o.Fn = r.name
		o.Name = strings.Replace(o.Name, fnName(anyFn), r.name, 1)
	}
	return r
}

// discharge runs the solvers on the obligations.
// pool runs solver jobs while further queries are being written.
type pool struct {
	ch chan func()
	wg sync.WaitGroup
}

func newPool() *pool {
	p := &pool{ch: make(chan func(), 100000)}
	for i := 0; i < runtime.NumCPU(); i++ {
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			for f := range p.ch {
				f()
			}
		}()
	}
	return p
}

func (p *pool) wait() {
	close(p.ch)
	p.wg.Wait()
}

// oblGroup is a set of obligations with the same hypotheses.
type oblGroup struct {
	r  *FnResult
	os []*Obl
	ok bool
	ms int64
}

// discharge proves the obligations. Obligations with the same hypotheses are first tried together, as one
// query for the conjunction of their goals; where that is not proved each is tried alone.
func (e *Engine) discharge(rs []*FnResult) {
	p := newPool()
	var gs []*oblGroup
	for _, r := range rs {
		gs = append(gs, e.submit(p, r)...)
	}
	e.finish(p, gs)
}

// submit hands the obligations of a function to the pool.
func (e *Engine) submit(p *pool, r *FnResult) []*oblGroup {
	var groups []*oblGroup
	last := map[string]*oblGroup{}
	for _, o := range r.obls {
		if o.Trivial || o.Status != "" {
			continue
		}
		o := o
		c := r.ctxs[0]
		if o.Kind == "vacuity" {
			text := e.query(c, o.facts, o.cond, o.goal, o.depth)
			o.facts = nil
			p.ch <- func() {
				res := runSolver("z3-new", text, e.quickTmo, false)
				o.Ms, o.Solver = res.ms, "z3-new"
				o.Status = "proved"
				if res.res == "unsat" {
					o.Status = "failed"
					o.Output = "the precondition is unsatisfiable"
				}
			}
			continue
		}
		key := fmt.Sprint(len(o.facts), o.depth, o.cond.id)
		g := last[key]
		if g == nil || len(g.os) >= e.batch || !sameTerms(g.os[0].facts, o.facts) {
			g = &oblGroup{r: r}
			last[key] = g
			groups = append(groups, g)
		}
		g.os = append(g.os, o)
	}
	for _, g := range groups {
		g := g
		o := g.os[0]
		if len(g.os) < 2 {
			g.ok = true
			p.ch <- e.prepare(r.ctxs[0], o)
			continue
		}
		var goals []*Term
		for _, o := range g.os {
			goals = append(goals, o.goal)
		}
		text := e.query(r.ctxs[0], o.facts, o.cond, And(goals...), o.depth)
		p.ch <- func() {
			res := runSolver("z3-new", text, e.quickTmo, false)
			g.ms = res.ms
			if res.res == "unsat" {
				g.ok = true
				for i, o := range g.os {
					o.Status, o.Solver, o.Cached = "proved", "z3-new", res.cached
					if i == 0 {
						o.Ms = res.ms
					}
				}
			}
		}
	}
	return groups
}

// finish waits for the pool and tries the obligations of groups that were not proved together one by one.
func (e *Engine) finish(p *pool, groups []*oblGroup) {
	p.wait()
	p = newPool()
	for _, g := range groups {
		for _, o := range g.os {
			if !g.ok {
				p.ch <- e.prepare(g.r.ctxs[0], o)
			}
			o.facts = nil
		}
	}
	p.wait()
	if os.Getenv("GVC_STAT") != "" {
		by := map[*FnResult][]*oblGroup{}
		var order []*FnResult
		for _, g := range groups {
			if by[g.r] == nil {
				order = append(order, g.r)
			}
			by[g.r] = append(by[g.r], g)
		}
		for _, r := range order {
			b, nb, nm := 0, 0, 0
			var ms, bms int64
			for _, g := range by[r] {
				if len(g.os) > 1 {
					b++
					bms += g.ms
					nm += len(g.os)
					if g.ok {
						nb++
					}
				}
			}
			for _, o := range r.obls {
				ms += o.Ms
			}
			fmt.Printf("STAT %-40s obl %4d groups %4d batched %4d ok %4d (%d obls, %d ms) solver %6d ms gen %6d ms\n", r.name, len(r.obls), len(by[r]), b, nb, nm, bms, ms, r.ms)
		}
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
