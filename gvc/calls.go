package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) note(s string) {
	c.noteSet[s] = true
}

// call executes a call instruction.
func (c *Ctx) call(fr *Frame, st *State, cc *ssa.CallCommon, ins ssa.Instruction) (*State, Val) {
	if p := ins.Pos(); p.IsValid() {
		c.curPos = p
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(fr, st, b, cc)
	}
	var args []Val
	if cc.IsInvoke() {
		recv := c.term(fr, st, cc.Value)
		c.safety(st, "nil-interface", Not(Eq(ifTag(recv), Int(0))))
		for _, a := range cc.Args {
			args = append(args, c.val(fr, st, a))
		}
		in := typeName(cc.Value.Type())
		name := in + "." + cc.Method.Name()
		con := c.eng.spec.contracts[name]
		tag := ifTag(recv)
		if tag.op == "int" && (con == nil || !con.flags["novirt"]) {
			dt := tagTypes[int(tag.n.Int64())]
			if dt != nil {
				if m := c.eng.repo.prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					var rv Val = ifPay(recv)
					if !isPtrLike(dt) {
						if p := ifPay(recv); p.op == "box!"+typeName(dt) {
							rv = p.args[0]
						} else {
							rv = App("unbox!"+typeName(dt), sortOf(dt), ifPay(recv))
						}
					}
					return c.callFn(fr, st, m, append([]Val{rv}, args...), nil)
				}
			}
		}
		if con == nil {
			if cc.Method.Name() == "Error" {
				return st, App("errtext", sStr, recv)
			}
			// enumerate the closed set of implementations
			if impls := c.eng.closedImpls(in, cc.Value.Type()); impls != nil {
				return c.dispatch(fr, st, recv, impls, cc.Method, args)
			}
			limit("interface call %s has no contract", name)
		}
		sig := cc.Signature()
		return c.applyContract(fr, st, con, nil, sig, append([]Val{recv}, args...), append([]types.Type{cc.Value.Type()}, sigParamTypes(sig)...))
	}
	for _, a := range cc.Args {
		args = append(args, c.val(fr, st, a))
	}
	if fn := cc.StaticCallee(); fn != nil {
		var free []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			free = c.val(fr, st, mc).(*Closure).binds
		}
		return c.callFn(fr, st, fn, args, free)
	}
	fv := c.val(fr, st, cc.Value)
	switch f := fv.(type) {
	case *Closure:
		return c.callFn(fr, st, f.fn, args, f.binds)
	case *Term:
		c.safety(st, "nil-func", Not(Eq(f, Int(0))))
		name := typeName(cc.Value.Type())
		if u, ok := cc.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				si, _ := structOf(deref(fa.X.Type()))
				name = si.name + "." + si.st.Field(fa.Field).Name()
			}
		}
		con := c.eng.spec.contracts[name]
		if con == nil {
			limit("dynamic call through %s has no contract", name)
		}
		if con.link != nil {
			// the function is called with the object that holds it
			h := c.term(fr, st, cc.Value.(*ssa.UnOp).X.(*ssa.FieldAddr).X)
			c.oblige(st, "pre", con.name+":holder", c.contractTags(), Eq(h, c.asTerm(st, args[0], cc.Args[0].Type())), "the function in a field is called with the object that holds it")
		}
		return c.applyContract(fr, st, con, nil, cc.Signature(), append([]Val{f}, args...), append([]types.Type{cc.Value.Type()}, sigParamTypes(cc.Signature())...))
	}
	limit("call of %T", fv)
	return nil, nil
}

func sigParamTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// dispatch inlines all implementations of a small closed interface.
func (c *Ctx) dispatch(fr *Frame, st *State, recv *Term, impls []int, m *types.Func, args []Val) (*State, Val) {
	var sts []*State
	var vs []Val
	var pcs []*Term
	for _, id := range impls {
		dt := tagTypes[id]
		s2 := st.with(Eq(ifTag(recv), Int(int64(id))))
		if s2.pc == tFalse {
			continue
		}
		f := c.eng.repo.prog.LookupMethod(dt, m.Pkg(), m.Name())
		ns, v := c.callFn(fr, s2, f, append([]Val{ifPay(recv)}, args...), nil)
		if ns != nil {
			sts = append(sts, ns)
			vs = append(vs, v)
			pcs = append(pcs, ns.pc)
		}
	}
	if len(sts) == 0 {
		return nil, nil
	}
	_, conds := commonConj(pcs)
	v := Val(nil)
	if vs[0] != nil {
		v = mergeVals(conds, vs)
	}
	return c.mergeStates(sts), v
}

func (c *Ctx) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, free []Val) (*State, Val) {
	if con := c.eng.contractFor(fn); con != nil && !c.inits {
		var pt []types.Type
		for _, p := range fn.Params {
			pt = append(pt, p.Type())
		}
		if len(pt) == 0 {
			if r := fn.Signature.Recv(); r != nil {
				pt = append(pt, r.Type())
			}
			pt = append(pt, sigParamTypes(fn.Signature)...)
		}
		return c.applyContract(fr, st, con, fn, fn.Signature, args, pt)
	}
	if ns, v, ok := c.intrinsic(st, fn, args); ok {
		return ns, v
	}
	if fn.Blocks == nil || !c.eng.inRepo(fn) {
		if c.inits {
			// package initialisation of other packages is not modelled
			return st, c.havocResults(st, fn.Signature)
		}
		limit("external function %s has no contract", fnName(fn))
	}
	ns, v, ps := c.execFn(fn, args, free, st, fr)
	fr.panics = append(fr.panics, ps...)
	return ns, v
}

func (c *Ctx) havocResults(st *State, sig *types.Signature) Val {
	var out Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := c.freshVar("res", sortOf(t))
		c.typeFacts(st, v, t)
		out = append(out, v)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// intrinsic models a few external functions exactly.
func (c *Ctx) intrinsic(st *State, fn *ssa.Function, args []Val) (*State, Val, bool) {
	switch fn.String() {
	case "strings.ToLower":
		return st, strLower(args[0].(*Term)), true
	}
	return nil, nil, false
}

type applyRes struct {
	st *State
	vs []*Term
}

// applyContract replaces a call by its contract.
func (c *Ctx) applyContract(fr *Frame, st *State, con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, ptypes []types.Type) (*State, Val) {
	if c.eng.useContract != nil {
		c.eng.useContract(c, con)
	}
	vars := map[string]SV{}
	if len(con.params) != len(args) {
		panic(specError{fmt.Sprintf("contract %s: %d parameters declared, function has %d", con.name, len(con.params), len(args))})
	}
	for i, p := range con.params {
		v := args[i]
		t := ptypes[i]
		if cl, ok := v.(*Closure); ok {
			v = Var("fn!"+fnName(cl.fn), sInt)
		}
		if i == 0 && con.flags["recviface"] && sortOf(t) != sIface {
			x := c.asTerm(st, v, t)
			if isPtrLike(t) {
				v = mkIface(Int(int64(tagOf(t))), x)
			} else {
				v = mkIface(Int(int64(tagOf(t))), App("box!"+typeName(t), sInt, x))
			}
			t = con.recvT
		}
		vars[p.name] = SV{v: v, t: t}
	}
	calleeName := con.name
	pre := st.clone()
	en := &SEnv{c: c, st: pre, old: pre, vars: vars, where: "contract " + con.name}
	for i, r := range con.requires {
		lab := r.label
		if lab == "" {
			lab = fmt.Sprint(i + 1)
		}
		g := en.bool_(r.e)
		if g != tTrue {
			c.oblige(st, "pre", calleeName+":"+lab, append(append([]string{}, c.contractTags()...), r.tags...), g, r.src)
			c.assume(st, g)
		}
	}
	// termination
	if fn != nil && c.eng.sameSCC(c.fn, fn) && !con.flags["noterm"] {
		if len(con.decreases) == 0 || len(c.decEntry) == 0 {
			c.oblige(st, "decreases", calleeName, c.contractTags(), tFalse, "recursive call without a measure")
		} else {
			c.obligeDecreases(st, en, con, calleeName)
		}
	} else if fn == nil && con.flags["recursive"] && len(con.decreases) > 0 && len(c.decEntry) > 0 {
		c.obligeDecreases(st, en, con, calleeName)
	}
	// modifies
	var ls []loc
	for _, m := range con.modifies {
		ls = append(ls, en.locs(m)...)
	}
	for _, l := range ls {
		if c.inits {
			break
		}
		if isImmComp(l.comp) {
			g := Select(c.comp(st, "own"), l.ref)
			if g != tTrue {
				c.oblige(st, "frame", "own "+l.comp+" in "+calleeName, c.frameTags(), g, "")
			}
			continue
		}
		g := c.inModAll(st, l)
		if g != tTrue {
			c.oblige(st, "frame", l.comp+" in "+calleeName, c.frameTags(), g, "")
			c.assume(st, g)
		}
	}
	// publish owned objects handed to the callee
	if !con.flags["pure"] || returnsRef(sig) {
		for i, a := range args {
			c.publishArg(st, a, ptypes[i])
		}
		pre.heap["own"] = c.comp(st, "own")
	}
	var pflag *Term
	nst := st
	if con.mayPanic {
		pflag = c.freshVar("panics", sBool)
		pst := st.with(pflag)
		pr := c.applyOutcome(pst, pre, con, sig, vars, ls, true)
		if pr.st.pc != tFalse {
			fr.panics = append(fr.panics, panicOut{pr.st, pr.vs[0]})
		}
		nst = st.with(Not(pflag))
	}
	normal := c.applyOutcome(nst, pre, con, sig, vars, ls, false)
	if con.flags["noreturn"] {
		return nil, nil
	}
	switch len(normal.vs) {
	case 0:
		return normal.st, nil
	case 1:
		return normal.st, normal.vs[0]
	}
	var out Tuple
	for _, v := range normal.vs {
		out = append(out, v)
	}
	return normal.st, out
}

func (c *Ctx) obligeDecreases(st *State, en *SEnv, con *Contract, name string) {
	var now []*Term
	for _, d := range con.decreases {
		now = append(now, en.term(d))
	}
	g := tFalse
	eq := tTrue
	for i := range now {
		if i >= len(c.decEntry) {
			break
		}
		g = Or(g, And(eq, Lt(now[i], c.decEntry[i]), Le(Int(0), c.decEntry[i])))
		eq = And(eq, Eq(now[i], c.decEntry[i]))
	}
	c.oblige(st, "decreases", name, c.contractTags(), g, "")
}

func isImmComp(comp string) bool {
	if strHasPrefix(comp, "F!") {
		s := comp[2:]
		for i := len(s) - 1; i >= 0; i-- {
			if s[i] == '!' {
				return isImmStruct(s[:i])
			}
		}
	}
	if strHasPrefix(comp, "M!") {
		return immElems[comp[2:]]
	}
	return false
}

func (c *Ctx) inModAll(st *State, l loc) *Term {
	if l.all {
		for _, m := range c.modset {
			if m.comp == l.comp && m.all {
				return tTrue
			}
		}
		return tFalse
	}
	return c.inMod(st, l.comp, l.ref)
}

func (c *Ctx) applyOutcome(st, pre *State, con *Contract, sig *types.Signature, vars map[string]SV, ls []loc, panicking bool) applyRes {
	post := st.clone()
	freshSet := map[*Term]bool{}
	fv := func(h, s string) *Term {
		v := c.freshVar(h, s)
		freshSet[v] = true
		return v
	}
	if !con.flags["pure"] && !con.flags["noalloc"] {
		n := c.freshVar("cnt", sInt)
		c.assumeRaw(Le(st.cnt, n))
		post.cnt = n
	}
	var changed []string
	for _, l := range ls {
		changed = append(changed, l.comp)
		if l.all {
			post.heap[l.comp] = fv("h."+lastSeg(l.comp), c.compSort(l.comp))
			continue
		}
		arr := c.comp(post, l.comp)
		post.heap[l.comp] = Store(arr, l.ref, fv("m."+lastSeg(l.comp), arrElemSort(arr.sort)))
	}
	env := map[string]SV{}
	for k, v := range vars {
		env[k] = v
	}
	var rs []*Term
	if panicking {
		v := fv("panicval", sIface)
		rs = []*Term{v}
		env["panicval"] = SV{v: v, t: types.NewInterfaceType(nil, nil)}
	} else if sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			v := fv("r."+con.name, sortOf(t))
			rs = append(rs, v)
			name := fmt.Sprintf("result%d", i)
			if i < len(con.results) {
				name = con.results[i].name
			}
			env[name] = SV{v: v, t: t}
			if i == 0 {
				env["result"] = SV{v: v, t: t}
			}
		}
	}
	en := &SEnv{c: c, st: post, old: pre, vars: env, where: "contract " + con.name}
	cls := con.ensures
	if panicking {
		cls = con.panics
	}
	var fs []*Term
	for _, e := range cls {
		fs = append(fs, conj(en.bool_(e.e))...)
	}
	// functional definitions
	sub := map[*Term]*Term{}
	used := map[int]bool{}
	for again := true; again; {
		again = false
		for i, f := range fs {
			if used[i] {
				continue
			}
			g := f
			if len(sub) > 0 {
				g = Subst(f, sub)
			}
			var v, d *Term
			if g.op == "=" {
				a, b := g.args[0], g.args[1]
				if freshSet[a] && sub[a] == nil && !mentions(b, freshSet) {
					v, d = a, b
				} else if freshSet[b] && sub[b] == nil && !mentions(a, freshSet) {
					v, d = b, a
				}
			} else if freshSet[g] {
				v, d = g, tTrue
			} else if g.op == "not" && freshSet[g.args[0]] {
				v, d = g.args[0], tFalse
			}
			if v != nil {
				sub[v] = d
				used[i] = true
				again = true
			}
		}
	}
	if len(sub) > 0 {
		for _, k := range changed {
			post.heap[k] = Subst(post.heap[k], sub)
		}
		for i := range rs {
			rs[i] = Subst(rs[i], sub)
		}
	}
	for i, r := range rs {
		if !isConst(r) {
			if panicking {
				c.typeFacts(post, r, types.NewInterfaceType(nil, nil))
				continue
			}
			c.typeFacts(post, r, sig.Results().At(i).Type())
		}
	}
	for i, f := range fs {
		if used[i] {
			continue
		}
		g := f
		if len(sub) > 0 {
			g = Subst(f, sub)
		}
		if g == tTrue {
			continue
		}
		c.assume(post, g)
	}
	for i, r := range rs {
		rs[i] = r
		c.markNotOwned(r)
	}
	return applyRes{post, rs}
}

// returnsRef reports whether a call may hand back a reference it was given.
func returnsRef(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return true
		}
	}
	return false
}

// markNotOwned records that values derived from the term are not owned by the current activation.
func (c *Ctx) markNotOwned(t *Term) { c.notOwned[t] = true }

// mayOwn reports whether a value may refer to an object owned by the current activation.
func (c *Ctx) mayOwn(st *State, t *Term) bool {
	if c.comp(st, "own").op == "constarr" {
		return false
	}
	for {
		if c.notOwned[t] || isConst(t) {
			return false
		}
		switch {
		case t.op == "mk!iface":
			t = t.args[1]
			continue
		case t.op == "mk!slice":
			t = t.args[0]
			continue
		case strHasPrefix(t.op, "get!"):
			t = t.args[0]
			continue
		case strHasPrefix(t.op, "pf!"):
			return false
		case t.op == "ite":
			return c.mayOwn(st, t.args[1]) || c.mayOwn(st, t.args[2])
		case t.op == "var":
			if strHasPrefix(t.name, "p!") {
				return false
			}
			if t.sort == sInt && Select(c.comp(st, "own"), t) == tFalse {
				return false
			}
			return true
		case t.op == "select":
			b := t
			for b.op == "select" || b.op == "store" {
				b = b.args[0]
			}
			if b.op == "var" {
				n := b.name
				if strHasPrefix(n, "h0!") {
					return false
				}
			}
			return true
		}
		if t.sort == sInt {
			return Select(c.comp(st, "own"), t) != tFalse
		}
		return true
	}
}

func mentions(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- publication of immutable objects ----

// publishAll publishes every object still owned in st.
func (c *Ctx) publishAll(st *State) {
	own := c.comp(st, "own")
	if own.op == "constarr" {
		return
	}
	for _, a := range st.allocs {
		c.publishRef(st, a.ref, a)
	}
	if st.ownQ {
		c.publishQuant(st)
	}
	st.heap["own"] = ConstArr(ArrSort(sInt, sBool), tFalse)
}

func (c *Ctx) publishRef(st *State, ref *Term, a allocRec) {
	g := Select(c.comp(st, "own"), ref)
	if g == tFalse {
		return
	}
	if a.strc != "" {
		si := structs[a.strc]
		c.publishStruct(st, g, si, ref)
	} else if a.elem != nil && immElems[typeName(a.elem)] {
		mc := c.elemComp(a.elem)
		arr := c.comp(st, mc)
		c.assumeRaw(Implies(And(st.pc, g), Eq(App(pfName(mc), arrElemSort(arr.sort), ref), Select(arr, ref))))
	}
}

func (c *Ctx) publishStruct(st *State, g *Term, si *structInfo, ref *Term) {
	if !isImmStruct(si.name) {
		return
	}
	for i := 0; i < si.st.NumFields(); i++ {
		if isStructT(si.st.Field(i).Type()) {
			continue
		}
		comp := c.fieldCompOf(si, i)
		arr := c.comp(st, comp)
		c.assumeRaw(Implies(And(st.pc, g), Eq(App(pfName(comp), si.fsorts[i], ref), Select(arr, ref))))
	}
}

func (c *Ctx) publishQuant(st *State) {
	own := c.comp(st, "own")
	r := BVar("pr", sInt)
	for _, name := range sortedKeys(c.eng.compSorts) {
		if !isImmComp(name) {
			continue
		}
		arr, ok := st.heap[name]
		if !ok {
			continue
		}
		p := App(pfName(name), arrElemSort(arr.sort), r)
		c.assumeRaw(Implies(st.pc, Forall([]*Term{r}, Implies(Select(own, r), Eq(p, Select(arr, r))), []*Term{p})))
	}
}

// publishArg publishes an owned object (and everything else owned) handed to other code.
func (c *Ctx) publishArg(st *State, v Val, t types.Type) {
	tm, ok := v.(*Term)
	if !ok || !mayHoldImm(t) {
		return
	}
	if c.mayOwn(st, tm) {
		c.publishAll(st)
	}
}

func mayHoldImm(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isStructT(u.Elem()) {
			return isImmStruct(typeName(u.Elem()))
		}
		return mayHoldImm(u.Elem())
	case *types.Interface:
		return true
	case *types.Slice:
		return immElems[typeName(u.Elem())] || mayHoldImm(u.Elem())
	}
	return false
}

// publishLiteral publishes a composite-literal object once its last initialising store is done.
func (c *Ctx) publishLiteral(st *State, t types.Type, ref *Term) {
	si, _ := structOf(t)
	for i := 0; i < si.st.NumFields(); i++ {
		ft := si.st.Field(i).Type()
		if !mayHoldImm(ft) {
			continue
		}
		v := Select(c.comp(st, c.fieldCompOf(si, i)), ref)
		if c.mayOwn(st, v) {
			c.publishAll(st)
			return
		}
	}
	c.publishStruct(st, Select(c.comp(st, "own"), ref), si, ref)
	st.heap["own"] = Store(c.comp(st, "own"), ref, tFalse)
}

// literalInfo: for an allocation initialised entirely in its own block, the last initialising store
// (nil when there is none); ok is false when the object is written elsewhere.
func (e *Engine) literalInfo(a *ssa.Alloc) (*ssa.Store, bool) {
	if r, ok := e.litMemo[a]; ok {
		return r.st, r.ok
	}
	r := litRes{ok: true}
	last := -1
	idx := map[ssa.Instruction]int{}
	for i, ins := range a.Block().Instrs {
		idx[ins] = i
	}
	for _, ref := range *a.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
				r.ok = false
			}
			continue
		}
		for _, u := range *fa.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr != fa || s.Block() != a.Block() {
					r.ok = false
					break
				}
				if i := idx[s]; i > last {
					last = i
					r.st = s
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				r.ok = false
			}
		}
	}
	if r.ok && lateStores(a) {
		r.ok = false
	}
	e.litMemo[a] = r
	return r.st, r.ok
}

// lateStores: does the function store into fields of such objects through a pointer it keeps in a
// variable? Then a literal is not final when its own stores are done.
func lateStores(a *ssa.Alloc) bool {
	for _, b := range a.Parent().Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(fa.X.Type(), a.Type()) {
				continue
			}
			if _, ok := fa.X.(*ssa.Alloc); !ok {
				return true
			}
		}
	}
	return false
}

// finalAt: no store into the fields of a can follow the instruction without a new allocation first.
func (e *Engine) finalAt(a *ssa.Alloc, at *ssa.MakeInterface) bool {
	if r, ok := e.finMemo[at]; ok {
		return r
	}
	stores := map[ssa.Instruction]bool{}
	ok := !lateStores(a)
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			for _, u := range *x.Referrers() {
				switch s := u.(type) {
				case *ssa.Store:
					if s.Addr != x {
						ok = false
					}
					stores[s] = true
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					ok = false
				}
			}
		case *ssa.Store:
			if x.Addr == a {
				ok = false
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(ins []ssa.Instruction, b *ssa.BasicBlock)
	visit = func(ins []ssa.Instruction, b *ssa.BasicBlock) {
		for _, i := range ins {
			if i == ssa.Instruction(a) {
				return
			}
			if stores[i] {
				ok = false
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				visit(s.Instrs, s)
			}
		}
	}
	for i, ins := range at.Block().Instrs {
		if ins == ssa.Instruction(at) {
			visit(at.Block().Instrs[i+1:], at.Block())
		}
	}
	e.finMemo[at] = ok
	return ok
}

type litRes struct {
	st *ssa.Store
	ok bool
}

// ---- builtins ----

func (c *Ctx) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon) (*State, Val) {
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := c.term(fr, st, cc.Args[0])
			if b.Name() == "cap" {
				return st, slCap(s)
			}
			return st, slLen(s)
		case *types.Basic:
			return st, strLen(c.term(fr, st, cc.Args[0]))
		case *types.Map:
			return st, c.mapLen(st, u, c.term(fr, st, cc.Args[0]))
		case *types.Array:
			return st, Int(u.Len())
		case *types.Pointer:
			return st, Int(u.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		return c.append_(fr, st, cc)
	case "copy":
		return c.copy_(fr, st, cc)
	case "recover":
		f := fr
		for f != nil && f.panicVal == nil {
			f = f.parent
		}
		if f == nil || fr.parent != f && fr != f {
			limit("recover outside of a deferred closure")
		}
		v, ok := st.cells[f.panicVal]
		if !ok {
			v = tNilIface
		}
		st.cells[f.panicVal] = tNilIface
		return st, v
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := c.term(fr, st, cc.Args[0])
		k := c.term(fr, st, cc.Args[1])
		mp, _ := c.mapRegs(mt)
		c.checkWrite(st, mp, m, false, "delete")
		st.heap[mp] = Store(c.comp(st, mp), m, Store(Select(c.comp(st, mp), m), k, tFalse))
		return st, nil
	case "ssa:wrapnilchk":
		return st, c.val(fr, st, cc.Args[0])
	case "print", "println":
		return st, nil
	}
	limit("builtin %s", b.Name())
	return nil, nil
}

// append_: exact semantics. In place when capacity suffices, otherwise a fresh array with the same contents.
func (c *Ctx) append_(fr *Frame, st *State, cc *ssa.CallCommon) (*State, Val) {
	st0 := cc.Args[0].Type().Underlying().(*types.Slice)
	el := st0.Elem()
	s := c.term(fr, st, cc.Args[0])
	mc := c.elemComp(el)
	imm := immElems[typeName(el)]
	var n *Term
	var elemAt func(i int64) *Term
	var bulk *Term
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str := c.term(fr, st, cc.Args[1])
		n = strLen(str)
		bulk = App("strbytes", ArrSort(sInt, sInt), str)
	} else {
		t := c.term(fr, st, cc.Args[1])
		n = slLen(t)
		src := c.readAt(st, mc, slRef(t), imm)
		elemAt = func(i int64) *Term { return Select(src, sliceIdx(slOff(t), Int(i))) }
		if n.op != "int" {
			bulk = App("shift", src.sort, src, slOff(t))
		}
	}
	if n == Int(0) {
		return st, s
	}
	old := c.readAt(st, mc, slRef(s), imm)
	var content *Term
	if n.op == "int" && n.n.Int64() <= 16 && elemAt != nil {
		content = old
		for i := int64(0); i < n.n.Int64(); i++ {
			content = Store(content, sliceIdx(slOff(s), Add(slLen(s), Int(i))), elemAt(i))
		}
	} else {
		content = App("copyarr!"+el.String(), old.sort, old, Add(slOff(s), slLen(s)), bulk, n)
	}
	ln := Add(slLen(s), n)
	inPlace := Le(ln, slCap(s))
	// fresh array keeps the same offset and contents (its other cells are unreachable)
	ref := c.alloc(st, "", el, imm)
	cp := c.freshVar("cap", sInt)
	c.assumeRaw(Le(ln, cp))
	nref := Ite(inPlace, slRef(s), ref)
	arr := c.comp(st, mc)
	if inPlace != tFalse {
		// write in place requires permission
		chk := st.with(inPlace)
		if imm {
			g := Select(c.comp(st, "own"), slRef(s))
			if g != tTrue {
				c.oblige(chk, "frame", "append in place "+mc, c.frameTags(), g, "append")
				c.assume(chk, g)
			}
		} else {
			c.checkWrite(chk, mc, slRef(s), false, "append")
		}
	}
	st.heap[mc] = Store(arr, nref, content)
	return st, mkSlice(nref, slOff(s), ln, Ite(inPlace, slCap(s), cp))
}

func (c *Ctx) copy_(fr *Frame, st *State, cc *ssa.CallCommon) (*State, Val) {
	d := c.term(fr, st, cc.Args[0])
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	s := c.term(fr, st, cc.Args[1])
	mc := c.elemComp(el)
	n := c.freshVar("copied", sInt)
	c.assumeRaw(Eq(n, Ite(Le(slLen(s), slLen(d)), slLen(s), slLen(d))))
	src := c.readAt(st, mc, slRef(s), false)
	dst := c.readAt(st, mc, slRef(d), false)
	nv := c.freshVar("copy.dst", dst.sort)
	// nv[i] = d.off <= i < d.off+n ? src[s.off + i - d.off] : dst[i]
	i := BVar("ci", sInt)
	in := And(Le(slOff(d), i), Lt(i, Add(slOff(d), n)))
	c.assumeRaw(Forall([]*Term{i}, Eq(Select(nv, i), Ite(in, Select(src, Add(Sub(i, slOff(d)), slOff(s))), Select(dst, i))), []*Term{mk("select", arrElemSort(nv.sort), "", nv, i)}))
	c.checkWrite(st, mc, slRef(d), false, "copy")
	st.heap[mc] = Store(c.comp(st, mc), slRef(d), nv)
	return st, n
}

// fnField is a function value kept in a field whose calls go by a contract.
type fnField struct {
	holder *Term
	con    *Contract
	cl     *Closure
}

// storedFn notes a function stored into a field with a contract: at the return, its body is checked against it.
func (c *Ctx) storedFn(fr *Frame, st *State, fa *ssa.FieldAddr, v Val) {
	si, _ := structOf(deref(fa.X.Type()))
	con := c.eng.spec.contracts[si.name+"."+si.st.Field(fa.Field).Name()]
	if con == nil || con.kind != "fieldfn" {
		return
	}
	cl, ok := v.(*Closure)
	if !ok {
		if t, ok := v.(*Term); ok && t == Int(0) {
			return
		}
		limit("function value stored in %s.%s is not known", si.name, si.st.Field(fa.Field).Name())
	}
	c.assumeRaw(Lt(Int(0), c.asTerm(st, cl, fa.Type())))
	c.fnFields = append(c.fnFields, fnField{c.term(fr, st, fa.X), con, cl})
}

// checkFnFields runs the bodies of the functions stored in fields in an arbitrary later state. What such a body
// captured is as at the return (nothing else can write it), and so is what the contract links the holder to.
func (c *Ctx) checkFnFields(rs *State) {
	for _, f := range c.fnFields {
		st := rs.clone()
		n := c.freshVar("cnt", sInt)
		c.assumeRaw(Le(rs.cnt, n))
		st.cnt, st.allocs = n, nil
		for comp := range rs.heap {
			st.heap[comp] = c.freshVar("later."+lastSeg(comp), c.compSort(comp))
		}
		for i, b := range f.cl.binds {
			fv := f.cl.fn.FreeVars[i]
			for _, ins := range *fv.Referrers() {
				if u, ok := ins.(*ssa.UnOp); !ok || u.Op != token.MUL {
					limit("function stored in a field does more than read %s", fv.Name())
				}
			}
			t := deref(fv.Type())
			if isStructT(t) {
				limit("function stored in a field captures a struct")
			}
			a := c.derefAddr(rs, b, t)
			if a.kind == aCell {
				limit("function stored in a field captures a local cell")
			}
			st.heap[a.comp] = Store(c.comp(st, a.comp), a.ref, Select(c.comp(rs, a.comp), a.ref))
		}
		vars := map[string]SV{}
		args := []Val{}
		for i, p := range f.con.params[1:] {
			t := f.cl.fn.Params[i].Type()
			v := f.holder
			if i > 0 {
				v = c.freshVar("a."+p.name, sortOf(t))
				c.typeFacts(st, v, t)
			}
			vars[p.name] = SV{v: v, t: t}
			args = append(args, v)
		}
		if len(args) != len(f.cl.fn.Params) {
			panic(specError{"contract " + f.con.name + ": wrong number of parameters"})
		}
		pre := st.clone()
		en := &SEnv{c: c, st: pre, old: pre, vars: vars, where: "contract " + f.con.name}
		if f.con.link != nil {
			was := &SEnv{c: c, st: rs, old: rs, vars: vars, where: "contract " + f.con.name}
			c.assumeRaw(Eq(en.term(f.con.link), was.term(f.con.link)))
		}
		for _, r := range f.con.requires {
			c.assume(st, en.bool_(r.e))
		}
		ms, ec := c.modset, c.entryCnt
		c.modset, c.entryCnt = nil, n
		for _, m := range f.con.modifies {
			for _, l := range en.locs(m) {
				c.modset = append(c.modset, modLoc{l.comp, l.ref, l.all})
			}
		}
		ns, _, ps := c.execFn(f.cl.fn, args, f.cl.binds, st, c.curFrame)
		for _, p := range ps {
			c.oblige(p.st, "safety", "panic in "+fnName(f.cl.fn), c.contractTags(), tFalse, "explicit panic reaches the caller")
		}
		if ns != nil {
			re := &SEnv{c: c, st: ns, old: pre, vars: vars, where: "contract " + f.con.name}
			for i, cl := range f.con.ensures {
				lab := cl.label
				if lab == "" {
					lab = fmt.Sprint(i + 1)
				}
				c.oblige(ns, "ensures", fnName(f.cl.fn)+" as "+f.con.name+":"+lab, tagsOr(cl.tags, c.contractTags()), re.bool_(cl.e), cl.src)
			}
		}
		c.modset, c.entryCnt = ms, ec
	}
}
