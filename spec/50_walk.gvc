// C12: walking.
sort Log;
ghost world.log Log;                              // all visits so far
fn ev(l Log, v Visitor, e Expr) Log;               // l, followed by a visit of e by v
fn answer(l Log, v Visitor, e Expr) Visitor;       // what that visit returned; any function of the history
assumption "visitors do not modify the tree they walk";

iface Visitor.Visit(v, expr) {
  novirt;
  requires v != nil;
  modifies world.log;
  ensures [C12] world.log == ev(old(world.log), v, expr);
  ensures [C12] result == answer(old(world.log), v, expr);
}

// A walk: one visit of the node, the children with the visitor returned, one closing visit.
def [level 1] walkE(l Log, v Visitor, e Expr) Log =
  let r = answer(l, v, e) in r == nil ? ev(l, v, e) : ev(walkKids(ev(l, v, e), r, e), r, nil);
def walkL(l Log, v Visitor, L []Expr, i int) Log = i >= len(L) ? l : walkL(walkE(l, v, L[i]), v, L, i+1);
def [level 2] walkKids(l Log, v Visitor, e Expr) Log = cond {
  is(e, *Selector) -> walkL(l, v, as(e, *Selector).Props, 0);
  is(e, *Range) -> walkE(walkE(l, v, as(e, *Range).Low), v, as(e, *Range).High);
  is(e, *ParenExpr) -> walkE(l, v, as(e, *ParenExpr).Expr);
  is(e, *BinaryExpr) -> walkE(walkE(l, v, as(e, *BinaryExpr).Left), v, as(e, *BinaryExpr).Right);
  is(e, *ArrayTyp) -> walkL(l, v, as(e, *ArrayTyp).List, 0);
  is(e, *GeometryPointTyp) -> as(e, *GeometryPointTyp).Radius == nil ? l : walkE(l, v, iface(as(e, *GeometryPointTyp).Radius));
  is(e, *GeometryLineTyp) -> as(e, *GeometryLineTyp).Margin == nil ? l : walkE(l, v, iface(as(e, *GeometryLineTyp).Margin));
  is(e, *GeometryMultiObjectTyp) -> walkL(l, v, as(e, *GeometryMultiObjectTyp).Val, 0);
  is(e, *GeometryCollectionTyp) -> walkL(l, v, as(e, *GeometryCollectionTyp).Objects, 0);
  is(e, *Assign) -> walkE(walkE(l, v, iface(as(e, *Assign).Left)), v, as(e, *Assign).Right);
  else -> l };
def walkVars(l Log, v Visitor, E [int]int, b int, n int, i int) Log =
  i >= n ? l : walkVars(walkE(l, v, iface(ty(E[b+i], *Assign))), v, E, b, n, i+1);
macro walkOpt(l, v, e) = (e == nil ? l : walkE(l, v, e));
macro walkTrg(l, v, t) = walkOpt(walkOpt(walkOpt(walkE(walkVars(l, v, elems(t.Vars), off(t.Vars), len(t.Vars), 0), v, t.When), v, t.RepeatCount), v, t.RepeatInterval), v, t.ResetAfter);
macro walkTop(l, v, e) = (let r = answer(l, v, e) in is(e, *Trigger) && r != nil ? ev(walkTrg(ev(l, v, e), r, as(e, *Trigger)), r, nil) : walkE(l, v, e));

macro wfTop(e) = (e != nil && (is(e, *Trigger) ? wfT(as(e, *Trigger)) : wf(e)));
contract Walk(v, expr) {
  tags C12 C16;
  requires v != nil && wfTop(expr);
  modifies world.log;
  decreases is(expr, *Trigger) ? 1 : 0, rank(expr);
  ensures [log C12] world.log == walkTop(old(world.log), v, expr);
  template [C12] (i int) is(expr, *Trigger) ==> let t = as(expr, *Trigger) in let r = answer(old(world.log), v, expr) in let l = ev(old(world.log), v, expr) in
    walkVars(l, r, elems(t.Vars), off(t.Vars), len(t.Vars), 0) == walkVars(world.log, r, elems(t.Vars), off(t.Vars), len(t.Vars), i);
  template [C12] (i int) is(expr, *Selector) ==> let r = answer(old(world.log), v, expr) in let l = ev(old(world.log), v, expr) in
    walkL(l, r, as(expr, *Selector).Props, 0) == walkL(world.log, r, as(expr, *Selector).Props, i);
  template [C12] (i int) is(expr, *ArrayTyp) ==> let r = answer(old(world.log), v, expr) in let l = ev(old(world.log), v, expr) in
    walkL(l, r, as(expr, *ArrayTyp).List, 0) == walkL(world.log, r, as(expr, *ArrayTyp).List, i);
  template [C12] (i int) is(expr, *GeometryMultiObjectTyp) ==> let r = answer(old(world.log), v, expr) in let l = ev(old(world.log), v, expr) in
    walkL(l, r, as(expr, *GeometryMultiObjectTyp).Val, 0) == walkL(world.log, r, as(expr, *GeometryMultiObjectTyp).Val, i);
  template [C12] (i int) is(expr, *GeometryCollectionTyp) ==> let r = answer(old(world.log), v, expr) in let l = ev(old(world.log), v, expr) in
    walkL(l, r, as(expr, *GeometryCollectionTyp).Objects, 0) == walkL(world.log, r, as(expr, *GeometryCollectionTyp).Objects, i);
}

// Visit walks with the visitor that asks f and stays itself as long as f says yes.
ghost world.calls Log;
fn callEv(l Log, f visitor, e Expr) Log;
fn callAns(l Log, f visitor, e Expr) bool;
extern visitor(f, expr) {
  modifies world.calls;
  ensures [C12] world.calls == callEv(old(world.calls), f, expr);
  ensures [C12] result == callAns(old(world.calls), f, expr);
}
contract (visitor).Visit(f, expr) {
  tags C12 C16;
  requires ref(f) != 0;
  modifies world.calls;
  ensures [call C12] world.calls == callEv(old(world.calls), f, expr);
  ensures [yes C12] callAns(old(world.calls), f, expr) ==> result == iface(ty(f, visitor), Visitor);
  ensures [no C12] !callAns(old(world.calls), f, expr) ==> result == nil;
}
contract Visit(expr, f) {
  tags C12 C16;
  requires ref(f) != 0 && wfTop(expr);
  modifies world.log;
  ensures [log C12] world.log == walkTop(old(world.log), iface(ty(f, visitor), Visitor), expr);
}
