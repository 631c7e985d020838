// Well-formed syntax trees: no missing operands, calendar values that have a name, finite height.
fn rank(e Expr) int;
axiom rank_nonneg(e Expr) {rank(e)}: rank(e) >= 0;

// Assumed: trees are finite. A node is built after its operands and is not changed afterwards.
axiom rank_binary_left(e Expr) {rank(e), rank(as(e, *BinaryExpr).Left)}: is(e, *BinaryExpr) && pay(e) != 0 ==> rank(as(e, *BinaryExpr).Left) < rank(e);
axiom rank_binary_right(e Expr) {rank(e), rank(as(e, *BinaryExpr).Right)}: is(e, *BinaryExpr) && pay(e) != 0 ==> rank(as(e, *BinaryExpr).Right) < rank(e);
axiom rank_paren(e Expr) {rank(e), rank(as(e, *ParenExpr).Expr)}: is(e, *ParenExpr) && pay(e) != 0 ==> rank(as(e, *ParenExpr).Expr) < rank(e);
axiom rank_low(e Expr) {rank(e), rank(as(e, *Range).Low)}: is(e, *Range) && pay(e) != 0 ==> rank(as(e, *Range).Low) < rank(e);
axiom rank_high(e Expr) {rank(e), rank(as(e, *Range).High)}: is(e, *Range) && pay(e) != 0 ==> rank(as(e, *Range).High) < rank(e);
axiom rank_name(e Expr) {rank(e), rank(iface(as(e, *Assign).Left))}: is(e, *Assign) && pay(e) != 0 ==> rank(iface(as(e, *Assign).Left)) < rank(e);
axiom rank_value(e Expr) {rank(e), rank(as(e, *Assign).Right)}: is(e, *Assign) && pay(e) != 0 ==> rank(as(e, *Assign).Right) < rank(e);
axiom rank_list(e Expr, k int) {rank(e), rank(as(e, *ArrayTyp).List[k])}: is(e, *ArrayTyp) && pay(e) != 0 && 0 <= k && k < len(as(e, *ArrayTyp).List) ==> rank(as(e, *ArrayTyp).List[k]) < rank(e);
axiom rank_props(e Expr, k int) {rank(e), rank(as(e, *Selector).Props[k])}: is(e, *Selector) && pay(e) != 0 && 0 <= k && k < len(as(e, *Selector).Props) ==> rank(as(e, *Selector).Props[k]) < rank(e);
axiom rank_multi(e Expr, k int) {rank(e), rank(as(e, *GeometryMultiObjectTyp).Val[k])}: is(e, *GeometryMultiObjectTyp) && pay(e) != 0 && 0 <= k && k < len(as(e, *GeometryMultiObjectTyp).Val) ==> rank(as(e, *GeometryMultiObjectTyp).Val[k]) < rank(e);
axiom rank_coll(e Expr, k int) {rank(e), rank(as(e, *GeometryCollectionTyp).Objects[k])}: is(e, *GeometryCollectionTyp) && pay(e) != 0 && 0 <= k && k < len(as(e, *GeometryCollectionTyp).Objects) ==> rank(as(e, *GeometryCollectionTyp).Objects[k]) < rank(e);
axiom rank_radius(e Expr) {rank(e), rank(iface(as(e, *GeometryPointTyp).Radius))}: is(e, *GeometryPointTyp) && pay(e) != 0 ==> rank(iface(as(e, *GeometryPointTyp).Radius)) < rank(e);
axiom rank_margin(e Expr) {rank(e), rank(iface(as(e, *GeometryLineTyp).Margin))}: is(e, *GeometryLineTyp) && pay(e) != 0 ==> rank(iface(as(e, *GeometryLineTyp).Margin)) < rank(e);

def [level 2] wf(e Expr) bool = e != nil && pay(e) != 0 && cond {
  is(e, *BinaryExpr) -> isOp(as(e, *BinaryExpr).Op) && wf(as(e, *BinaryExpr).Left) && wf(as(e, *BinaryExpr).Right);
  is(e, *ParenExpr) -> wf(as(e, *ParenExpr).Expr);
  is(e, *Range) -> wf(as(e, *Range).Low) && wf(as(e, *Range).High);
  is(e, *Assign) -> as(e, *Assign).Left != nil && wf(as(e, *Assign).Right);
  is(e, *ArrayTyp) -> wfList(as(e, *ArrayTyp).List);
  is(e, *Selector) -> wfList(as(e, *Selector).Props);
  is(e, *GeometryMultiObjectTyp) -> wfList(as(e, *GeometryMultiObjectTyp).Val);
  is(e, *GeometryCollectionTyp) -> wfList(as(e, *GeometryCollectionTyp).Objects);
  is(e, *WeekdayTyp) -> 0 <= as(e, *WeekdayTyp).Val && as(e, *WeekdayTyp).Val < 7;
  is(e, *MonthTyp) -> 1 <= as(e, *MonthTyp).Val && as(e, *MonthTyp).Val <= 12;
  is(e, *Trigger) -> false; // a statement is no operand
  else -> true };

macro wfList(L) = forall k int :: 0 <= k && k < len(L) ==> wf(L[k]);
// a consequence of the definition, stated for terms the solver introduces
axiom wf_nonnil(e Expr) {wf(e)}: wf(e) ==> e != nil && pay(e) != 0 && !is(e, *Trigger);

iface Expr.Pos(e) { recviface; tags C01; pure; requires wf(e) || (is(e, *Trigger) && pay(e) != 0); decreases rank(e); }
iface Expr.End(e) { recviface; tags C01; pure; requires wf(e) || (is(e, *Trigger) && pay(e) != 0); decreases rank(e); }
