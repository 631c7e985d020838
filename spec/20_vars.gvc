// C08: variables of a trigger.

// The first assignment with the given name among the variables i..n-1, or nil.
def lookFrom(E [int]int, o int, i int, n int, name string) int =
  i >= n ? 0 : (ty(E[o+i], *Assign).Left.Val == name ? E[o+i] : lookFrom(E, o, i+1, n, name));
macro lookupVar(t, name) = lookFrom(elems(t.Vars), off(t.Vars), 0, len(t.Vars), name);

macro varsOK(t) = forall k int :: 0 <= k && k < len(t.Vars) ==> t.Vars[k] != nil && t.Vars[k].Left != nil;
macro assigned(t, name) = exists k int :: 0 <= k && k < len(t.Vars) && t.Vars[k].Left.Val == name;

contract (*Trigger).isAssigned(t, name) {
  tags C08;
  pure;
  requires t != nil && varsOK(t);
  ensures result <==> assigned(t, name);
  template (i int) forall k int :: 0 <= k && k < i ==> t.Vars[k].Left.Val != name;
}

contract (*Trigger).findAssign(t, name) (a, err) {
  tags C08 C09;
  requires t != nil && varsOK(t);
  ensures ref(a) == lookupVar(t, name);
  ensures (err == nil) <==> (a != nil);
  ensures [some] (a != nil) <==> assigned(t, name);
  template (i int) forall k int :: 0 <= k && k < i ==> t.Vars[k].Left.Val != name;
  ensures [wf] (forall k int :: 0 <= k && k < len(t.Vars) ==> wf(iface(t.Vars[k], Expr))) && a != nil ==> wf(iface(a, Expr));
  ensures [right] a != nil && wf(iface(a, Expr)) ==> wf(a.Right);
  template (i int) lookupVar(t, name) == lookFrom(elems(t.Vars), off(t.Vars), i, len(t.Vars), name);
}

contract (*Trigger).SetVar(t, v) {
  tags C08;
  requires t != nil && varsOK(t) && v != nil && v.Left != nil;
  modifies t.Vars, elems(t.Vars);
  ensures [dup] (result != nil) <==> old(assigned(t, v.Left.Val));
  ensures [keep] result != nil ==> t.Vars == old(t.Vars);
  ensures [len] result == nil ==> len(t.Vars) == old(len(t.Vars)) + 1;
  ensures [last] result == nil ==> t.Vars[old(len(t.Vars))] == v;
  ensures [rest] forall k int {t.Vars[k]} :: 0 <= k && k < old(len(t.Vars)) ==> t.Vars[k] == old(t.Vars[k]);
  ensures [inv] varsOK(t);
  ensures [wf] wf(v.Right) ==> wf(iface(v, Expr));
  ensures [base] ref(t.Vars) == old(ref(t.Vars)) || fresh(t.Vars);
}
