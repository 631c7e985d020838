// C10, C11: formatting.
sort Out;
ghost io.StringWriter.out Out;   // everything handed to the writer so far
ghost io.StringWriter.err error; // the first error returned by the writer
frozen shortDayNames, shortMonthNames;

fn fmtFloat(v flt) string;
fn itoa(n int) string;
fn durText(d int) string;
extern strconv.FormatFloat(f, fm, prec, bits) { ensures fm == 102 && prec == -1 && bits == 64 ==> result == fmtFloat(f); }
extern strconv.Itoa(i) { ensures result == itoa(i); }
extern (time.Duration).String(d) { ensures result == durText(d); }

iface io.StringWriter.WriteString(w, s) (n, err) {
  novirt;
  requires [C11] w.err == nil;
  modifies w.out, w.err;
  ensures [C10 C11] w.out == app(old(w.out), s);
  ensures w.err == err;
  ensures is(w, *bytes.Buffer) ==> err == nil;
}

def d2(n int) string = n < 10 ? "0" + itoa(n) : itoa(n);
contract d2s(n) { tags C10; pure; ensures [C10] result == d2(n); }

// ---- the text of operators, units, signs, names ----
def opText(op Token) string = cond {
  op == OR -> "or"; op == AND -> "and"; op == LSS -> "<"; op == LEQ -> "<="; op == GTR -> ">"; op == GEQ -> ">=";
  op == EQL -> "eq"; op == LEQL -> "=="; op == NOT_EQ -> "not eq"; op == LNEQ -> "!="; op == IN -> "in"; op == NOT_IN -> "not in";
  op == INTERSECTS -> "intersects"; op == NOT_INTERSECTS -> "not intersects"; op == NEARBY -> "nearby"; op == NOT_NEARBY -> "not nearby";
  op == ADD -> "+"; op == SUB -> "-"; op == MUL -> "*"; op == QUO -> "/"; op == REM -> "rem"; else -> "" };
def isOp(op Token) bool = opText(op) != "";

contract KeywordString(id) { tags C03 C10; pure; ensures isOp(id) ==> result == opText(id); ensures id == RANGE ==> result == "range"; }

def dayText(d int) string = cond { d == 0 -> "Sun"; d == 1 -> "Mon"; d == 2 -> "Tue"; d == 3 -> "Wed"; d == 4 -> "Thu"; d == 5 -> "Fri"; else -> "Sat" };
def monthText(m int) string = cond { m == 1 -> "Jan"; m == 2 -> "Feb"; m == 3 -> "Mar"; m == 4 -> "Apr"; m == 5 -> "May"; m == 6 -> "Jun";
  m == 7 -> "Jul"; m == 8 -> "Aug"; m == 9 -> "Sep"; m == 10 -> "Oct"; m == 11 -> "Nov"; else -> "Dec" };

// The total length of a finite set of strings, and the k-th string of the set in sorted order.
fn sumLen(S [string]bool) int;
fn sortedKey(S [string]bool, k int) string;
axiom sumLen_empty(): sumLen(constarr("[string]bool", false)) == 0;
axiom sumLen_add(S [string]bool, k string) {sumLen(store(S, k, true))}: !S[k] ==> sumLen(store(S, k, true)) == sumLen(S) + len(k);

extern sort.Strings(x) {
  modifies elems(x);
  // the sorted form of an enumeration of a set without repetition
  ensures forall S [string]bool :: card(S) == len(x)
      && (forall i int :: 0 <= i && i < len(x) ==> S[old(x[i])])
      && (forall i int, j int :: 0 <= i && i < j && j < len(x) ==> old(x[i]) != old(x[j]))
      ==> (forall i int :: 0 <= i && i < len(x) ==> x[i] == sortedKey(S, i));
}

// ---- the text of a list of nodes ----
def fmtList(M [int][string]bool, o Out, L []Expr, i int, pad string, inl bool) Out =
  i >= len(L) ? o : fmtList(M, fmtE(M, o, L[i], pad, inl) + (i+1 < len(L) ? ", " : ""), L, i+1, pad, inl);
def fmtObjs(M [int][string]bool, o Out, L []Expr, i int, pad string, inl bool) Out =
  i >= len(L) ? o : fmtObjs(M, fmtE(M, inl ? o : o + "\n" + pad, L[i], pad, inl) + (i+1 < len(L) ? ", " : ""), L, i+1, pad, inl);
// points, five to a line
def fmtLine(o Out, P [][2]float64, i int, pad2 string) Out =
  i >= len(P) ? o :
  let p = o + "[" + fmtFloat(P[i][0]) + ", " + fmtFloat(P[i][1]) + "]" + (i+1 < len(P) ? ", " : "") in
  i % 5 == 4 ? fmtLine(i+2 < len(P) ? p + "\n" + pad2 : p + "\n", P, i+1, pad2) : fmtLine(p, P, i+1, pad2);
// rings; b counts the points since the last line break
def fmtRings(o Out, R [][][2]float64, i int, b int, x bool, pad2 string, pad3 string) Out =
  i >= len(R) ? o : fmtRing(x ? o + "\n" + pad2 + "[" + "\n" + pad3 : o + "[", R, i, 0, b, x, pad2, pad3);
def fmtRing(o Out, R [][][2]float64, i int, j int, b int, x bool, pad2 string, pad3 string) Out =
  j >= len(R[i]) ? fmtRings((x ? o + "\n" + pad2 : o) + "]" + (i+1 < len(R) ? ", " : ""), R, i+1, b, x, pad2, pad3) :
  let p = o + "[" + fmtFloat(R[i][j][0]) + ", " + fmtFloat(R[i][j][1]) + "]" + (j+1 < len(R[i]) ? ", " : "") in
  b > 3 ? fmtRing(p + "\n" + pad3, R, i, j+1, 0, x, pad2, pad3) : fmtRing(p, R, i, j+1, b+1, x, pad2, pad3);
// device ids in sorted order
def fmtArgs(o Out, S [string]bool, i int, x bool, pad2 string) Out =
  i >= card(S) ? o : fmtArgs((x ? o + "\n" + pad2 : o) + "\"" + sortedKey(S, i) + "\"" + (i+1 < card(S) ? ", " : ""), S, i+1, x, pad2);

macro isCal(e) = is(e, *TimeTyp) || is(e, *MonthTyp) || is(e, *DateTyp) || is(e, *WeekdayTyp);
def fmtVal(o Out, v flt, u Unit) Out = o + fmtFloat(v) + unitText(u);
macro fmtDist(o, d) = d == nil ? o : o + ":" + fmtFloat(d.Val) + unitText(d.U);
macro keysOf(M, m) = (ref(m) == 0 ? constarr("[string]bool", false) : M[ref(m)]);

def fmtSel(M [int][string]bool, o Out, e *Selector, pad string, inl bool) Out =
  let S = keysOf(M, e.Args) in
  let x = !inl && sumLen(S) > 64 in
  let a = card(S) > 0 ? (let b = fmtArgs(o + e.Ident + "{" + (e.Wildcard ? "*, " : ""), S, 0, x, pad + "\t") in (x ? b + "\n" + pad : b) + "}") : o + e.Ident in
  len(e.Props) > 0 ? fmtList(M, a + ":", e.Props, 0, pad, inl) : a;

def fmtTime(o Out, e *TimeTyp) Out =
  let p = o + (e.U == AM || e.U == PM ? itoa(e.Hours) : d2(e.Hours)) + ":" + d2(e.Minutes) in
  let q = e.Seconds > 0 ? p + ":" + d2(e.Seconds) : p in
  e.U == AM || e.U == PM ? q + unitText(e.U) : q;
// a calendar value alone, as it stands in the brackets of its type
macro fmtDay(o, e) = o + dayText(as(e, *WeekdayTyp).Val);
macro fmtMonth(o, e) = o + monthText(as(e, *MonthTyp).Val);
macro fmtDate(o, e) = o + d2(as(e, *DateTyp).Year) + "-" + d2(as(e, *DateTyp).Month) + "-" + d2(as(e, *DateTyp).Day);
// an element of a calendar list or range
macro fmtItem(M, o, e, pad) = cond { is(e, *WeekdayTyp) -> fmtDay(o, e); is(e, *MonthTyp) -> fmtMonth(o, e); is(e, *DateTyp) -> fmtDate(o, e);
  is(e, *TimeTyp) -> fmtTime(o, as(e, *TimeTyp)); else -> fmtE(M, o, e, pad, true) };
def fmtItems(M [int][string]bool, o Out, L []Expr, i int, pad string) Out =
  i >= len(L) ? o : fmtItems(M, fmtItem(M, o, L[i], pad) + (i+1 < len(L) ? ", " : ""), L, i+1, pad);

macro calWord(e) = cond { is(e, *TimeTyp) -> "time["; is(e, *MonthTyp) -> "month["; is(e, *DateTyp) -> "date["; is(e, *WeekdayTyp) -> "weekday["; else -> "" };
macro kindWord(k) = cond { k == TIME -> "time"; k == MONTH -> "month"; k == DATE -> "date"; k == WEEKDAY -> "weekday"; else -> "" };

macro multiWord(k) = cond { k == GEOMETRY_MULTIPOINT -> "multipoint["; k == GEOMETRY_MULTILINE -> "multiline["; k == GEOMETRY_MULTIPOLYGON -> "multipolygon["; else -> "" };

// The text of a node, appended to o.
def [ctor 2] fmtE(M [int][string]bool, o Out, e Expr, pad string, inl bool) Out = cond {
  is(e, *BooleanTyp) -> o + (as(e, *BooleanTyp).Val ? "true" : "false");
  is(e, *IntTyp) -> o + itoa(as(e, *IntTyp).Val);
  is(e, *FloatTyp) -> o + fmtFloat(as(e, *FloatTyp).Val);
  is(e, *PercentTyp) -> o + fmtFloat(as(e, *PercentTyp).Val) + "%";
  is(e, *StringTyp) -> o + "\"" + as(e, *StringTyp).Val + "\"";
  is(e, *DurationTyp) -> o + durText(as(e, *DurationTyp).Val);
  is(e, *SpeedTyp) -> fmtVal(o, as(e, *SpeedTyp).Val, as(e, *SpeedTyp).U);
  is(e, *DistanceTyp) -> fmtVal(o, as(e, *DistanceTyp).Val, as(e, *DistanceTyp).U);
  is(e, *PressureTyp) -> fmtVal(o, as(e, *PressureTyp).Val, as(e, *PressureTyp).U);
  is(e, *TemperatureTyp) -> fmtVal(o + (as(e, *TemperatureTyp).Vec == Plus ? "+" : as(e, *TemperatureTyp).Vec == Minus ? "-" : ""),
      as(e, *TemperatureTyp).Val, as(e, *TemperatureTyp).U);
  is(e, *WildcardTyp) -> o + "*";
  is(e, *Ref) -> o + "@" + as(e, *Ref).ID;
  is(e, *Ident) -> o + as(e, *Ident).Val;
  is(e, *WeekdayTyp) -> fmtDay(o + "weekday[", e) + "]";
  is(e, *MonthTyp) -> fmtMonth(o + "month[", e) + "]";
  is(e, *DateTyp) -> fmtDate(o + "date[", e) + "]";
  is(e, *TimeTyp) -> fmtTime(o + "time[", as(e, *TimeTyp)) + "]";
  is(e, *Range) -> let low = as(e, *Range).Low in
      isCal(low) ? fmtItem(M, fmtItem(M, o + calWord(low), low, pad) + " .. ", as(e, *Range).High, pad) + "]"
        : fmtE(M, fmtE(M, o, low, pad, inl) + " .. ", as(e, *Range).High, pad, inl);
  is(e, *ArrayTyp) -> let w = kindWord(as(e, *ArrayTyp).Kind) in
      (w != "" ? fmtItems(M, o + w + "[", as(e, *ArrayTyp).List, 0, pad) : fmtList(M, o + "[", as(e, *ArrayTyp).List, 0, pad, inl)) + "]";
  is(e, *Selector) -> fmtSel(M, o, as(e, *Selector), pad, inl);
  is(e, *GeometryPointTyp) -> let p = as(e, *GeometryPointTyp) in let q = o + "point[" + fmtFloat(p.Val[0]) + ", " + fmtFloat(p.Val[1]) + "]" in fmtDist(q, p.Radius);
  is(e, *GeometryLineTyp) -> let p = as(e, *GeometryLineTyp) in let x = !inl && len(p.Val) > 4 in
      let q = fmtLine(x ? o + "line[" + "\n" + pad + pad : o + "line[", p.Val, 0, pad + pad) in
      let r = (x ? (len(p.Val) % 5 > 0 ? q + "\n" : q) + pad : q) + "]" in fmtDist(r, p.Margin);
  is(e, *GeometryPolygonTyp) -> let p = as(e, *GeometryPolygonTyp) in let x = !inl && bigRing(p.Val, 0) in
      let q = fmtRings(o + "polygon[", p.Val, 0, 0, x, pad + pad, pad + pad + pad) in
      (x ? q + "\n" + pad : q) + "]";
  is(e, *GeometryMultiObjectTyp) -> let p = as(e, *GeometryMultiObjectTyp) in
      fmtObjs(M, o + multiWord(p.Kind),
        p.Val, 0, pad, inl) + "]";
  is(e, *GeometryCollectionTyp) -> fmtObjs(M, o + "collection[", as(e, *GeometryCollectionTyp).Objects, 0, pad, inl) + "]";
  is(e, *BinaryExpr) -> let b = as(e, *BinaryExpr) in let l = fmtE(M, o, b.Left, pad, inl) in
      let t = opText(b.Op) in
      fmtE(M, cond {
        b.Op == ADD || b.Op == SUB || b.Op == MUL || b.Op == QUO -> l + t;
        b.Op == AND || b.Op == OR -> l + " \n" + pad + t + " ";
        else -> l + " " + t + " " }, b.Right, pad, inl);
  is(e, *ParenExpr) -> let n = as(e, *ParenExpr).Expr in
      let flat = is(n, *BinaryExpr) && !is(as(n, *BinaryExpr).Left, *BinaryExpr) && !is(as(n, *BinaryExpr).Right, *BinaryExpr) in
      let p = fmtE(M, flat ? o + "(" : o + "(\n" + pad + pad, n, pad + pad, inl) in
      (flat ? p : p + "\n" + pad) + ")";
  is(e, *Assign) -> fmtE(M, o + pad + as(e, *Assign).Left.Val + " = ", as(e, *Assign).Right, pad, inl) + ";";
  else -> o };

// Some ring from i on has more than four points.
def bigRing(R [][][2]float64, i int) bool = i < len(R) && (len(R[i]) > 4 || bigRing(R, i+1));
contract (*GeometryPolygonTyp).needExpand(e) { tags C10; pure; requires e != nil; ensures [C10] result <==> bigRing(e.Val, 0);
  template [C10] (i int) bigRing(e.Val, 0) <==> bigRing(e.Val, i); }
contract (*Selector).needExpand(e) { tags C10; pure; requires e != nil;
  ensures [C10] result <==> sumLen(keysOf(maps("map[string]struct{}"), e.Args)) > 64;
  template [C10] (n int) n == sumLen(visited()); }

macro MM() = maps("map[string]struct{}");
iface Expr.format(e, w, padding, inline) {
  recviface;
  tags C10 C11 C16;
  requires wf(e) && w != nil;
  requires [C11] w.err == nil;
  modifies w.out, w.err;
  decreases rank(e);
  ensures [ok C11] w.err == nil;
  ensures [text C10] w.out == fmtE(MM(), old(w.out), e, padding, inline);
  panics [werr] panicval == w.err && w.err != nil && is(panicval, error) && !is(w, *bytes.Buffer);
  template [C11] () w.err == nil;
  template [C10] (i int) is(e, *ArrayTyp) ==>
    let a = as(e, *ArrayTyp) in let k = kindWord(a.Kind) in
    k == "" ==> fmtList(MM(), old(w.out) + "[", a.List, 0, padding, inline) == fmtList(MM(), w.out, a.List, i, padding, inline);
  // the separator written in front of the next item
  template [C10] (i int) is(e, *ArrayTyp) ==>
    let a = as(e, *ArrayTyp) in let k = kindWord(a.Kind) in
    k == "" ==> fmtList(MM(), old(w.out) + "[", a.List, 0, padding, inline) == fmtList(MM(), i > 0 && i < len(a.List) ? w.out + ", " : w.out, a.List, i, padding, inline);
  template [C10] (i int) is(e, *ArrayTyp) ==>
    let a = as(e, *ArrayTyp) in let k = kindWord(a.Kind) in
    k != "" ==> fmtItems(MM(), old(w.out) + k + "[", a.List, 0, padding) == fmtItems(MM(), i > 0 && i < len(a.List) ? w.out + ", " : w.out, a.List, i, padding);
  template [C10] (i int) is(e, *Selector) ==>
    let a = as(e, *Selector) in fmtSel(MM(), old(w.out), a, padding, inline) == fmtList(MM(), i > 0 && i < len(a.Props) ? w.out + ", " : w.out, a.Props, i, padding, inline);
  template [C10] (i int, ids []string) is(e, *Selector) ==>
    let a = as(e, *Selector) in let S = keysOf(MM(), a.Args) in let x = !inline && sumLen(S) > 64 in
    fmtArgs(old(w.out) + a.Ident + "{" + (a.Wildcard ? "*, " : ""), S, 0, x, padding + "\t") == fmtArgs(i > 0 && i < card(S) ? w.out + ", " : w.out, S, i, x, padding + "\t");
  template [C10] (i int) is(e, *GeometryMultiObjectTyp) ==>
    let a = as(e, *GeometryMultiObjectTyp) in
    fmtObjs(MM(), old(w.out) + multiWord(a.Kind), a.Val, 0, padding, inline) == fmtObjs(MM(), i > 0 && i < len(a.Val) ? w.out + ", " : w.out, a.Val, i, padding, inline);
  template [C10] (i int) is(e, *GeometryCollectionTyp) ==>
    let a = as(e, *GeometryCollectionTyp) in
    fmtObjs(MM(), old(w.out) + "collection[", a.Objects, 0, padding, inline) == fmtObjs(MM(), i > 0 && i < len(a.Objects) ? w.out + ", " : w.out, a.Objects, i, padding, inline);
  template [C10] (i int, x string) i == 0 ? x == "" : x == ", ";
  template [C10] (i int, b bool) b <==> i == 0;
  template [C10] (i int, b bool) b <==> i > 0;
  template [C10] (i int) is(e, *ArrayTyp) ==>
    let a = as(e, *ArrayTyp) in let k = kindWord(a.Kind) in
    k != "" ==> fmtItems(MM(), old(w.out) + k + "[", a.List, 0, padding) == fmtItems(MM(), w.out, a.List, i, padding);
  template [C10] (i int) is(e, *Selector) ==>
    let a = as(e, *Selector) in fmtSel(MM(), old(w.out), a, padding, inline) == fmtList(MM(), w.out, a.Props, i, padding, inline);
  template [C10] (i int, ids []string) is(e, *Selector) ==>
    let a = as(e, *Selector) in let S = keysOf(MM(), a.Args) in let x = !inline && sumLen(S) > 64 in
    fmtArgs(old(w.out) + a.Ident + "{" + (a.Wildcard ? "*, " : ""), S, 0, x, padding + "\t") == fmtArgs(w.out, S, i, x, padding + "\t");
  template [C10] (ids []string) is(e, *Selector) ==> len(ids) == card(visited());
  template [C10] (ids []string) is(e, *Selector) ==> forall k int :: 0 <= k && k < len(ids) ==> visited()[ids[k]];
  template [C10] (ids []string) is(e, *Selector) ==> forall k int, m int :: 0 <= k && k < m && m < len(ids) ==> ids[k] != ids[m];
  template (ids []string) is(e, *Selector) ==> own(ids);
  template [C10] (i int) is(e, *GeometryMultiObjectTyp) ==>
    let a = as(e, *GeometryMultiObjectTyp) in
    fmtObjs(MM(), old(w.out) + multiWord(a.Kind), a.Val, 0, padding, inline) == fmtObjs(MM(), w.out, a.Val, i, padding, inline);
  template [C10] (i int) is(e, *GeometryCollectionTyp) ==>
    let a = as(e, *GeometryCollectionTyp) in
    fmtObjs(MM(), old(w.out) + "collection[", a.Objects, 0, padding, inline) == fmtObjs(MM(), w.out, a.Objects, i, padding, inline);
  template [C10] (i int) is(e, *GeometryLineTyp) ==>
    let a = as(e, *GeometryLineTyp) in let x = !inline && len(a.Val) > 4 in
    fmtLine(x ? old(w.out) + "line[" + "\n" + padding + padding : old(w.out) + "line[", a.Val, 0, padding + padding) == fmtLine(w.out, a.Val, i, padding + padding);
  template [C10] (i int, b int) is(e, *GeometryLineTyp) ==> b == i % 5;
  template [C10] (b int) is(e, *GeometryPolygonTyp) ==> 0 <= b;
  template [C10] (i int, b int) is(e, *GeometryPolygonTyp) ==>
    let a = as(e, *GeometryPolygonTyp) in let x = !inline && bigRing(a.Val, 0) in
    fmtRings(old(w.out) + "polygon[", a.Val, 0, 0, x, padding + padding, padding + padding + padding)
      == fmtRings(w.out, a.Val, i, b, x, padding + padding, padding + padding + padding);
  template [C10] (i int, j int, b int) is(e, *GeometryPolygonTyp) ==>
    let a = as(e, *GeometryPolygonTyp) in let x = !inline && bigRing(a.Val, 0) in
    fmtRings(old(w.out) + "polygon[", a.Val, 0, 0, x, padding + padding, padding + padding + padding)
      == fmtRing(w.out, a.Val, i, j, b, x, padding + padding, padding + padding + padding);
}

// ---- whole statements ----
macro wfT(t) = t != nil && wf(t.When) && (forall k int :: 0 <= k && k < len(t.Vars) ==> t.Vars[k] != nil && wf(iface(t.Vars[k])))
  && (t.RepeatCount != nil ==> wf(t.RepeatCount)) && (t.RepeatInterval != nil ==> wf(t.RepeatInterval)) && (t.ResetAfter != nil ==> wf(t.ResetAfter));

def fmtVars(M [int][string]bool, o Out, E [int]int, b int, n int, i int) Out =
  i >= n ? o : fmtVars(M, fmtE(M, o, iface(ty(E[b+i], *Assign)), "\t", false) + "\n", E, b, n, i+1);
macro fmtHead(M, o, t) = (len(t.Vars) > 0 ? fmtVars(M, o + "TRIGGER" + "\n" + "SET" + "\n", elems(t.Vars), off(t.Vars), len(t.Vars), 0) : o + "TRIGGER" + "\n");
macro fmtCond(M, o, t) = fmtE(M, o + "WHEN\n" + "\t", t.When, "\t", true) + "\n";
macro fmtCount(M, o, t) = (t.RepeatCount != nil ? fmtE(M, o, t.RepeatCount, "\t", true) : o);
macro fmtEvery(M, o, t) = (t.RepeatInterval != nil ? fmtE(M, o + " every ", t.RepeatInterval, "\t", true) : o);
macro fmtRepeat(M, o, t) = (t.RepeatCount != nil || t.RepeatInterval != nil ? fmtEvery(M, fmtCount(M, o + "REPEAT ", t), t) + "\n" : o);
macro fmtReset(M, o, t) = (t.ResetAfter != nil ? fmtE(M, o + "RESET after ", t.ResetAfter, "\t", true) : o);
macro fmtT(M, o, t) = fmtReset(M, fmtRepeat(M, fmtCond(M, fmtHead(M, o, t), t), t), t);

contract formatTriggerStmt(t, w) (err) {
  tags C10 C11 C16;
  requires wfT(t) && w != nil;
  requires [C11] w.err == nil;
  modifies w.out, w.err;
  ensures [err C11] err == w.err;
  ensures [buffer] is(w, *bytes.Buffer) ==> err == nil;
  ensures [text C10] err == nil ==> w.out == fmtT(MM(), old(w.out), t);
  template [C11] () w.err == nil;
  template [C10] (i int) fmtVars(MM(), old(w.out) + "TRIGGER" + "\n" + "SET" + "\n", elems(t.Vars), off(t.Vars), len(t.Vars), 0) == fmtVars(MM(), w.out, elems(t.Vars), off(t.Vars), len(t.Vars), i);
}
contract Format(w, stmt) (err) {
  tags C10 C11 C16;
  requires [C11] w.err == nil;
  requires w != nil && (is(stmt, *Trigger) ==> wfT(as(stmt, *Trigger)));
  modifies w.out, w.err;
  ensures [err C11] is(stmt, *Trigger) ==> err == w.err;
  ensures [text C10] is(stmt, *Trigger) && err == nil ==> w.out == fmtT(MM(), old(w.out), as(stmt, *Trigger));
  ensures [other C10] !is(stmt, *Trigger) ==> err != nil && w.out == old(w.out) && w.err == old(w.err);
}
// a statement is never an operand; asked to write itself as one it writes nothing
contract (*Trigger).format(t, w, padding, inline) { tags C10 C11 C16; requires t != nil; ensures w.out == old(w.out); }
