// C09: type checking.
frozen rules, opFloat, opInt, opString, opBoolean, opArrayFloat, opArrayInt, opArrayString;

// A condition is checked against the dictionary (K: its names, V: their types) and the definitions E[o..o+n-1].
def tInt(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *IntTyp) -> true;
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (is(ty(a, *Assign).Right, *IntTyp));
  is(e, *Selector) -> let k = as(e, *Selector).Ident in K[k] && (V[k] == Int || V[k] == ArrayInt);
  else -> false };
def tFloat(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *FloatTyp) || is(e, *PercentTyp) || is(e, *PressureTyp) || is(e, *DistanceTyp) || is(e, *SpeedTyp) || is(e, *TemperatureTyp) -> true;
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (is(ty(a, *Assign).Right, *FloatTyp) || is(ty(a, *Assign).Right, *PercentTyp) || is(ty(a, *Assign).Right, *PressureTyp) || is(ty(a, *Assign).Right, *DistanceTyp) || is(ty(a, *Assign).Right, *SpeedTyp) || is(ty(a, *Assign).Right, *TemperatureTyp));
  is(e, *Selector) -> let k = as(e, *Selector).Ident in K[k] && (V[k] == Float || V[k] == ArrayFloat);
  else -> false };
def tString(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *StringTyp) -> true;
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (is(ty(a, *Assign).Right, *StringTyp));
  is(e, *Selector) -> let k = as(e, *Selector).Ident in K[k] && (V[k] == String || V[k] == ArrayString);
  else -> false };
def tBool(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *BooleanTyp) -> true;
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (is(ty(a, *Assign).Right, *BooleanTyp));
  is(e, *Selector) -> let k = as(e, *Selector).Ident in K[k] && (V[k] == Boolean);
  else -> false };
def tGeo(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *GeometryCollectionTyp) || is(e, *GeometryLineTyp) || is(e, *GeometryPointTyp) || is(e, *GeometryPolygonTyp) || is(e, *GeometryMultiObjectTyp) -> true;
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (is(ty(a, *Assign).Right, *GeometryCollectionTyp) || is(ty(a, *Assign).Right, *GeometryLineTyp) || is(ty(a, *Assign).Right, *GeometryPointTyp) || is(ty(a, *Assign).Right, *GeometryPolygonTyp) || is(ty(a, *Assign).Right, *GeometryMultiObjectTyp));
  else -> false };
def tArrInt(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *ArrayTyp) -> len(as(e, *ArrayTyp).List) > 0 && tInt(K, V, E, o, n, as(e, *ArrayTyp).List[0]);
  is(e, *Selector) -> tInt(K, V, E, o, n, e);
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (let r = ty(a, *Assign).Right in
      is(r, *ArrayTyp) && len(as(r, *ArrayTyp).List) > 0 && tInt(K, V, E, o, n, as(r, *ArrayTyp).List[0]));
  else -> false };
def tArrFloat(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *ArrayTyp) -> len(as(e, *ArrayTyp).List) > 0 && tFloat(K, V, E, o, n, as(e, *ArrayTyp).List[0]);
  is(e, *Selector) -> tFloat(K, V, E, o, n, e);
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (let r = ty(a, *Assign).Right in
      is(r, *ArrayTyp) && len(as(r, *ArrayTyp).List) > 0 && tFloat(K, V, E, o, n, as(r, *ArrayTyp).List[0]));
  else -> false };
def tArrString(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *ArrayTyp) -> len(as(e, *ArrayTyp).List) > 0 && tString(K, V, E, o, n, as(e, *ArrayTyp).List[0]);
  is(e, *Selector) -> tString(K, V, E, o, n, e);
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (let r = ty(a, *Assign).Right in
      is(r, *ArrayTyp) && len(as(r, *ArrayTyp).List) > 0 && tString(K, V, E, o, n, as(r, *ArrayTyp).List[0]));
  else -> false };
def tArrBool(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *ArrayTyp) -> len(as(e, *ArrayTyp).List) > 0 && tBool(K, V, E, o, n, as(e, *ArrayTyp).List[0]);
  is(e, *Selector) -> tBool(K, V, E, o, n, e);
  is(e, *Ref) -> let a = lookFrom(E, o, 0, n, as(e, *Ref).ID) in a != 0 && (let r = ty(a, *Assign).Right in
      is(r, *ArrayTyp) && len(as(r, *ArrayTyp).List) > 0 && tBool(K, V, E, o, n, as(r, *ArrayTyp).List[0]));
  else -> false };
def tRangeInt(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = is(e, *Range) && tInt(K, V, E, o, n, as(e, *Range).Low);
def tRangeFloat(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = is(e, *Range) && tFloat(K, V, E, o, n, as(e, *Range).Low);
def tRangeString(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = is(e, *Range) && tString(K, V, E, o, n, as(e, *Range).Low);

// e belongs to class c
def has(K [string]bool, V [string]int, E [int]int, o int, n int, c int, e Expr) bool = cond {
  c == isInt -> tInt(K, V, E, o, n, e); c == isFloat -> tFloat(K, V, E, o, n, e); c == isString -> tString(K, V, E, o, n, e); c == isBoolean -> tBool(K, V, E, o, n, e);
  c == isGeometry -> tGeo(K, V, E, o, n, e); c == isArrayInt -> tArrInt(K, V, E, o, n, e); c == isArrayFloat -> tArrFloat(K, V, E, o, n, e);
  c == isArrayString -> tArrString(K, V, E, o, n, e); c == isRangeInt -> tRangeInt(K, V, E, o, n, e); c == isRangeFloat -> tRangeFloat(K, V, E, o, n, e);
  else -> false };

// What the right operand of op may be when the left one belongs to class c.
macro isEq(op) = op == EQL || op == LEQL || op == NOT_EQ || op == LNEQ;
macro isOrd(op) = op == GEQ || op == LEQ || op == GTR || op == LSS;
macro isArith(op) = op == QUO || op == MUL || op == SUB || op == ADD || op == REM;
macro isMember(op) = op == IN || op == NOT_IN;
macro isSpatial(op) = op == NEARBY || op == NOT_NEARBY || op == INTERSECTS || op == NOT_INTERSECTS;
def okRight(K [string]bool, V [string]int, E [int]int, o int, n int, op int, c int, r Expr) bool = cond {
  op == OR || op == AND -> c == isBoolean && tBool(K, V, E, o, n, r);
  isEq(op) -> cond {
    c == isInt || c == isFloat -> tInt(K, V, E, o, n, r) || tFloat(K, V, E, o, n, r);
    c == isString -> tString(K, V, E, o, n, r);
    c == isBoolean -> tBool(K, V, E, o, n, r);
    c == isArrayString -> tArrString(K, V, E, o, n, r);
    c == isArrayInt || c == isArrayFloat || c == isGeometry -> tArrInt(K, V, E, o, n, r) || tArrFloat(K, V, E, o, n, r) || tGeo(K, V, E, o, n, r);
    else -> false };
  isOrd(op) || isArith(op) -> (c == isInt || c == isFloat) && (tInt(K, V, E, o, n, r) || tFloat(K, V, E, o, n, r)) || op == ADD && c == isString && tString(K, V, E, o, n, r);
  isMember(op) -> cond {
    c == isInt -> tArrInt(K, V, E, o, n, r) || tRangeInt(K, V, E, o, n, r) || tRangeFloat(K, V, E, o, n, r) || tGeo(K, V, E, o, n, r);
    c == isFloat -> tArrFloat(K, V, E, o, n, r) || tRangeInt(K, V, E, o, n, r) || tRangeFloat(K, V, E, o, n, r) || tGeo(K, V, E, o, n, r);
    c == isString -> tArrString(K, V, E, o, n, r);
    c == isGeometry -> tGeo(K, V, E, o, n, r);
    else -> false };
  isSpatial(op) -> (c == isInt || c == isFloat || c == isGeometry) && tGeo(K, V, E, o, n, r);
  else -> false };

// op may be applied to l and r
def allowed(K [string]bool, V [string]int, E [int]int, o int, n int, op int, l Expr, r Expr) bool =
  has(K, V, E, o, n, isInt, l) && okRight(K, V, E, o, n, op, isInt, r) ||
  has(K, V, E, o, n, isFloat, l) && okRight(K, V, E, o, n, op, isFloat, r) ||
  has(K, V, E, o, n, isString, l) && okRight(K, V, E, o, n, op, isString, r) ||
  has(K, V, E, o, n, isBoolean, l) && okRight(K, V, E, o, n, op, isBoolean, r) ||
  has(K, V, E, o, n, isGeometry, l) && okRight(K, V, E, o, n, op, isGeometry, r) ||
  has(K, V, E, o, n, isArrayInt, l) && okRight(K, V, E, o, n, op, isArrayInt, r) ||
  has(K, V, E, o, n, isArrayFloat, l) && okRight(K, V, E, o, n, op, isArrayFloat, r) ||
  has(K, V, E, o, n, isArrayString, l) && okRight(K, V, E, o, n, op, isArrayString, r) ||
  has(K, V, E, o, n, isRangeInt, l) && okRight(K, V, E, o, n, op, isRangeInt, r) ||
  has(K, V, E, o, n, isRangeFloat, l) && okRight(K, V, E, o, n, op, isRangeFloat, r);

// the operand that stands for the value of l op r
def valueOf(K [string]bool, V [string]int, E [int]int, o int, n int, op int, l Expr, r Expr) Expr = cond {
  isArith(op) -> tString(K, V, E, o, n, l) ? iface(opString, Expr) : tInt(K, V, E, o, n, l) && tInt(K, V, E, o, n, r) ? iface(opInt, Expr) : iface(opFloat, Expr);
  else -> iface(opBoolean, Expr) };

def [level 1] chkE(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) Expr = cond {
  is(e, *ParenExpr) -> chkE(K, V, E, o, n, as(e, *ParenExpr).Expr);
  is(e, *BinaryExpr) -> let b = as(e, *BinaryExpr) in valueOf(K, V, E, o, n, b.Op, chkE(K, V, E, o, n, b.Left), chkE(K, V, E, o, n, b.Right));
  else -> e };
// every operator of e is applied to operands it allows
def [level 1] chkOK(K [string]bool, V [string]int, E [int]int, o int, n int, e Expr) bool = cond {
  is(e, *ParenExpr) -> chkOK(K, V, E, o, n, as(e, *ParenExpr).Expr);
  is(e, *BinaryExpr) -> let b = as(e, *BinaryExpr) in chkOK(K, V, E, o, n, b.Left) && chkOK(K, V, E, o, n, b.Right) && allowed(K, V, E, o, n, b.Op, chkE(K, V, E, o, n, b.Left), chkE(K, V, E, o, n, b.Right));
  else -> true };

contract (Dictionary).lookup(d, name) (typ, err) {
  tags C09 C16;
  ensures (err == nil) <==> inmap(d, name);
  ensures inmap(d, name) ==> typ == d[name];
}
macro varsWF(t) = t != nil && forall k int :: 0 <= k && k < len(t.Vars) ==> t.Vars[k] != nil && t.Vars[k].Left != nil && wf(iface(t.Vars[k], Expr));
contract (*checker).getSelectorType(tc, name) (expr, err) {
  tags C09 C16;
  requires tc != nil;
  ensures (err == nil) <==> inmap(tc.dict, name) && 1 <= tc.dict[name] && tc.dict[name] <= 7;
  ensures expr == cond { !inmap(tc.dict, name) -> nil; tc.dict[name] == Int -> iface(opInt, Expr); tc.dict[name] == Float -> iface(opFloat, Expr); tc.dict[name] == String -> iface(opString, Expr);
    tc.dict[name] == Boolean -> iface(opBoolean, Expr); tc.dict[name] == ArrayInt -> iface(opArrayInt, Expr); tc.dict[name] == ArrayFloat -> iface(opArrayFloat, Expr); tc.dict[name] == ArrayString -> iface(opArrayString, Expr); else -> nil };
}
contract (*checker).isInt(tc, in) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in); ensures [C09] result <==> tInt(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); }
contract (*checker).isFloat(tc, in) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in); ensures [C09] result <==> tFloat(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); }
contract (*checker).isString(tc, in) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in); ensures [C09] result <==> tString(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); }
contract (*checker).isBoolean(tc, in) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in); ensures [C09] result <==> tBool(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); }
contract (*checker).isGeometry(tc, in) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in); ensures [C09] result <==> tGeo(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); }
contract (*checker).isArray(tc, in, typ) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in);
  ensures [C09] result <==> cond { typ == INT -> tArrInt(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); typ == FLOAT -> tArrFloat(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); typ == STRING -> tArrString(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); typ == BOOLEAN -> tArrBool(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in); else -> false }; }
contract (*checker).isRange(tc, in, typ) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in);
  ensures [C09] typ == INT ==> (result <==> tRangeInt(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in));
  ensures [C09] typ == FLOAT ==> (result <==> tRangeFloat(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), in)); }
contract (*checker).is(tc, rt, in) { tags C09 C16; requires tc != nil && varsWF(tc.trigger) && wf(in); ensures [C09] result <==> has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rt, in); }
contract (*checker).toExpr(tc, left, right, op) { tags C09 C16; requires isOp(op);
  ensures [wf] result != nil ==> wf(result);
  ensures [C09] isArith(op) && (left == isInt || left == isFloat) && (right == isInt || right == isFloat) ==> result == (left == isInt && right == isInt ? iface(opInt, Expr) : iface(opFloat, Expr));
  ensures [C09] op == ADD && left == isString && right == isString ==> result == iface(opString, Expr);
  ensures [C09] !isArith(op) ==> result == iface(opBoolean, Expr); }

extern bytes.NewBuffer(buf) { ensures fresh(result) && result != nil && iface(result, io.StringWriter).err == nil; }
extern (*bytes.Buffer).WriteString(b, s) (n, err) { requires b != nil; modifies iface(b, io.StringWriter).out, b.str; ensures err == nil; }
extern (*bytes.Buffer).String(b) { requires b != nil; ensures result == b.str; }
contract (*checker).error(tc, left, right, op, msg, mism) { tags C09 C16; requires wf(left) && wf(right); ensures result != nil; }

contract (*checker).eval(tc, left, right, op) (expr, err) {
  tags C09 C16;
  requires tc != nil && varsWF(tc.trigger) && wf(left) && wf(right) && isOp(op);
  case [OR C09] op == OR;
  case [AND C09] op == AND;
  case [EQL C09] op == EQL;
  case [LEQL C09] op == LEQL;
  case [NOT_EQ C09] op == NOT_EQ;
  case [LNEQ C09] op == LNEQ;
  case [GEQ C09] op == GEQ;
  case [LEQ C09] op == LEQ;
  case [GTR C09] op == GTR;
  case [LSS C09] op == LSS;
  case [QUO C09] op == QUO;
  case [MUL C09] op == MUL;
  case [SUB C09] op == SUB;
  case [ADD C09] op == ADD;
  case [REM C09] op == REM;
  case [IN C09] op == IN;
  case [NOT_IN C09] op == NOT_IN;
  case [NEARBY C09] op == NEARBY;
  case [NOT_NEARBY C09] op == NOT_NEARBY;
  case [INTERSECTS C09] op == INTERSECTS;
  case [NOT_INTERSECTS C09] op == NOT_INTERSECTS;
  ensures [wf] err == nil ==> wf(expr);
  ensures [verdict C09] (err == nil) <==> allowed(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, left, right);
  ensures [value C09] err == nil ==> expr == valueOf(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, left, right);
  template [C09] () visited()[isInt] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isInt, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isInt, right);
  template [C09] () visited()[isFloat] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isFloat, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isFloat, right);
  template [C09] () visited()[isString] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isString, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isString, right);
  template [C09] () visited()[isBoolean] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isBoolean, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isBoolean, right);
  template [C09] () visited()[isGeometry] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isGeometry, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isGeometry, right);
  template [C09] () visited()[isArrayInt] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isArrayInt, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isArrayInt, right);
  template [C09] () visited()[isArrayFloat] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isArrayFloat, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isArrayFloat, right);
  template [C09] () visited()[isArrayString] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isArrayString, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isArrayString, right);
  template [C09] () visited()[isRangeInt] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isRangeInt, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isRangeInt, right);
  template [C09] () visited()[isRangeFloat] && has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), isRangeFloat, left) ==> !okRight(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), op, isRangeFloat, right);
  template [C09] (i int, rs []ruleTyp) (i > 0 && len(rs) > 0 ==> !has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rs[0], right)) && (i > 1 && len(rs) > 1 ==> !has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rs[1], right)) && (i > 2 && len(rs) > 2 ==> !has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rs[2], right)) && (i > 3 && len(rs) > 3 ==> !has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rs[3], right)) && (i > 4 && len(rs) > 4 ==> !has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rs[4], right)) && (i > 5 && len(rs) > 5 ==> !has(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), rs[5], right));
}
contract (*checker).walk(tc, expr) (val, err) {
  tags C09 C16;
  requires tc != nil && varsWF(tc.trigger) && wf(expr);
  decreases rank(expr);
  ensures [verdict C09] (err == nil) <==> chkOK(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), expr);
  ensures [value C09] err == nil ==> val == chkE(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), expr);
  ensures [wf] err == nil ==> wf(val);
}
contract (*checker).check(tc) {
  tags C09 C16;
  requires tc != nil && varsWF(tc.trigger) && wf(tc.trigger.When);
  ensures [C09] (result == nil) <==> chkOK(keys(tc.dict), vals(tc.dict), elems(tc.trigger.Vars), off(tc.trigger.Vars), len(tc.trigger.Vars), tc.trigger.When);
}
contract CheckType(stmt, dict) (err) {
  tags C09 C16;
  requires is(stmt, *Trigger) ==> varsWF(as(stmt, *Trigger)) && wf(as(stmt, *Trigger).When);
  ensures [C09] is(stmt, *Trigger) ==> ((err == nil) <==> chkOK(keys(dict), vals(dict), elems(as(stmt, *Trigger).Vars), off(as(stmt, *Trigger).Vars), len(as(stmt, *Trigger).Vars), as(stmt, *Trigger).When));
  ensures [C09] !is(stmt, *Trigger) ==> err == nil;
}
