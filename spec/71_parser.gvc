// The parser: C01, C04, C05, C06, C07, C13, C14.
ghost strings.Reader.text string;
ghost strings.Reader.at int;
ghost parser.cur int;             // where the current token begins, in raw tokens
ghost parser.tr Ops;              // the operands read so far at this level, each with the token in front of it
ghost parser.last int;            // where the last operand ended
ghost parser.live bool;           // no error has been built yet, so tokens may be read
extern strings.NewReader(s) { ensures result != nil && fresh(result) && result.text == s && result.at == 0 && textOf(srcOf(iface(result, io.Reader))) == s; }
extern (*strings.Reader).Seek(r, offset, whence) (n, err) {
  modifies r.at;
  ensures offset >= 0 && whence == 0 ==> err == nil && r.at == offset;
}
extern (*strings.Reader).Read(r, b) (n, err) {
  modifies r.at, elems(b);
  ensures old(r.at) >= 0 && old(r.at) + len(b) <= len(r.text) ==> mkstr(elems(b), off(b), len(b)) == ssub(r.text, old(r.at), old(r.at) + len(b));
}


locset Par_(s) = s.tok, s.lit, s.err, s.sign, s.lpos, s.rpos, s.depth, s.live, s.cur, s.tr, s.last, Tok_(s.t), s.r.at;

// raw tokens read to recognise the token at p
def rawOf(st Src, p int) int = let k = rk(st, p) in cond { k == -2 -> width(st, p); k == '.' || k == '=' || k == '!' || k == '<' || k == '>' -> 2; else -> 1 };
// The parser may go on reading; its current token is the last one read.
macro atTok(s) = (s.cur >= 0 && s.tok == tokOf(s.t.s.st, s.cur) && s.lit == litOf(s.t.s.st, s.cur)
   && s.t.s.p == s.cur + rawOf(s.t.s.st, s.cur) && tkPos(s.t) == s.cur + width(s.t.s.st, s.cur));
macro pBase(s) = (s != nil && s.r != nil && tkOK(s.t) && textOf(s.t.s.st) == s.r.text);
macro pOK(s) = (pBase(s) && s.live);
macro pAt(s) = (pOK(s) && s.t.s.p > 0 && atTok(s));
// raw tokens before the end of the source
macro left(s) = (tkPos(s.t) < rn(s.t.s.st) ? rn(s.t.s.st) - tkPos(s.t) : 0);

macro synErr(s, err) = (is(err, *Error) && pay(err) != 0 && as(err, *Error).Offset == s.t.s.Offset && as(err, *Error).Lit == s.t.lit
   && as(err, *Error).Err == s.err && as(err, *Error).Msg == ssub(s.r.text, 0, s.t.s.Offset));

contract (*parser).error(s) {
  tags C13 C01;
  requires pBase(s) && s.t.s.p > 0;
  modifies s.live, s.r.at;
  ensures [one] result != nil;
  ensures [err C13] synErr(s, result);
  ensures [inv] pBase(s);
}
contract (*parser).next(s) {
  tags C01 C03;
  requires pOK(s);
  modifies s.tok, s.lit, s.cur, Tok_(s.t);
  ensures [tok] s.cur == old(tkPos(s.t)) && atTok(s);
  ensures [adv] old(tkPos(s.t)) >= rn(s.t.s.st) ==> s.tok == EOF;
  ensures [less] s.tok != EOF ==> left(s) < old(left(s));
  ensures [le] left(s) <= old(left(s));
  ensures [inv] pAt(s);
  sets s.cur = old(tkPos(s.t));
}

// ---- C05, C07: values within their domain, no missing operand; one kind of element ----
def [level 2] dom(e Expr) bool = wf(e) && cond {
  is(e, *BinaryExpr) -> dom(as(e, *BinaryExpr).Left) && dom(as(e, *BinaryExpr).Right);
  is(e, *ParenExpr) -> dom(as(e, *ParenExpr).Expr);
  is(e, *Range) -> dom(as(e, *Range).Low) && dom(as(e, *Range).High);
  is(e, *ArrayTyp) -> len(as(e, *ArrayTyp).List) > 0 && domList(as(e, *ArrayTyp).List);
  is(e, *Selector) -> domList(as(e, *Selector).Props);
  is(e, *GeometryMultiObjectTyp) -> len(as(e, *GeometryMultiObjectTyp).Val) > 0 && domList(as(e, *GeometryMultiObjectTyp).Val);
  is(e, *GeometryCollectionTyp) -> len(as(e, *GeometryCollectionTyp).Objects) > 0 && domList(as(e, *GeometryCollectionTyp).Objects);
  is(e, *DateTyp) -> let d = as(e, *DateTyp) in 1 <= d.Day && d.Day <= 31 && 1 <= d.Month && d.Month <= 12 && 2022 <= d.Year && d.Year <= 2200;
  is(e, *TimeTyp) -> let t = as(e, *TimeTyp) in 0 <= t.Hours && t.Hours <= 24 && 0 <= t.Minutes && t.Minutes <= 59 && 0 <= t.Seconds && t.Seconds <= 59;
  is(e, *Assign) || is(e, *Ident) -> false;
  else -> true };
// a consequence of the definition, stated for terms the solver introduces
axiom dom_wf(e Expr) {dom(e)}: dom(e) ==> wf(e);
macro domList(L) = (forall k int :: 0 <= k && k < len(L) ==> dom(L[k]));

// the kind an array of such elements declares
def kindOf(e Expr) Token = cond {
  is(e, *Selector) -> SELECTOR; is(e, *DurationTyp) -> DURATION; is(e, *SpeedTyp) -> SPEED; is(e, *PressureTyp) -> PRESSURE;
  is(e, *TemperatureTyp) -> TEMPERATURE; is(e, *DistanceTyp) -> DISTANCE; is(e, *PercentTyp) -> PERCENT; is(e, *IntTyp) -> INT;
  is(e, *FloatTyp) -> FLOAT; is(e, *StringTyp) -> STRING; is(e, *Ref) -> IDENT; is(e, *Range) -> RANGE;
  is(e, *WeekdayTyp) -> WEEKDAY; is(e, *MonthTyp) -> MONTH; is(e, *DateTyp) -> DATE; is(e, *TimeTyp) -> TIME; else -> ILLEGAL };
macro multiOf(k, e) = (cond { k == GEOMETRY_MULTIPOINT -> is(e, *GeometryPointTyp); k == GEOMETRY_MULTILINE -> is(e, *GeometryLineTyp); k == GEOMETRY_MULTIPOLYGON -> is(e, *GeometryPolygonTyp); else -> false });
macro isGeom(e) = (is(e, *GeometryPointTyp) || is(e, *GeometryLineTyp) || is(e, *GeometryPolygonTyp) || is(e, *GeometryMultiObjectTyp));
def [level 2] hom(e Expr) bool = cond {
  is(e, *BinaryExpr) -> hom(as(e, *BinaryExpr).Left) && hom(as(e, *BinaryExpr).Right);
  is(e, *ParenExpr) -> hom(as(e, *ParenExpr).Expr);
  is(e, *Range) -> hom(as(e, *Range).Low) && hom(as(e, *Range).High);
  is(e, *ArrayTyp) -> let a = as(e, *ArrayTyp) in len(a.List) > 0 && a.Kind != ILLEGAL && (forall k int :: 0 <= k && k < len(a.List) ==> kindOf(a.List[k]) == a.Kind && hom(a.List[k]));
  is(e, *Selector) -> let a = as(e, *Selector) in forall k int :: 0 <= k && k < len(a.Props) ==> hom(a.Props[k]);
  is(e, *GeometryMultiObjectTyp) -> let a = as(e, *GeometryMultiObjectTyp) in forall k int :: 0 <= k && k < len(a.Val) ==> multiOf(a.Kind, a.Val[k]);
  is(e, *GeometryCollectionTyp) -> let a = as(e, *GeometryCollectionTyp) in forall k int :: 0 <= k && k < len(a.Objects) ==> isGeom(a.Objects[k]) && hom(a.Objects[k]);
  else -> true };


// ---- C04: how operators group ----
sort Ops;
fn osnoc(l Ops, op Token, next bool, e Expr) Ops; // l, then operand e; op is the token in front of it, next says that the operand before ended just there
fn olen(l Ops) int;
fn oitem(l Ops, k int) Expr;
fn otok(l Ops, k int) Token;
fn onext(l Ops, k int) bool;
axiom o_last(l Ops, op Token, next bool, e Expr) {osnoc(l, op, next, e)}: olen(l) >= 0 && olen(osnoc(l, op, next, e)) == olen(l) + 1
  && oitem(osnoc(l, op, next, e), olen(l)) == e && otok(osnoc(l, op, next, e), olen(l)) == op && onext(osnoc(l, op, next, e), olen(l)) == next;
axiom o_item(l Ops, op Token, next bool, e Expr, k int) {oitem(osnoc(l, op, next, e), k)}: k < olen(l) ==> oitem(osnoc(l, op, next, e), k) == oitem(l, k);
axiom o_tok(l Ops, op Token, next bool, e Expr, k int) {otok(osnoc(l, op, next, e), k)}: k < olen(l) ==> otok(osnoc(l, op, next, e), k) == otok(l, k);
axiom o_next(l Ops, op Token, next bool, e Expr, k int) {onext(osnoc(l, op, next, e), k)}: k < olen(l) ==> onext(osnoc(l, op, next, e), k) == onext(l, k);
// L holds the operands read since l, in order; first is the token in front of the first, each other has one separator in front
macro took(L, l, t, first) = (olen(t) == olen(l) + len(L) && (forall k int :: 0 <= k && k < len(L) ==> L[k] == oitem(t, olen(l) + k)));
macro sep(n, l, t, first) = ((n > 0 ==> otok(t, olen(l)) == first) && (forall k int {otok(t, k)} {onext(t, k)} :: olen(l) < k && k < olen(t) ==> onext(t, k) && (otok(t, k) == COMMA || first == LBRACK && otok(t, k) == COLON)));
// the operands and operators of a tree, in order
def [level 2] flat(l Ops, op Token, next bool, e Expr) Ops = is(e, *BinaryExpr)
  ? flat(flat(l, op, next, as(e, *BinaryExpr).Left), as(e, *BinaryExpr).Op, true, as(e, *BinaryExpr).Right) : osnoc(l, op, next, e);
macro pr(e) = (is(e, *BinaryExpr) ? prec(as(e, *BinaryExpr).Op) : 6);
def [level 2] grp(e Expr) bool = cond {
  is(e, *BinaryExpr) -> let b = as(e, *BinaryExpr) in prec(b.Op) >= 1 && pr(b.Left) >= prec(b.Op) && pr(b.Right) > prec(b.Op) && grp(b.Left) && grp(b.Right);
  is(e, *ParenExpr) -> grp(as(e, *ParenExpr).Expr);
  is(e, *Range) -> opnd(as(e, *Range).Low) && opnd(as(e, *Range).High);
  is(e, *ArrayTyp) -> let a = as(e, *ArrayTyp) in forall k int :: 0 <= k && k < len(a.List) ==> opnd(a.List[k]);
  is(e, *Selector) -> let a = as(e, *Selector) in forall k int :: 0 <= k && k < len(a.Props) ==> opnd(a.Props[k]);
  else -> true };
macro opnd(e) = (!is(e, *BinaryExpr) && grp(e));

extern strconv.Atoi(s) (n, err) { ensures err == nil ==> n == atoi(s); }
extern strconv.ParseFloat(s, bits) (v, err) { ensures err == nil && bits == 64 ==> v == atof(s); }
extern time.ParseDuration(s) (d, err) { ensures err == nil ==> d == durOf(s); }
extern strings.TrimPrefix(s, p) { ensures result == trimPre(s, p); }
extern strings.TrimSuffix(s, p) { ensures result == trimSuf(s, p); }
fn atoi(s string) int;
fn atof(s string) flt;
fn durOf(s string) int;
fn trimPre(s string, p string) string;
fn trimSuf(s string, p string) string;

// ---- the functions of the parser ----
shape parseFn(s) (expr, err) {
  tags C01 C04 C05 C07 C13;
  ensures [grp C04] err == nil ==> grp(expr);
  requires pAt(s) && s.sign == ILLEGAL;
  modifies Par_(s);
  ensures [one] (err == nil) <==> (expr != nil);
  ensures [inv] pBase(s) && s.t.s.p > 0 && (err == nil ==> pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth));
  ensures [err C13] err != nil ==> synErr(s, err);
  ensures [dom] err == nil ==> dom(expr);
  ensures [hom C07] err == nil ==> hom(expr);
  ensures [adv] err == nil ==> left(s) <= old(left(s));
}
shape operand(s) (expr, err) { ensures [opnd C04] err == nil ==> expr == nil || !is(expr, *BinaryExpr); }
contract (*parser).parseWildcardLit(s) (expr, err) { use operand, parseFn;
  ensures [leaf C04] err == nil ==> is(expr, *WildcardTyp) && s.cur == old(tkPos(s.t)); }
contract (*parser).parseVarExpr(s) (expr, err) { use operand, parseFn;
  ensures [leaf C04] err == nil ==> is(expr, *Ref) && tokOf(s.t.s.st, old(tkPos(s.t))) == SELECTOR && s.cur == old(tkPos(s.t)) + width(s.t.s.st, old(tkPos(s.t)))
    && as(expr, *Ref).ID == rt(s.t.s.st, old(tkPos(s.t))); }
contract (*parser).parseStringLit(s) (expr, err) { use operand, parseFn;
  ensures [leaf C04] err == nil ==> is(expr, *StringTyp) && as(expr, *StringTyp).Val == trimSuf(trimPre(rt(s.t.s.st, old(s.t.s.p) - 1), "\""), "\"") && s.cur == old(tkPos(s.t)); }
contract (*parser).parseBooleanLit(s) (expr, err) { use operand, parseFn;
  ensures [leaf C04] err == nil ==> is(expr, *BooleanTyp) && (old(s.lit) == "true" || old(s.lit) == "up" || old(s.lit) == "false" || old(s.lit) == "down")
    && (as(expr, *BooleanTyp).Val <==> old(s.lit) == "true" || old(s.lit) == "up") && s.cur == old(tkPos(s.t)); }

shape calendar(s) (expr, err) {
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) <= old(left(s));
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
  template (a *ArrayTyp) a != nil ==> len(a.List) > 0;
  template (a *ArrayTyp) a != nil ==> domList(a.List);
  template [C07] (a *ArrayTyp) a != nil ==> a.Kind != ILLEGAL && forall k int :: 0 <= k && k < len(a.List) ==> kindOf(a.List[k]) == a.Kind && hom(a.List[k]);
  template (r *Range) r != nil ==> dom(r.Low);
  template [C07] (r *Range) r != nil ==> hom(r.Low);
  template [C04] (r *Range) r != nil ==> opnd(r.Low);
  template [C04] (a *ArrayTyp) a != nil ==> forall k int :: 0 <= k && k < len(a.List) ==> opnd(a.List[k]);
}
contract (*parser).parseWeekdayExpr(s) (expr, err) { use operand, parseFn, calendar; template (a *ArrayTyp) a != nil ==> a.Kind == WEEKDAY; }
contract (*parser).parseMonthExpr(s) (expr, err) { use operand, parseFn, calendar; template (a *ArrayTyp) a != nil ==> a.Kind == MONTH; }
contract (*parser).parseDateExpr(s) (expr, err) { use operand, parseFn, calendar; nounroll; template (a *ArrayTyp) a != nil ==> a.Kind == DATE; }
contract (*parser).parseTimeExpr(s) (expr, err) { use operand, parseFn, calendar; nounroll; template (a *ArrayTyp) a != nil ==> a.Kind == TIME; }

// ---- C06: numbers ----
axiom lower_pct(x string) {lower(x)}: lower(x) == "%" ==> x == "%"; // only letters change
macro pctU(u) = (u == "%" || u == "PCT" || u == "Pct");
macro barU(u) = (u == "bar" || u == "Bar" || u == "BAR");
macro psiU(u) = (u == "Psi" || u == "PSI" || u == "psi");
macro metU(u) = (u == "rm" || u == "rM" || u == "Rm" || u == "M");
macro kmU(u) = (u == "rkm" || u == "rKM" || u == "Rkm" || u == "Km" || u == "km");
macro kphU(u) = (u == "kph" || u == "KPH" || u == "Kph");
macro mphU(u) = (u == "mph" || u == "Mph" || u == "MPH");
macro celU(u) = (u == "c" || u == "C");
macro farU(u) = (u == "f" || u == "F");
// what follows the number at p may be a unit
macro unitAt(st, p) = (tokOf(st, p) == SELECTOR || litOf(st, p) == "%");
macro hmsU(l) = (len(l) > 0 && (l[0] == 'h' || l[0] == 'm' || l[0] == 's'));
def plusUnit(st Src, n int) bool = let u = rt(st, n) in unitAt(st, n) && (pctU(u) || barU(u) || psiU(u) || metU(u) || kmU(u) || kphU(u) || mphU(u) || (!celU(u) && !farU(u) && hmsU(litOf(st, n))));
def hasUnit(st Src, n int) bool = plusUnit(st, n) || (unitAt(st, n) && (celU(rt(st, n)) || farU(rt(st, n))));
// the literal of a number of value v, written lit, whose unit is the token at n
def unitLit(e Expr, v flt, lit string, st Src, n int, sign Token) bool = let u = rt(st, n) in cond {
  pctU(u) -> is(e, *PercentTyp) && as(e, *PercentTyp).Val == v;
  barU(u) || psiU(u) -> is(e, *PressureTyp) && as(e, *PressureTyp).Val == v && as(e, *PressureTyp).U == (barU(u) ? Bar : Psi);
  metU(u) || kmU(u) -> is(e, *DistanceTyp) && as(e, *DistanceTyp).Val == v && as(e, *DistanceTyp).U == (metU(u) ? Meter : Kilometer);
  kphU(u) || mphU(u) -> is(e, *SpeedTyp) && as(e, *SpeedTyp).Val == v && as(e, *SpeedTyp).U == (kphU(u) ? Kph : Mph);
  celU(u) || farU(u) -> is(e, *TemperatureTyp) && as(e, *TemperatureTyp).Val == v && as(e, *TemperatureTyp).U == (celU(u) ? Celsius : Fahrenheit)
     && as(e, *TemperatureTyp).Vec == (sign == SUB ? Minus : sign == ADD ? Plus : 0);
  else -> is(e, *DurationTyp) && as(e, *DurationTyp).Val == durOf(lit + litOf(st, n)) };
// the literal of the number at n, with its unit if one follows
def numLit(e Expr, st Src, n int, sign Token) bool = let m = n + width(st, n) in let l = litOf(st, n) in let f = tokOf(st, n) == FLOAT in
  hasUnit(st, m) ? unitLit(e, f ? atof(l) : i2f(atoi(l)), l, st, m, sign)
  : f ? is(e, *FloatTyp) && as(e, *FloatTyp).Val == (sign == SUB ? fneg(atof(l)) : atof(l))
  : is(e, *IntTyp) && as(e, *IntTyp).Val == (sign == SUB ? -atoi(l) : atoi(l));
def unitEnd(st Src, n int) int = hasUnit(st, n) ? n + width(st, n) : n;
shape number(s) (expr, err) {
  ensures [grp C04] err == nil ==> expr == nil || grp(expr);
  tags C06 C01 C05 C07 C13;
  requires pAt(s) && (s.tok == INT || s.tok == FLOAT) && (s.sign == ILLEGAL || s.sign == SUB || s.sign == ADD);
  modifies Par_(s);
  ensures [inv] pBase(s) && s.t.s.p > 0 && (err == nil ==> pAt(s) && s.sign == old(s.sign) && s.depth == old(s.depth));
  ensures [err C13] err != nil ==> synErr(s, err);
  ensures [adv] err == nil ==> left(s) <= old(left(s));
  ensures [pos C06 C14] err == nil ==> s.cur == unitEnd(s.t.s.st, old(tkPos(s.t)));
  ensures [neg C06] err == nil && s.sign == SUB ==> !plusUnit(s.t.s.st, old(tkPos(s.t)));
}
contract (*parser).parseAllTypes(s, v) (expr, err) {
  use operand, number;
  ensures [one] err != nil ==> expr == nil;
  ensures [ptr] expr != nil ==> pay(expr) != 0;
  ensures [dom] err == nil && expr != nil ==> dom(expr);
  ensures [hom C07] err == nil && expr != nil ==> hom(expr);
  ensures [val C06 C14] err == nil ==> (hasUnit(s.t.s.st, old(tkPos(s.t))) ? unitLit(expr, v, old(s.lit), s.t.s.st, old(tkPos(s.t)), s.sign) && pay(expr) != 0 : expr == nil);
}
contract (*parser).parseIntTypes(s) (expr, err) {
  use operand, number;
  ensures [one] (err == nil) <==> (expr != nil);
  ensures [dom] err == nil ==> dom(expr);
  ensures [hom C07] err == nil ==> hom(expr);
  ensures [val C06 C14] err == nil ==> (hasUnit(s.t.s.st, old(tkPos(s.t))) ? unitLit(expr, i2f(atoi(old(s.lit))), old(s.lit), s.t.s.st, old(tkPos(s.t)), s.sign)
     : is(expr, *IntTyp) && as(expr, *IntTyp).Val == (s.sign == SUB ? -atoi(old(s.lit)) : atoi(old(s.lit))));
}
contract (*parser).parseFloatTypes(s) (expr, err) {
  use operand, number;
  ensures [one] (err == nil) <==> (expr != nil);
  ensures [dom] err == nil ==> dom(expr);
  ensures [hom C07] err == nil ==> hom(expr);
  ensures [val C06 C14] err == nil ==> (hasUnit(s.t.s.st, old(tkPos(s.t))) ? unitLit(expr, atof(old(s.lit)), old(s.lit), s.t.s.st, old(tkPos(s.t)), s.sign)
     : is(expr, *FloatTyp) && as(expr, *FloatTyp).Val == (s.sign == SUB ? fneg(atof(old(s.lit))) : atof(old(s.lit))));
}
contract (*parser).parseDistance(s) (dist, err) {
  tags C01 C13;
  requires pAt(s) && s.sign == ILLEGAL;
  modifies Par_(s);
  ensures [one] (err == nil) <==> (dist != nil);
  ensures [inv] pBase(s) && s.t.s.p > 0 && (err == nil ==> pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth));
  ensures [err C13] err != nil ==> synErr(s, err);
  ensures [adv] err == nil ==> left(s) <= old(left(s));
}

// ---- expressions ----
contract (Token).Precedence(t) { tags C04; pure;
  ensures result == prec(t);
  ensures result >= 1 ==> isOp(t); }
def prec(t Token) int = cond {
  t == OR -> 1; t == AND -> 2;
  t == LSS || t == LEQ || t == GTR || t == GEQ || t == EQL || t == LEQL || t == NOT_EQ || t == LNEQ || t == IN || t == NOT_IN
    || t == NEARBY || t == NOT_NEARBY || t == INTERSECTS || t == NOT_INTERSECTS -> 3;
  t == ADD || t == SUB -> 4;
  t == MUL || t == QUO || t == REM -> 5;
  else -> 0 };
def signAt(st Src, p int) Token = tokOf(st, p) == SUB || tokOf(st, p) == ADD ? tokOf(st, p) : ILLEGAL;
def numAt(st Src, p int) int = tokOf(st, p) == SUB || tokOf(st, p) == ADD ? p + width(st, p) : p;
def isNum(st Src, n int) bool = tokOf(st, n) == INT || tokOf(st, n) == FLOAT;
shape exprFn(s) (expr, err) {
  use parseFn;
  requires 0 <= s.depth && s.depth <= 10000;
}
contract (*parser).parseUnaryExpr(s) (expr, err) {
  split; opaque unitLit, hasUnit, unitEnd, plusUnit, litOf, wordTok, notTok;
  use operand, exprFn;
  decreases left(s), 0;
  ensures [less] err == nil ==> left(s) < old(left(s));
  sets s.tr = osnoc(old(s.tr), old(s.tok), old(s.cur) == old(s.last), expr);
  sets s.last = s.cur;
  ensures [flat C04] s.tr == osnoc(old(s.tr), old(s.tok), old(s.cur) == old(s.last), expr) && s.last == s.cur;
  // a number keeps its value, unit and sign; only numbers have signs, and only some of them a minus
  ensures [sign C06] err == nil ==> let n = numAt(s.t.s.st, old(tkPos(s.t))) in
    (isNum(s.t.s.st, n) || signAt(s.t.s.st, old(tkPos(s.t))) == ILLEGAL) && (isNum(s.t.s.st, n) && signAt(s.t.s.st, old(tkPos(s.t))) == SUB ==> !plusUnit(s.t.s.st, n + width(s.t.s.st, n)));
  ensures [num C06] err == nil ==> let n = numAt(s.t.s.st, old(tkPos(s.t))) in
    isNum(s.t.s.st, n) && tokOf(s.t.s.st, unitEnd(s.t.s.st, n + width(s.t.s.st, n))) != RANGE ==> numLit(expr, s.t.s.st, n, signAt(s.t.s.st, old(tkPos(s.t))));
  ensures [low C06] err == nil ==> let n = numAt(s.t.s.st, old(tkPos(s.t))) in
    isNum(s.t.s.st, n) && tokOf(s.t.s.st, unitEnd(s.t.s.st, n + width(s.t.s.st, n))) == RANGE ==> is(expr, *Range) && numLit(as(expr, *Range).Low, s.t.s.st, n, signAt(s.t.s.st, old(tkPos(s.t))));
}
contract (*parser).parseBinaryExpr(s, oprec0) (expr, err) {
  use exprFn;
  requires oprec0 >= 1;
  requires [C04] oprec0 <= 6;
  decreases left(s), 1;
  ensures [less] err == nil ==> left(s) < old(left(s));
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) < old(left(s));
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
  template (e Expr) dom(e);
  template [C07] (e Expr) hom(e);
  // every operator binds as strongly as oprec0 asks, what follows no stronger than the last; the tree is what was read
  ensures [prec C04] err == nil ==> pr(expr) >= oprec0 && prec(s.tok) < oprec0;
  ensures [flat C04] err == nil ==> s.tr == flat(old(s.tr), old(s.tok), old(s.cur) == old(s.last), expr) && s.last == s.cur;
  template [C04] (e Expr) grp(e);
  template [C04] (e Expr) pr(e) >= oprec0;
  template [C04] (e Expr) prec(s.tok) <= pr(e);
  template [C04] (e Expr) s.tr == flat(old(s.tr), old(s.tok), old(s.cur) == old(s.last), e);
  invariant [C04] s.last == s.cur;
}
contract (*parser).parseParenExpr(s) (expr, err) { use operand, exprFn; decreases left(s), 2;
  // what stands between the parentheses, and nothing else
  ensures [paren C04] err == nil ==> is(expr, *ParenExpr) && s.tr == flat(old(s.tr), old(s.tok), old(s.cur) == old(s.last), as(expr, *ParenExpr).Expr)
    && tokOf(s.t.s.st, s.last) == RPAREN && s.cur == s.last + width(s.t.s.st, s.last); }
contract (*parser).parseRangeExpr(s, low) (expr, err) { use operand, exprFn; decreases left(s), 1;
  requires dom(low);
  requires [C07] hom(low);
  requires [C04] opnd(low);
  ensures [low C04 C06] err == nil ==> is(expr, *Range) && as(expr, *Range).Low == low;
  ensures [high C04] err == nil ==> s.tr == osnoc(old(s.tr), old(s.tok), old(s.cur) == old(s.last), as(expr, *Range).High) && s.last == s.cur; }
shape items(s) {
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) <= old(left(s));
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
}
contract (*parser).parseArrayExpr(s) (expr, err) {
  use operand, exprFn, items; decreases left(s), 1;
  template (a *ArrayTyp) a != nil ==> len(a.List) > 0;
  template (a *ArrayTyp) a != nil ==> domList(a.List);
  template [C07] (a *ArrayTyp) a != nil ==> a.Kind != ILLEGAL && forall k int :: 0 <= k && k < len(a.List) ==> kindOf(a.List[k]) == a.Kind && hom(a.List[k]);
  template [C04] (a *ArrayTyp) a != nil ==> forall k int :: 0 <= k && k < len(a.List) ==> opnd(a.List[k]);
  template [C04] (a *ArrayTyp) a == nil ? s.tr == old(s.tr) : took(a.List, old(s.tr), s.tr, LBRACK);
  template [C04] (a *ArrayTyp) a != nil ==> sep(len(a.List), old(s.tr), s.tr, LBRACK) && s.last == s.cur && (s.tok == COMMA || s.tok == COLON);
  template [C04] (a *ArrayTyp) a == nil ==> s.tok == LBRACK;
  ensures [items C04] err == nil ==> is(expr, *ArrayTyp) && took(as(expr, *ArrayTyp).List, old(s.tr), s.tr, LBRACK) && sep(len(as(expr, *ArrayTyp).List), old(s.tr), s.tr, LBRACK)
    && tokOf(s.t.s.st, s.last) == RBRACK && s.cur == s.last + width(s.t.s.st, s.last);
}
contract (*parser).parseSelectorExpr(s) (expr, err) {
  use operand, exprFn, items; decreases left(s), 2;
  template (a *Selector) a != nil ==> a.Args == nil || fresh(a.Args);
  template (a *Selector) a != nil ==> domList(a.Props);
  // its name, and its properties in order
  ensures [items C04] err == nil ==> is(expr, *Selector) && as(expr, *Selector).Ident == old(s.lit) && (took(as(expr, *Selector).Props, old(s.tr), s.tr, COLON) && sep(len(as(expr, *Selector).Props), old(s.tr), s.tr, COLON));
  template [C04] (a *Selector) a != nil ==> took(a.Props, old(s.tr), s.tr, COLON);
  template [C04] (a *Selector) a != nil ==> sep(len(a.Props), old(s.tr), s.tr, COLON);
  template [C04] (a *Selector) a != nil ==> a.Ident == old(s.lit);
  template [C04] (a *Selector) a != nil && len(a.Props) > 0 ==> s.tok == COMMA && s.last == s.cur;
  template [C04] (a *Selector) a != nil && len(a.Props) == 0 ==> s.tok == COLON && s.tr == old(s.tr);
  template [C04] (a *Selector) a != nil && len(a.Props) == 0 ==> s.tr == old(s.tr);
  template [C04] (a *Selector) a != nil ==> forall k int :: 0 <= k && k < len(a.Props) ==> opnd(a.Props[k]);
  template [C07] (a *Selector) a != nil ==> forall k int :: 0 <= k && k < len(a.Props) ==> hom(a.Props[k]);
}
contract (*parser).parseGeometryExpr(s) (expr, err) {
  use operand, parseFn; nounroll;
  ensures [less] err == nil ==> left(s) < old(left(s));
  ensures [kind] err == nil ==> (old(s.tok) == GEOMETRY_POINT || old(s.tok) == GEOMETRY_LINE || old(s.tok) == GEOMETRY_POLYGON) && (old(s.tok) == GEOMETRY_POINT ==> is(expr, *GeometryPointTyp)) && (old(s.tok) == GEOMETRY_LINE ==> is(expr, *GeometryLineTyp)) && (old(s.tok) == GEOMETRY_POLYGON ==> is(expr, *GeometryPolygonTyp));
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) <= old(left(s));
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
}
contract (*parser).parseGeometryMultiObject(s) (expr, err) {
  use operand, parseFn; nounroll;
  requires s.tok == GEOMETRY_MULTIPOINT || s.tok == GEOMETRY_MULTILINE || s.tok == GEOMETRY_MULTIPOLYGON;
  ensures [less] err == nil ==> left(s) < old(left(s));
  ensures [kind] err == nil ==> is(expr, *GeometryMultiObjectTyp) && as(expr, *GeometryMultiObjectTyp).Kind == old(s.tok);
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) <= old(left(s));
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
  template (a *GeometryMultiObjectTyp) a != nil ==> domList(a.Val);
  template [C07] (a *GeometryMultiObjectTyp) a != nil ==> forall k int :: 0 <= k && k < len(a.Val) ==> multiOf(a.Kind, a.Val[k]);
}
contract (*parser).parseGeometryCollectionExpr(s) (expr, err) {
  use operand, parseFn; nounroll;
  ensures [less] err == nil ==> left(s) < old(left(s));
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) <= old(left(s));
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
  template (a *GeometryCollectionTyp) a != nil ==> domList(a.Objects);
  template [C07] (a *GeometryCollectionTyp) a != nil ==> forall k int :: 0 <= k && k < len(a.Objects) ==> isGeom(a.Objects[k]) && hom(a.Objects[k]);
}

// ---- C14: the statement ----
// a duration written at n
def durAt(st Src, n int, e Expr) bool = (tokOf(st, n) == INT || tokOf(st, n) == FLOAT) && hasUnit(st, n + width(st, n))
  && is(e, *DurationTyp) && pay(e) != 0 && as(e, *DurationTyp).Val == durOf(litOf(st, n) + litOf(st, n + width(st, n)));
def durEnd(st Src, n int) int = let u = n + width(st, n) in u + width(st, u);
def stop(st Src, n int) bool = tokOf(st, n) == EOF || tokOf(st, n) == RESET;
// the clause 'repeat' at w, and where it ends
def repAt(st Src, w int, c Expr, i Expr, c0 Expr, i0 Expr) bool = let n = w + width(st, w) in let m = n + width(st, n) in
  stop(st, n) ? c == c0 && i == i0
  : tokOf(st, n) == INT && !hasUnit(st, m) && is(c, *IntTyp) && pay(c) != 0 && as(c, *IntTyp).Val == atoi(litOf(st, n))
    && (stop(st, m) ? i == i0 : litOf(st, m) == "every" && durAt(st, m + width(st, m), i));
def repEnd(st Src, w int) int = let n = w + width(st, w) in let m = n + width(st, n) in stop(st, n) ? n : stop(st, m) ? m : durEnd(st, m + width(st, m));
def resetAt(st Src, w int, e Expr) bool = let n = w + width(st, w) in litOf(st, n) == "after" && durAt(st, n + width(st, n), e);
def resetEnd(st Src, w int) int = let n = w + width(st, w) in durEnd(st, n + width(st, n));
shape clause(s, stmt) (err) {
  tags C14 C01 C13;
  requires pAt(s) && s.sign == ILLEGAL && stmt != nil;
  ensures [inv] pBase(s) && s.t.s.p > 0 && (err == nil ==> pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth));
  ensures [err C13] err != nil ==> synErr(s, err);
  ensures [adv] err == nil ==> left(s) <= old(left(s));
}
contract (*parser).parseRepeat(s, stmt) (err) {
  use clause;
  requires s.tok == REPEAT;
  modifies Par_(s), stmt.RepeatCount, stmt.RepeatInterval;
  ensures [rep C14] err == nil ==> repAt(s.t.s.st, old(s.cur), stmt.RepeatCount, stmt.RepeatInterval, old(stmt.RepeatCount), old(stmt.RepeatInterval));
  ensures [end C14] err == nil ==> s.cur == repEnd(s.t.s.st, old(s.cur));
}
contract (*parser).parseReset(s, stmt) (err) {
  use clause;
  requires s.tok == RESET;
  modifies Par_(s), stmt.ResetAfter;
  ensures [reset C14] err == nil ==> resetAt(s.t.s.st, old(s.cur), stmt.ResetAfter);
  ensures [end C14] err == nil ==> s.cur == resetEnd(s.t.s.st, old(s.cur));
}
ghost parser.wend int;            // where the condition ends
macro distinct(t) = (forall j int, k int :: 0 <= j && j < k && k < len(t.Vars) ==> t.Vars[j].Left.Val != t.Vars[k].Left.Val);
macro value(e) = (dom(e) && !is(e, *Ref) && !(is(e, *ArrayTyp) && as(e, *ArrayTyp).Kind == IDENT));
macro varsH(t) = (forall k int {t.Vars[k]} :: 0 <= k && k < len(t.Vars) ==> hom(t.Vars[k].Right));
macro varsG(t) = (forall k int {t.Vars[k]} :: 0 <= k && k < len(t.Vars) ==> opnd(t.Vars[k].Right));
macro parsedG(t) = (t != nil && grp(t.When) && varsG(t));
macro varsP(t) = (forall k int :: 0 <= k && k < len(t.Vars) ==> t.Vars[k] != nil && t.Vars[k].Left != nil && wf(iface(t.Vars[k], Expr)) && value(t.Vars[k].Right));
contract (*parser).parseWhen(s, stmt) (err) {
  use clause;
  requires s.tok == WHEN && 0 <= s.depth && s.depth <= 10000;
  modifies Par_(s), stmt.When, s.wend;
  ensures [cond] err == nil ==> dom(stmt.When);
  ensures [hom C07] err == nil ==> hom(stmt.When);
  ensures [grp C04] err == nil ==> grp(stmt.When);
  ensures [end C14] err == nil ==> s.wend == s.cur;
  sets s.wend = s.cur;
}
contract (*parser).parseSet(s, stmt) (err) {
  tags C14 C01 C13 C08;
  requires pAt(s) && s.sign == ILLEGAL && stmt != nil && s.tok == SET && stmt.Vars == nil && len(stmt.Vars) == 0 && 0 <= s.depth && s.depth <= 10000;
  modifies Par_(s), stmt.Vars;
  ensures [inv] pBase(s) && s.t.s.p > 0 && (err == nil ==> s.live && s.sign == ILLEGAL && s.depth == old(s.depth));
  ensures [err C13] err != nil ==> synErr(s, err);
  ensures [adv] err == nil ==> left(s) <= old(left(s));
  ensures [next C14] err == nil ==> tokOf(s.t.s.st, tkPos(s.t)) == WHEN || tokOf(s.t.s.st, tkPos(s.t)) == EOF;
  ensures [vars C05] err == nil ==> varsP(stmt);
  ensures [varsH C07] err == nil ==> varsH(stmt);
  ensures [varsG C04] err == nil ==> varsG(stmt);
  ensures [distinct C08] err == nil ==> distinct(stmt);
  invariant pAt(s) && s.sign == ILLEGAL && s.depth == old(s.depth) && left(s) <= old(left(s));
  invariant stmt.Vars == nil ? len(stmt.Vars) == 0 : fresh(stmt.Vars);
  invariant varsOK(stmt);
  invariant [C05] forall k int {stmt.Vars[k]} :: 0 <= k && k < len(stmt.Vars) ==> wf(iface(stmt.Vars[k], Expr));
  invariant [C05] forall k int {stmt.Vars[k]} :: 0 <= k && k < len(stmt.Vars) ==> value(stmt.Vars[k].Right);
  invariant [C07] varsH(stmt);
  invariant [C04] varsG(stmt);
  invariant [C08] distinct(stmt);
  measure left(s);
  measure 2*left(s) + (s.tok != EOF ? 1 : 0);
}

// the clauses after the condition, which ends at w, and where they end
def resetPos(st Src, w int) int = tokOf(st, w) == REPEAT ? repEnd(st, w) : w;
def stmtEnd(st Src, w int) int = let r = resetPos(st, w) in tokOf(st, r) == RESET ? resetEnd(st, r) : r;
def clausesAt(st Src, w int, c Expr, i Expr, a Expr) bool = let r = resetPos(st, w) in
  (tokOf(st, w) == REPEAT ? repAt(st, w, c, i, nil, nil) : c == nil && i == nil) && (tokOf(st, r) == RESET ? resetAt(st, r, a) : a == nil);
// what a parsed statement guarantees
macro parsed(t) = (t != nil && dom(t.When) && varsP(t));
macro parsedH(t) = (t != nil && hom(t.When) && varsH(t));
macro clauseTypes(t) = ((t.RepeatCount == nil || is(t.RepeatCount, *IntTyp)) && (t.RepeatInterval == nil || is(t.RepeatInterval, *DurationTyp)) && (t.ResetAfter == nil || is(t.ResetAfter, *DurationTyp)));

contract (*parser).parseTriggerStmt(s) (stmt, err) {
  tags C14 C01 C13;
  requires pAt(s) && s.sign == ILLEGAL && 0 <= s.depth && s.depth <= 10000;
  modifies Par_(s), s.wend;
  ensures [inv] pBase(s) && s.t.s.p > 0 && (err == nil ==> pAt(s));
  ensures [one] (err == nil) <==> (stmt != nil);
  ensures [err C13] err != nil ==> synErr(s, err);
  ensures [start C14] err == nil ==> old(s.tok) == WHEN || old(s.tok) == SET;
  ensures [tree C05] err == nil ==> parsed(stmt);
  ensures [treeH C07] err == nil ==> parsedH(stmt);
  ensures [treeG C04] err == nil ==> parsedG(stmt);
  ensures [distinct C08] err == nil ==> distinct(stmt);
  ensures [clauses C14] err == nil ==> clausesAt(s.t.s.st, s.wend, stmt.RepeatCount, stmt.RepeatInterval, stmt.ResetAfter);
  ensures [types C14] err == nil ==> clauseTypes(stmt);
  ensures [end C14] err == nil ==> s.cur == stmtEnd(s.t.s.st, s.wend);
}
contract (*parser).parse0(s) (stmt, err) {
  tags C14 C01 C13;
  requires pOK(s) && s.sign == ILLEGAL && s.depth == 0;
  modifies Par_(s), s.wend;
  ensures [one] (err == nil) <==> (stmt != nil);
  ensures [type] err == nil ==> is(stmt, *Trigger);
  ensures [err C13] err != nil ==> synErr(s, err) && pBase(s) && s.t.s.p > 0;
  ensures [start C14] err == nil ==> let k = tokOf(s.t.s.st, old(tkPos(s.t))) in k == WHEN || (k == TRIGGER && (let m = tokOf(s.t.s.st, old(tkPos(s.t)) + width(s.t.s.st, old(tkPos(s.t)))) in m == WHEN || m == SET));
  ensures [clauses C14] err == nil ==> let t = as(stmt, *Trigger) in clausesAt(s.t.s.st, s.wend, t.RepeatCount, t.RepeatInterval, t.ResetAfter) && clauseTypes(t);
  ensures [whole C14] err == nil ==> tokOf(s.t.s.st, stmtEnd(s.t.s.st, s.wend)) == EOF;
  ensures [clean C14] err == nil ==> s.t.s.p >= rn(s.t.s.st) && clean(s.t.s.st, s.t.s.p);
  ensures [tree C05] err == nil ==> parsed(as(stmt, *Trigger));
  ensures [treeH C07] err == nil ==> parsedH(as(stmt, *Trigger));
  ensures [treeG C04] err == nil ==> parsedG(as(stmt, *Trigger));
  ensures [distinct C08] err == nil ==> distinct(as(stmt, *Trigger));
}
contract newParser(t, r) {
  tags C01;
  requires t != nil && r != nil;
  ensures [new] result != nil && fresh(result) && result.t == t && result.r == r && result.sign == ILLEGAL && result.depth == 0 && result.live;
  sets result.live = true;
}
contract Parse(gql) (stmt, err) {
  tags C01 C13 C14;
  ensures [one] (err == nil) <==> (stmt != nil);
  ensures [type] err == nil ==> is(stmt, *Trigger);
  ensures [tree C05] err == nil ==> parsed(as(stmt, *Trigger));
  ensures [treeH C07] err == nil ==> parsedH(as(stmt, *Trigger));
  ensures [treeG C04] err == nil ==> parsedG(as(stmt, *Trigger));
  ensures [distinct C08] err == nil ==> distinct(as(stmt, *Trigger));
  ensures [types C14] err == nil ==> clauseTypes(as(stmt, *Trigger));
  ensures [err C13] err != nil ==> is(err, *Error) && pay(err) != 0 && as(err, *Error).Offset >= 0 && as(err, *Error).Offset <= len(gql) && as(err, *Error).Msg == ssub(gql, 0, as(err, *Error).Offset);
}
