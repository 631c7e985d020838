// C03: from raw tokens to tokens.
// The raw tokens of a source, as the scanner cuts it: kind, text, offset.
sort Src;
fn rk(st Src, p int) int;
fn rt(st Src, p int) string;
fn ro(st Src, p int) int;
fn rbad(st Src, p int) bool;  // the scanner reports an error in it
fn rn(st Src) int;            // how many there are before the end of the source
ghost scanner.Scanner.st Src;
ghost scanner.Scanner.p int;  // raw tokens read so far
ghost scanner.Scanner.tk *Tokenizer; // the tokenizer its error callback reports to

axiom rn_nonneg(st Src) {rn(st)}: rn(st) >= 0;
axiom rk_eof(st Src, p int) {rk(st, p)}: p >= 0 ==> (rk(st, p) == -1 <==> p >= rn(st));
axiom ro_nonneg(st Src, p int) {ro(st, p)}: p >= 0 ==> ro(st, p) >= 0;

// a word begins with a letter or '_' and holds letters, digits and '_' only, so does its lower case form
axiom rk_word(st Src, p int) {rk(st, p), rt(st, p)}: rk(st, p) == -2 ==> lower(rt(st, p)) != "=" && lower(rt(st, p)) != ";" && lower(rt(st, p)) != "(" && lower(rt(st, p)) != ")" && lower(rt(st, p)) != "," && lower(rt(st, p)) != ">=" && lower(rt(st, p)) != "<=" && lower(rt(st, p)) != ">" && lower(rt(st, p)) != "<" && lower(rt(st, p)) != "[" && lower(rt(st, p)) != "]" && lower(rt(st, p)) != "{" && lower(rt(st, p)) != "}" && lower(rt(st, p)) != "/" && lower(rt(st, p)) != "*" && lower(rt(st, p)) != "-" && lower(rt(st, p)) != "+" && lower(rt(st, p)) != ":" && lower(rt(st, p)) != "==" && lower(rt(st, p)) != "." && lower(rt(st, p)) != "!=" && lower(rt(st, p)) != "@" && lower(rt(st, p)) != "not eq" && lower(rt(st, p)) != "not in" && lower(rt(st, p)) != "not nearby" && lower(rt(st, p)) != "not intersects" && lower(rt(st, p)) != "%";
// the text of a single character is that character
axiom rk_char(st Src, p int) {rk(st, p), rt(st, p)}: (rk(st, p) == '.' ==> lower(rt(st, p)) == ".") && (rk(st, p) == '=' ==> lower(rt(st, p)) == "=") && (rk(st, p) == '!' ==> lower(rt(st, p)) == "!") && (rk(st, p) == '<' ==> lower(rt(st, p)) == "<") && (rk(st, p) == '>' ==> lower(rt(st, p)) == ">");

// the source a reader delivers, and its text
fn srcOf(r io.Reader) Src;
fn textOf(st Src) string;
axiom ro_bound(st Src, p int) {ro(st, p)}: p >= 0 ==> ro(st, p) <= len(textOf(st));
locset Scan_(s) = s.p, s.srcBuf, s.tokBuf.str, s.src.at, s.Offset, s.Line, s.Column, s.srcPos, s.srcEnd, s.srcBufOffset, s.line, s.column, s.lastLineLen, s.lastCharLen, s.tokPos, s.tokEnd, s.ch, s.ErrorCount;
locset Tok_(t) = t.hop, t.tok, t.lit, t.err, Scan_(t.s);

// the scanner can read on, and holds the text of the raw token read last
macro live(t) = (scanOK(t.s) && (t.s.p > 0 ==> textOK(t.s)));

def low(st Src, p int) string = lower(rt(st, p));
def wordTok(l string) Token = cond {
  l == "trigger" -> TRIGGER; l == "set" -> SET; l == "when" -> WHEN; l == "repeat" -> REPEAT; l == "reset" -> RESET;
  l == "rem" || l == "mod" -> REM; l == "or" -> OR; l == "and" -> AND; l == "eq" -> EQL; l == "in" -> IN; l == "range" -> RANGE;
  l == "nearby" -> NEARBY; l == "intersects" -> INTERSECTS;
  l == "time" -> TIME; l == "date" -> DATE; l == "weekday" -> WEEKDAY; l == "month" -> MONTH;
  l == "point" -> GEOMETRY_POINT; l == "multipoint" -> GEOMETRY_MULTIPOINT; l == "line" -> GEOMETRY_LINE; l == "multiline" -> GEOMETRY_MULTILINE;
  l == "polygon" -> GEOMETRY_POLYGON; l == "multipolygon" -> GEOMETRY_MULTIPOLYGON; l == "collection" -> GEOMETRY_COLLECTION;
  l == "true" || l == "false" || l == "up" || l == "down" -> BOOLEAN;
  else -> SELECTOR };
def notTok(l string) Token = cond { l == "eq" -> NOT_EQ; l == "in" -> NOT_IN; l == "nearby" -> NOT_NEARBY; l == "intersects" -> NOT_INTERSECTS; else -> ILLEGAL };

macro two(st, p, c) = rk(st, p+1) == c;
def tokOf(st Src, p int) Token = let k = rk(st, p) in cond {
  k == -1 -> EOF; k == -3 -> INT; k == -4 -> FLOAT; k == -6 -> STRING;
  k == -2 -> (low(st, p) == "not" ? notTok(low(st, p+1)) : wordTok(low(st, p)));
  k == '.' -> two(st, p, '.') ? RANGE : PERIOD;
  k == '=' -> two(st, p, '=') ? LEQL : ASSIGN;
  k == '!' -> two(st, p, '=') ? LNEQ : ILLEGAL;
  k == '>' -> two(st, p, '=') ? GEQ : GTR;
  k == '<' -> two(st, p, '=') ? LEQ : LSS;
  k == '@' -> IDENT; k == ';' -> SEMICOLON; k == ',' -> COMMA; k == ':' -> COLON;
  k == '(' -> LPAREN; k == ')' -> RPAREN; k == '[' -> LBRACK; k == ']' -> RBRACK; k == '{' -> LBRACE; k == '}' -> RBRACE;
  k == '/' -> QUO; k == '+' -> ADD; k == '-' -> SUB; k == '*' -> MUL;
  else -> ILLEGAL };
// raw tokens the token at p takes
def width(st Src, p int) int = let k = rk(st, p) in cond {
  k == -2 -> (low(st, p) == "not" ? 2 : 1);
  k == '.' -> two(st, p, '.') ? 2 : 1;
  k == '=' || k == '!' || k == '<' || k == '>' -> two(st, p, '=') ? 2 : 1;
  else -> 1 };
def litOf(st Src, p int) string = let t = tokOf(st, p) in cond {
  rk(st, p) == -2 -> (low(st, p) == "not" ? "not " + low(st, p+1) : low(st, p));
  t == RANGE -> "range"; t == LEQL -> "=="; t == LNEQ -> "!="; t == GEQ -> ">="; t == LEQ -> "<=";
  else -> low(st, p) };

// no error in the first p raw tokens
def clean(st Src, p int) bool = p <= 0 || (!rbad(st, p-1) && clean(st, p-1));
// The next token to hand out.
macro tkPos(t) = (t.s.p - t.hop);
macro tkOK(t) = (t != nil && t.s.tk == t && (t.hop == 0 || t.hop == 1) && tkPos(t) >= 0 && (t.s.p > 0 ==> t.tok == rk(t.s.st, t.s.p - 1) && t.lit == rt(t.s.st, t.s.p - 1) && t.s.Offset == ro(t.s.st, t.s.p - 1)) && (t.err == nil ==> clean(t.s.st, t.s.p)));

contract (*Tokenizer).next(t) (r, lit) {
  tags C02 C03;
  requires tkOK(t);
  requires [C02] live(t);
  modifies Tok_(t);
  ensures [live C02] live(t);
  ensures [tok] r == rk(t.s.st, old(tkPos(t))) && lit == rt(t.s.st, old(tkPos(t)));
  ensures [pos] t.hop == 0 && t.s.p == old(tkPos(t)) + 1;
  ensures [inv] tkOK(t);
}
contract (*Tokenizer).Scan(t) (tok, lit) {
  tags C02 C03;
  requires tkOK(t);
  requires [C02] live(t);
  modifies Tok_(t);
  ensures [live C02] live(t);
  ensures [tok] tok == tokOf(t.s.st, old(tkPos(t)));
  ensures [lit] lit == litOf(t.s.st, old(tkPos(t)));
  ensures [pos] tkPos(t) == old(tkPos(t)) + width(t.s.st, old(tkPos(t)));
  ensures [inv] tkOK(t);
  ensures [raw] t.s.p == old(tkPos(t)) + (rk(t.s.st, old(tkPos(t))) == -2 ? width(t.s.st, old(tkPos(t))) : cond {
      let k = rk(t.s.st, old(tkPos(t))) in k == '.' || k == '=' || k == '!' || k == '<' || k == '>' -> 2; else -> 1 });
}
// the caller asks to read the last raw token again
contract (*Tokenizer).Reset(t) {
  tags C03;
  requires tkOK(t) && t.s.p > 0;
  modifies t.hop;
  ensures [again] tkPos(t) == t.s.p - 1;
  ensures [inv] tkOK(t);
}
contract (*Tokenizer).Unwind(t) {
  tags C03;
  requires tkOK(t);
  modifies t.hop;
  ensures [forget] tkPos(t) == t.s.p;
  ensures [inv] tkOK(t);
}
contract NewTokenizer(r) {
  tags C02 C03;
  requires r != nil;
  requires [C02] r.at == 0;
  ensures [live C02] live(result);
  ensures [inv] tkOK(result) && fresh(result);
  ensures [pos] result.s.st == srcOf(r) && tkPos(result) == 0;
  ensures [err] result.err == nil && result.s.p == 0 && result.s.src == r;
  sets result.s.tk = result;
}
