// C02: from the bytes a reader delivers to raw tokens.
ghost io.Reader.at int;          // bytes delivered so far
ghost bytes.Buffer.str string;
iface io.Reader.Read(r, p) (n, err) {
  modifies r.at, elems(p);
  ensures 0 <= n && n <= len(p) && r.at == old(r.at) + n && r.at <= len(textOf(srcOf(r)));
  ensures forall k int {elems(p)[k]} :: off(p) <= k && k < off(p) + n ==> elems(p)[k] == textOf(srcOf(r))[old(r.at) + k - off(p)];
  ensures forall k int {elems(p)[k]} :: k < off(p) || k >= off(p) + len(p) ==> elems(p)[k] == old(elems(p))[k];
  ensures n > 0 || err != nil || len(p) == 0;
  ensures err == nil || err == io.EOF && r.at == len(textOf(srcOf(r)));
}
assumption "the reader returns at least one byte or an error at each read, no error other than io.EOF, and io.EOF only at the end of the source";
extern (*bytes.Buffer).Write(b, p) (n, err) { modifies b.str; ensures b.str == old(b.str) + mkstr(elems(p), off(p), off(p) + len(p)); }
extern (*bytes.Buffer).Len(b) { ensures result == len(b.str); }
extern (*bytes.Buffer).Reset(b) { modifies b.str; ensures b.str == ""; }

// characters of a text: the one that begins at a position, and its length
fn dr(t string, i int) int;
fn dw(t string, i int) int;
axiom dr_range(t string, i int) {dr(t, i)}: dr(t, i) >= 128 && dr(t, i) <= 1114111;
axiom dw_range(t string, i int) {dw(t, i)}: 0 <= i && i < len(t) ==> 1 <= dw(t, i) && dw(t, i) <= 4 && i + dw(t, i) <= len(t);
def chr(t string, i int) int = i >= len(t) ? -1 : (t[i] < 128 ? t[i] : dr(t, i));
def cw(t string, i int) int = i >= len(t) ? 0 : (t[i] < 128 ? 1 : dw(t, i));
// m holds the n bytes of the text from o on
def win(t string, m [int]int, o int, n int) bool = o >= 0 && n >= 0 && o + n <= len(t) && (forall k int {m[k]} :: 0 <= k && k < n ==> m[k] == t[o + k]);

fn fullR(m [int]int, lo int, hi int) bool;
fn decR(m [int]int, lo int, hi int) int;
fn decW(m [int]int, lo int, hi int) int;
axiom full_none(m [int]int, lo int, hi int) {fullR(m, lo, hi)}: lo >= hi ==> !fullR(m, lo, hi);
axiom full_some(m [int]int, lo int, hi int) {fullR(m, lo, hi)}: hi - lo >= 4 || lo < hi && m[lo] < 128 ==> fullR(m, lo, hi);
axiom dec_w(m [int]int, lo int, hi int) {decW(m, lo, hi)}: lo < hi ==> 1 <= decW(m, lo, hi) && decW(m, lo, hi) <= hi - lo;
axiom dec_r(m [int]int, lo int, hi int) {decR(m, lo, hi)}: lo < hi && m[lo] >= 128 ==> decR(m, lo, hi) >= 128;
axiom dec(t string, m [int]int, i int, lo int, hi int) {dr(t, i), decR(m, lo, hi)} {dw(t, i), decW(m, lo, hi)}:
  0 <= lo && lo < hi && 0 <= i && i + hi - lo <= len(t) && m[lo] >= 128 && (hi - lo >= 4 || fullR(m, lo, hi) || i + hi - lo >= len(t))
  && (forall k int {m[k]} :: lo <= k && k < hi ==> m[k] == t[i + k - lo]) ==> decR(m, lo, hi) == dr(t, i) && decW(m, lo, hi) == dw(t, i);
extern utf8.FullRune(p) { ensures result == fullR(elems(p), off(p), off(p) + len(p)); }
extern utf8.DecodeRune(p) (r, w) { ensures r == decR(elems(p), off(p), off(p) + len(p)) && w == decW(elems(p), off(p), off(p) + len(p)); }

axiom byte_range(t string, i int) {t[i]}: 0 <= t[i] && t[i] < 256;
axiom mk_sub(t string, m [int]int, o int, n int, lo int, hi int) {win(t, m, o, n), mkstr(m, lo, hi)}:
  win(t, m, o, n) && 0 <= lo && lo <= hi && hi <= n ==> mkstr(m, lo, hi) == ssub(t, o + lo, o + hi);
axiom sub_cat(t string, a int, b int, c int) {ssub(t, a, b) + ssub(t, b, c)}: 0 <= a && a <= b && b <= c && c <= len(t) ==> ssub(t, a, b) + ssub(t, b, c) == ssub(t, a, c);
axiom sub_len(t string, a int, b int) {ssub(t, a, b)}: 0 <= a && a <= b && b <= len(t) ==> len(ssub(t, a, b)) == b - a;

fn letter(c int) bool;
fn digit(c int) bool;
axiom letter_ascii(c int) {letter(c)}: c < 128 ==> (letter(c) <==> 65 <= c && c <= 90 || 97 <= c && c <= 122);
axiom digit_ascii(c int) {digit(c)}: c < 128 ==> (digit(c) <==> 48 <= c && c <= 57);
extern unicode.IsLetter(r) { ensures result == letter(r); }
extern unicode.IsDigit(r) { ensures result == digit(r); }

macro T(s) = textOf(s.st);
macro cpos(s) = (s.srcBufOffset + s.srcPos - s.lastCharLen); // where the character read last begins
macro npos(s) = (s.srcBufOffset + s.srcPos);                 // where the next one begins
macro tbeg(s) = (s.srcBufOffset + s.tokPos - len(s.tokBuf.str)); // where the token text begins
macro bufOK(s) = (s != nil && s.src != nil && s.st == srcOf(s.src) && s.IsIdentRune == nil && s.Error != nil && s.tk != nil
  && 0 <= s.srcPos && s.srcPos <= s.srcEnd && s.srcEnd <= 1024 && s.srcBuf[s.srcEnd] == 128
  && win(T(s), s.srcBuf, s.srcBufOffset, s.srcEnd) && s.src.at == s.srcBufOffset + s.srcEnd
  && -1 <= s.tokPos && s.tokPos <= s.srcPos
  && (s.tokPos >= 0 ==> tbeg(s) >= 0 && s.tokBuf.str == ssub(T(s), tbeg(s), s.srcBufOffset + s.tokPos)));
macro nextOK(s) = (bufOK(s) && 0 <= s.lastCharLen && s.lastCharLen <= s.srcPos && s.tokPos <= s.srcPos - s.lastCharLen && charsOK(s));
// characters the scanner does not accept, wherever they are
macro charBad(t, i) = (chr(t, i) == 0 || chr(t, i) == 65533 && cw(t, i) == 1);
def [level 2] valid(t string, i int) bool = chr(t, i) < 0 || !charBad(t, i) && valid(t, i + cw(t, i));
macro charsOK(s) = (s.tk.err == nil ==> valid(T(s), 0) == valid(T(s), npos(s)));
locset Next_(s) = s.srcBuf, s.srcPos, s.srcEnd, s.srcBufOffset, s.line, s.column, s.lastLineLen, s.lastCharLen, s.tokBuf.str, s.tokPos, s.tokEnd, s.ErrorCount, s.tk.err, s.src.at;

fieldfn scanner.Scanner.Error(f, s, msg) {
  link s.tk;
  modifies s.tk.err;
  ensures s.tk.err != nil;
}
extern fmt.Sprintf(f, a) { }
extern fmt.Fprintf(w, f, a) (n, err) { requires false; }

contract scanner.(*Scanner).error(s, msg) {
  tags C02; layer C02;
  requires s != nil && s.Error != nil && s.tk != nil;
  modifies s.tokEnd, s.ErrorCount, s.tk.err;
  ensures s.tk.err != nil;
}
contract scanner.(*Scanner).next(s) {
  tags C02; layer C02;
  requires bufOK(s) && charsOK(s);
  modifies Next_(s);
  invariant [buf] bufOK(s) && charsOK(s);
  invariant [pos] npos(s) == old(npos(s));
  invariant [tok] (s.tokPos >= 0 <==> old(s.tokPos) >= 0) && (s.tokPos >= 0 ==> tbeg(s) == old(tbeg(s)));
  invariant [err] s.tk.err == nil ==> old(s.tk.err) == nil;
  measure len(T(s)) - s.src.at;
  ensures [inv] nextOK(s);
  ensures [char] result == chr(T(s), old(npos(s)));
  ensures [pos] cpos(s) == old(npos(s)) && s.lastCharLen == cw(T(s), old(npos(s)));
  ensures [tok] (s.tokPos >= 0 <==> old(s.tokPos) >= 0) && (s.tokPos >= 0 ==> tbeg(s) == old(tbeg(s)));
  ensures [err] s.tk.err == nil ==> old(s.tk.err) == nil;
}

fieldfn scanner.Scanner.IsIdentRune(f, ch, i) { requires false; }
fn bitAt(x int, n int) bool;
axiom ws_bits(n int) {bitAt(4294977024, n)}: bitAt(4294977024, n) <==> n == 9 || n == 10 || n == 13 || n == 32;
fn shl(x int, n int) int;
axiom shl_one(n int) {shl(1, n)}: 0 <= n && n < 64 ==> shl(1, n) > 0;

// where the tokens of a text end
macro isWs(c) = (c == 9 || c == 10 || c == 13 || c == 32);
macro idStart(c) = (c == '_' || letter(c));
macro idPart(c) = (c == '_' || letter(c) || digit(c));
macro dec10(c) = (48 <= c && c <= 57);
macro digv(c) = (cond { 48 <= c && c <= 57 -> c - 48; 97 <= c && c <= 102 -> c - 87; 65 <= c && c <= 70 -> c - 55; else -> 16 });
def [level 2] idEnd(t string, i int) int = idPart(chr(t, i)) ? idEnd(t, i + cw(t, i)) : i;
def [level 2] digEnd(t string, i int) int = dec10(chr(t, i)) || chr(t, i) == '_' ? digEnd(t, i + cw(t, i)) : i;
def numEnd(t string, i int) int = let j = digEnd(t, i) in chr(t, j) == '.' ? digEnd(t, j + 1) : j;
def [level 2] digsEnd(t string, i int, base int, n int) int = n > 0 && digv(chr(t, i)) < base ? digsEnd(t, i + cw(t, i), base, n - 1) : i;
def escEnd(t string, i int, q int) int = let c = chr(t, i) in cond {
  c == 'a' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 'v' || c == '\\' || c == q -> i + cw(t, i);
  48 <= c && c <= 55 -> digsEnd(t, i, 8, 3);
  c == 'x' -> digsEnd(t, i + 1, 16, 2);
  c == 'u' -> digsEnd(t, i + 1, 16, 4);
  c == 'U' -> digsEnd(t, i + 1, 16, 8);
  else -> i };
def [level 2] strStop(t string, i int, q int) int = let c = chr(t, i) in cond {
  c == q || c == 10 || c < 0 -> i;
  c == '\\' -> strStop(t, escEnd(t, i + 1, q), q);
  else -> strStop(t, i + cw(t, i), q) };
def [level 2] rawStop(t string, i int) int = let c = chr(t, i) in c == '`' || c < 0 ? i : rawStop(t, i + cw(t, i));
def [level 2] lineEnd(t string, i int) int = let c = chr(t, i) in c == 10 || c < 0 ? i : lineEnd(t, i + cw(t, i));
def [level 2] blockEnd(t string, i int) int = let c = chr(t, i) in cond {
  c < 0 -> i;
  c == '*' && chr(t, i + 1) == '/' -> i + 2;
  else -> blockEnd(t, i + cw(t, i)) };
// what the scanner reports as an error
def [level 2] digsBad(t string, i int, base int, n int) bool = n > 0 && (digv(chr(t, i)) >= base || digsBad(t, i + cw(t, i), base, n - 1));
def escBad(t string, i int, q int) bool = let c = chr(t, i) in cond {
  c == 'a' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 'v' || c == '\\' || c == q -> false;
  48 <= c && c <= 55 -> digsBad(t, i, 8, 3);
  c == 'x' -> digsBad(t, i + 1, 16, 2);
  c == 'u' -> digsBad(t, i + 1, 16, 4);
  c == 'U' -> digsBad(t, i + 1, 16, 8);
  else -> true };
def [level 2] strBad(t string, i int, q int) bool = let c = chr(t, i) in cond {
  c == q -> false;
  c == 10 || c < 0 -> true;
  c == '\\' -> escBad(t, i + 1, q) || strBad(t, escEnd(t, i + 1, q), q);
  else -> strBad(t, i + cw(t, i), q) };
def [level 2] rawBad(t string, i int) bool = let c = chr(t, i) in c != '`' && (c < 0 || rawBad(t, i + cw(t, i)));
def [level 2] blockBad(t string, i int) bool = let c = chr(t, i) in cond {
  c < 0 -> true;
  c == '*' && chr(t, i + 1) == '/' -> false;
  else -> blockBad(t, i + cw(t, i)) };
def comBad(t string, i int) bool = chr(t, i) != '/' && blockBad(t, i + 1);
def [level 2] gapBad(t string, i int) bool = cond {
  isWs(chr(t, i)) -> gapBad(t, i + 1);
  isCom(t, i) -> comBad(t, i + 1) || gapBad(t, comEnd(t, i + 1));
  else -> false };
def litBad(t string, o int) bool = let c = chr(t, o) in cond {
  c == 34 || c == 39 -> strBad(t, o + 1, c);
  c == '`' -> rawBad(t, o + 1);
  else -> false };
def comEnd(t string, i int) int = chr(t, i) == '/' ? lineEnd(t, i + 1) : blockEnd(t, i + 1);
macro isCom(t, i) = (chr(t, i) == '/' && (chr(t, i + 1) == '/' || chr(t, i + 1) == '*'));
// white space and comments
def [level 2] gapEnd(t string, i int) int = cond {
  isWs(chr(t, i)) -> gapEnd(t, i + 1);
  isCom(t, i) -> gapEnd(t, comEnd(t, i + 1));
  else -> i };
def lexKind(t string, o int) int = let c = chr(t, o) in cond {
  idStart(c) -> -2;
  dec10(c) -> (chr(t, digEnd(t, o)) == '.' ? -4 : -3);
  c == 34 -> -6; c == 39 -> -5; c == '`' -> -7;
  else -> c };
def lexEnd(t string, o int) int = let c = chr(t, o) in cond {
  idStart(c) -> idEnd(t, o + cw(t, o));
  dec10(c) -> numEnd(t, o);
  c == 34 || c == 39 -> (let j = strStop(t, o + 1, c) in j + cw(t, j));
  c == '`' -> (let j = rawStop(t, o + 1) in j + cw(t, j));
  else -> o + cw(t, o) };

// every step of the scanner
shape lexFn(s) {
  tags C02; layer C02;
  requires nextOK(s);
  modifies Next_(s);
  invariant [inv] nextOK(s);
  invariant [fwd] cpos(s) >= old(cpos(s));
  invariant [tok] (s.tokPos >= 0 <==> old(s.tokPos) >= 0) && (s.tokPos >= 0 ==> tbeg(s) == old(tbeg(s)));
  invariant [err] s.tk.err == nil ==> old(s.tk.err) == nil;
  measure len(T(s)) - cpos(s);
  measure len(T(s)) - npos(s);
  invariant [nfwd] npos(s) >= old(npos(s));
  ensures [inv] nextOK(s);
  ensures [fwd] cpos(s) >= old(cpos(s));
  ensures [tok] (s.tokPos >= 0 <==> old(s.tokPos) >= 0) && (s.tokPos >= 0 ==> tbeg(s) == old(tbeg(s)));
  ensures [err] s.tk.err == nil ==> old(s.tk.err) == nil;
}
macro look(s, c) = (c == chr(T(s), cpos(s)) && s.lastCharLen == cw(T(s), cpos(s)) && cpos(s) <= len(T(s)));

contract scanner.(*Scanner).scanIdentifier(s) { use lexFn;
  template (c rune) look(s, c);
  invariant [end] idEnd(T(s), old(npos(s))) == idEnd(T(s), cpos(s));
  invariant [nend] idEnd(T(s), old(npos(s))) == idEnd(T(s), npos(s)); // when the next character is read within the loop
  invariant [step] cpos(s) >= old(npos(s));
  ensures [look] look(s, result);
  ensures [step] cpos(s) >= old(npos(s));
  ensures [end] cpos(s) == idEnd(T(s), old(npos(s)));
}
contract scanner.(*Scanner).digits(s, ch0, base, invalid) (c, sep) { use lexFn;
  requires look(s, ch0) && base == 10 && invalid != nil && *invalid == 0;
  modifies cell(invalid);
  template (c rune) look(s, c);
  invariant [end] digEnd(T(s), old(cpos(s))) == digEnd(T(s), cpos(s));
  invariant [valid] *invalid == 0;
  template (c rune) cpos(s) > old(cpos(s)) || c == ch0;
  ensures [look] look(s, c);
  ensures [valid] *invalid == 0;
  ensures [end] cpos(s) == digEnd(T(s), old(cpos(s)));
  ensures [step] dec10(ch0) ==> cpos(s) > old(cpos(s));
}
contract scanner.(*Scanner).scanNumber(s, ch, seenDot) (tok, c) { use lexFn;
  requires look(s, ch) && dec10(ch) && !seenDot && modeOK(s);
  ensures [look] look(s, c);
  ensures [kind] tok == (chr(T(s), digEnd(T(s), old(cpos(s)))) == '.' ? -4 : -3);
  ensures [end] cpos(s) == numEnd(T(s), old(cpos(s))) && cpos(s) > old(cpos(s));
}
macro modeOK(s) = (s.Mode == scanner.GoTokens && s.Whitespace == 4294977024);
contract scanner.(*Scanner).scanDigits(s, ch, base, n) { use lexFn;
  requires look(s, ch) && 0 <= n && base <= 16;
  template (c rune) look(s, c);
  template [C02] (m int) m >= 0 && digsEnd(T(s), old(cpos(s)), base, n) == digsEnd(T(s), cpos(s), base, m);
  ensures [look] look(s, result);
  template [C02] (m int) s.tk.err == nil ==> digsBad(T(s), old(cpos(s)), base, n) == digsBad(T(s), cpos(s), base, m);
  ensures [bad] s.tk.err == nil ==> !digsBad(T(s), old(cpos(s)), base, n);
  ensures [end] cpos(s) == digsEnd(T(s), old(cpos(s)), base, n);
}
contract scanner.(*Scanner).scanEscape(s, quote) { use lexFn;
  ensures [look] look(s, result);
  ensures [bad] s.tk.err == nil ==> !escBad(T(s), old(npos(s)), quote);
  ensures [end] cpos(s) == escEnd(T(s), old(npos(s)), quote) && cpos(s) >= old(npos(s));
}
contract scanner.(*Scanner).scanString(s, quote) (n) { use lexFn;
  requires quote == 34 || quote == 39;
  template (c rune) look(s, c);
  invariant [end] strStop(T(s), old(npos(s)), quote) == strStop(T(s), cpos(s), quote);
  ensures [look] s.lastCharLen == cw(T(s), cpos(s)) && cpos(s) <= len(T(s));
  ensures [end] cpos(s) == strStop(T(s), old(npos(s)), quote);
  invariant [bad] s.tk.err == nil ==> strBad(T(s), old(npos(s)), quote) == strBad(T(s), cpos(s), quote);
  ensures [bad] s.tk.err == nil ==> !strBad(T(s), old(npos(s)), quote);
}
contract scanner.(*Scanner).scanRawString(s) { use lexFn;
  template (c rune) look(s, c);
  invariant [end] rawStop(T(s), old(npos(s))) == rawStop(T(s), cpos(s));
  invariant [nend] rawStop(T(s), old(npos(s))) == rawStop(T(s), npos(s));
  invariant [nbad] rawBad(T(s), old(npos(s))) == rawBad(T(s), npos(s));
  ensures [look] s.lastCharLen == cw(T(s), cpos(s)) && cpos(s) <= len(T(s));
  ensures [end] cpos(s) == rawStop(T(s), old(npos(s)));
  invariant [bad] rawBad(T(s), old(npos(s))) == rawBad(T(s), cpos(s));
  ensures [bad] s.tk.err == nil ==> !rawBad(T(s), old(npos(s)));
}
contract scanner.(*Scanner).scanComment(s, ch) { use lexFn;
  requires look(s, ch) && (ch == '/' || ch == '*');
  template (c rune) look(s, c);
  invariant [end] comEnd(T(s), old(cpos(s))) == (chr(T(s), old(cpos(s))) == '/' ? lineEnd(T(s), cpos(s)) : blockEnd(T(s), cpos(s)));
  invariant [nend] comEnd(T(s), old(cpos(s))) == (chr(T(s), old(cpos(s))) == '/' ? lineEnd(T(s), npos(s)) : blockEnd(T(s), npos(s)));
  ensures [look] look(s, result);
  invariant [bad] comBad(T(s), old(cpos(s))) == (chr(T(s), old(cpos(s))) != '/' && blockBad(T(s), cpos(s)));
  ensures [bad] s.tk.err == nil ==> !comBad(T(s), old(cpos(s)));
  ensures [end] cpos(s) == comEnd(T(s), old(cpos(s)));
}

// the raw tokens of a text: the gap before one begins where the one before it ends
fn cut(st Src, p int) int;
fn nx(st Src, p int) int;
def bom(t string) int = chr(t, 0) == 65279 ? cw(t, 0) : 0;
axiom raw(st Src, p int) {cut(st, p)}: p >= 0 ==> cut(st, p) == (p == 0 ? bom(textOf(st)) : nx(st, p - 1)) && ro(st, p) == gapEnd(textOf(st), cut(st, p))
  && rk(st, p) == lexKind(textOf(st), ro(st, p)) && nx(st, p) == lexEnd(textOf(st), ro(st, p)) && rt(st, p) == ssub(textOf(st), ro(st, p), nx(st, p))
  && (rbad(st, p) <==> gapBad(textOf(st), cut(st, p)) || litBad(textOf(st), ro(st, p)) || rk(st, p) == -1 && !valid(textOf(st), 0));
macro scanOK(s) = (nextOK(s) && modeOK(s) && s.p >= 0
  && (s.ch == -2 ? s.p == 0 && npos(s) == 0 && s.tokPos == -1 : s.p > 0 && look(s, s.ch) && cpos(s) == nx(s.st, s.p - 1)));
// the scanner holds the text of the token read last
macro textOK(s) = (s.p > 0 && s.tokPos >= 0 && tbeg(s) == ro(s.st, s.p - 1) && s.tokEnd == s.srcPos - s.lastCharLen && rt(s.st, s.p - 1) == ssub(T(s), tbeg(s), cpos(s)));

contract scanner.(*Scanner).Init(s, src) {
  tags C02; layer C02;
  requires s != nil && src != nil;
  requires [C02] src.at == 0;
  modifies s.*;
  ensures s.st == srcOf(src) && s.p == 0 && s.src == src;
  ensures [src C02] s.srcPos == 0 && s.srcEnd == 0 && s.srcBufOffset == 0 && s.lastCharLen == 0 && s.srcBuf[0] == 128;
  ensures [start C02] s.tokPos == -1 && s.ch == -2 && modeOK(s) && s.IsIdentRune == old(s.IsIdentRune);
  sets s.st = srcOf(src);
  sets s.p = 0;
}
contract scanner.(*Scanner).Scan(s) {
  split;
  tags C02; layer C02;
  requires [C02] scanOK(s);
  modifies Scan_(s), s.tk.err;
  template (c rune) look(s, c);
  invariant [inv] nextOK(s) && modeOK(s) && s.tokPos == -1;
  invariant [gap] gapEnd(T(s), cut(s.st, s.p)) == gapEnd(T(s), cpos(s)) && cpos(s) >= cut(s.st, s.p);
  invariant [err] s.tk.err == nil ==> old(s.tk.err) == nil;
  invariant [bad] s.tk.err == nil ==> gapBad(T(s), cut(s.st, s.p)) == gapBad(T(s), cpos(s));
  measure len(T(s)) - cpos(s);
  ensures s.tk.err == nil ==> old(s.tk.err) == nil && !rbad(s.st, old(s.p));
  ensures result == rk(s.st, old(s.p)) && s.p == old(s.p) + 1;
  ensures s.Offset == ro(s.st, old(s.p));
  ensures [inv C02] scanOK(s);
  ensures [text C02] textOK(s);
  ensures [order C02] cut(s.st, old(s.p)) <= s.Offset && s.Offset <= cpos(s) && (result != -1 ==> s.Offset < cpos(s));
  sets s.p = old(s.p) + 1;
}
contract scanner.(*Scanner).TokenText(s) {
  tags C02; layer C02;
  requires [C02] scanOK(s) && textOK(s);
  modifies s.tokPos, s.tokEnd, s.tokBuf.str;
  ensures s.p > 0 ==> result == rt(s.st, s.p - 1);
  ensures [inv C02] scanOK(s) && textOK(s);
}
