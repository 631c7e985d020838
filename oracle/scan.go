package main

import (
	"io"
	"strings"

	gq "github.com/mmadfox/go-geoql-parser"
	"github.com/mmadfox/go-geoql-parser/scanner"
)

// reader gives the bytes in pieces of the sizes sz (cycled); eofWith returns io.EOF with the last bytes;
// empty reads are mixed in.
type reader struct {
	s       string
	sz      []int
	i       int
	eofWith bool
}

func (r *reader) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := r.sz[r.i%len(r.sz)]
	r.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.s) {
		n = len(r.s)
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.s == "" && r.eofWith {
		return n, io.EOF
	}
	return n, nil
}

func (g *g) reader(s string) io.Reader {
	r := &reader{s: s, eofWith: g.p(1, 2)}
	switch g.n(4) {
	case 0:
		r.sz = []int{1}
	case 1:
		r.sz = []int{1 << 20}
	case 2:
		r.sz = []int{1 + g.n(7), 0, 1 + g.n(3)}
	default:
		r.sz = []int{1 + g.n(1100), 1 + g.n(30)}
	}
	return r
}

// text: a source of random lexemes; long ones cross the scanner's buffer.
func (g *g) lexText() string {
	var b strings.Builder
	k := g.n(25)
	if g.p(1, 4) {
		k = 100 + g.n(300)
	}
	if g.p(1, 3) {
		b.WriteString(strings.Repeat(g.of(" ", "\n", "a ", "é "), 900+g.n(300)))
	}
	for i := 0; i < k; i++ {
		switch g.n(14) {
		case 0:
			b.WriteString(g.name())
		case 1:
			_, t := g.num()
			b.WriteString(t)
		case 2:
			b.WriteString(`"` + g.strVal() + `"`)
		case 3:
			b.WriteString(g.of(" // c\n", "/* x */", "/**/", "/***/", "/* / */", "/*\n*/", "//\n"))
		case 4:
			if g.p(1, 6) {
				b.WriteString(strings.Repeat(g.of("x", "é", "日", "7"), g.n(1500)))
			}
		case 5:
			b.WriteString(g.of("é", "日本", "𝒳", "µ", "…", "\u00a0", "①", "\uFEFF", "€"))
		case 6, 7:
			b.WriteString(g.of("not in", "not  eq", "NOT nearby", "not\nintersects", "not foo", "not not in", "not 1", "not =", "not"))
		case 8, 9:
			b.WriteString(g.of("==", "!=", ">=", "<=", "..", "=", "!", ">", "<", ".", "= =", "> =", "...", "===", "!==", "1..2", ".5", "1.", "<>", "=>", ". .", "5.5.5"))
		default:
			b.WriteString(randCase(g.r, g.of(tokenPool...)))
		}
		b.WriteString(g.of("", " ", " ", "\n", "\t", "\r\n"))
	}
	return b.String()
}

func c02(c *ctx) {
	g := c.rnd()
	src := g.lexText()
	want, ok := lexAll(src)
	if !ok {
		return
	}
	c.note(src)
	var s scanner.Scanner
	s.Init(g.reader(src))
	var serr string
	s.Error = func(_ *scanner.Scanner, m string) { serr = m }
	end := 0
	for i := 0; ; i++ {
		r := s.Scan()
		tx := s.TokenText()
		if g.p(1, 3) && s.TokenText() != tx {
			failf("the text of token %d changes when asked for twice\nsource:\n%q", i, src)
		}
		if serr != "" {
			failf("the scanner reports %q\nsource:\n%q", serr, src)
		}
		if i >= len(want) {
			failf("more tokens than the source has: %q\nsource:\n%q", tx, src)
		}
		w := want[i]
		if s.Offset != w.off || tx != w.text {
			failf("token %d is %q at %d, expected %q at %d\nsource:\n%q", i, tx, s.Offset, w.text, w.off, src)
		}
		if s.Offset < end || s.Offset+len(tx) > len(src) || src[s.Offset:s.Offset+len(tx)] != tx {
			failf("token %d %q is not the source at its offset %d\nsource:\n%q", i, tx, s.Offset, src)
		}
		end = s.Offset + len(tx)
		kinds := map[string]rune{"ident": scanner.Ident, "int": scanner.Int, "float": scanner.Float, "string": scanner.String, "char": scanner.Char, "raw": scanner.RawString, "eof": scanner.EOF}
		k, special := kinds[w.kind]
		if w.kind == "rune" {
			k, special = w.ch, true
		}
		if special && r != k {
			failf("token %d %q has kind %d, expected %d\nsource:\n%q", i, tx, r, k, src)
		}
		if w.kind == "eof" {
			break
		}
	}
	if s.Scan() != scanner.EOF {
		failf("a token after the end\nsource:\n%q", src)
	}
}

func c03(c *ctx) {
	g := c.rnd()
	src := g.lexText()
	if g.p(1, 4) {
		src = g.source(g.stmt(2))
	}
	ls, ok := lexAll(src)
	if !ok {
		return
	}
	want := refTokens(ls)
	c.note(src)
	t := gq.NewTokenizer(g.reader(src))
	for i := range want {
		tok, lit := t.Scan()
		if tok != want[i].tok || want[i].lit != "" && lit != want[i].lit {
			failf("token %d is %d %q, expected %d %q\nsource:\n%q", i, tok, lit, want[i].tok, want[i].lit, src)
		}
		// asked to deliver again
		if g.p(1, 20) && !peeks(want[i]) {
			switch g.n(2) {
			case 0:
				t.Reset()
				t2, l2 := t.Scan()
				if t2 != tok && want[i].lit != "" && !strings.HasPrefix(want[i].lit, "not ") || l2 != lit && !strings.HasPrefix(want[i].lit, "not ") {
					failf("token %d %q is delivered again as %d %q\nsource:\n%q", i, lit, t2, l2, src)
				}
				if strings.HasPrefix(want[i].lit, "not ") {
					return
				}
			case 1:
				t.Unwind()
			}
		}
	}
	for k := 0; k < 3; k++ {
		if tok, _ := t.Scan(); tok != gq.EOF {
			failf("token %d after the end\nsource:\n%q", tok, src)
		}
	}
}

// peeks: reading this token reads one more lexeme.
func peeks(t refTok) bool {
	switch t.tok {
	case gq.PERIOD, gq.ASSIGN, gq.GTR, gq.LSS, gq.RANGE, gq.LEQL, gq.LNEQ, gq.GEQ, gq.LEQ:
		return true
	}
	return t.lit == "!"
}

func c13(c *ctx) {
	g := c.rnd()
	var src string
	var at = -1
	if int(c.k) < len(fixed) {
		src = fixed[c.k].src
	} else if g.p(1, 2) {
		toks := g.tokens(g.stmt(g.n(4)))
		i := g.n(len(toks))
		if strings.EqualFold(toks[i], "not") {
			i = 0
		}
		head, tail := g.join(toks[:i])+" ", " "+g.join(toks[i:])
		if !strings.HasSuffix(head, "=  ") {
			src, at = head+"$"+tail, len(head)
		} else {
			src = head + "$" + tail
		}
		if i > 0 && strings.EqualFold(toks[i-1], "not") || i > 1 && strings.EqualFold(toks[i-2], "not") {
			at = -1
		}
	} else if g.p(1, 2) {
		src = g.join(g.mutate(g.tokens(g.stmt(g.n(4)))))
	} else {
		src = g.soup()
	}
	_, err := parse(c, src)
	if err == nil {
		return
	}
	e, ok := err.(*gq.Error)
	if !ok || e == nil {
		failf("the error is no *Error: %T %v\nsource:\n%q", err, err, src)
	}
	if e.Offset < 0 || e.Offset > len(src) {
		failf("the offset %d is outside the source\nsource:\n%q", e.Offset, src)
	}
	if e.Msg != src[:e.Offset] {
		failf("the message is not the source up to the offset %d: %q\nsource:\n%q", e.Offset, e.Msg, src)
	}
	if !strings.HasPrefix(src[e.Offset:], e.Lit) {
		failf("the text %q is not at the offset %d\nsource:\n%q", e.Lit, e.Offset, src)
	}
	if !strings.Contains(e.Error(), "syntax error") {
		failf("the message does not say syntax error: %q\nsource:\n%q", e.Error(), src)
	}
	ls, lok := lexAll(src)
	if lok {
		found := false
		for _, l := range ls {
			if l.off == e.Offset {
				found = l.text == e.Lit
			}
		}
		if !found {
			failf("the error is at offset %d with text %q, where no such token starts\nsource:\n%q", e.Offset, e.Lit, src)
		}
		if at >= 0 && e.Offset != at {
			failf("parsing stopped at the token at %d, but the error says %d %q\nsource:\n%q", at, e.Offset, e.Lit, src)
		}
	}
}
