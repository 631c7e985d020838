package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	gq "github.com/mmadfox/go-geoql-parser"
)

// lexeme of the source: kind, text and byte offset, by an independent scanner.
type lexeme struct {
	kind string // ident int float string char raw rune eof
	ch   rune
	text string
	off  int
	bad  bool // the scanner reports an error for it
}

const goSpace = "\t\n\r "

// lexAll splits src.  ok is false when the source holds something the reference does not define
// (bad UTF-8, NUL, unterminated literals, bad escapes).
func lexAll(src string) (out []lexeme, ok bool) {
	ok = true
	i := 0
	if strings.HasPrefix(src, "\uFEFF") {
		i = 3
	}
	if !utf8.ValidString(src) || strings.Contains(src, "\x00") {
		return nil, false
	}
	at := func(k int) rune {
		if k >= len(src) {
			return -1
		}
		r, _ := utf8.DecodeRuneInString(src[k:])
		return r
	}
	for {
		for i < len(src) && strings.IndexByte(goSpace, src[i]) >= 0 {
			i++
		}
		if i >= len(src) {
			out = append(out, lexeme{kind: "eof", off: len(src)})
			return
		}
		st := i
		r := at(i)
		put := func(kind string, end int) {
			out = append(out, lexeme{kind: kind, ch: r, text: src[st:end], off: st})
			i = end
		}
		switch {
		case r == '_' || unicode.IsLetter(r):
			for i < len(src) && (at(i) == '_' || unicode.IsLetter(at(i)) || unicode.IsDigit(at(i))) {
				i += utf8.RuneLen(at(i))
			}
			put("ident", i)
		case '0' <= r && r <= '9':
			dig := func() {
				for i < len(src) && (src[i] >= '0' && src[i] <= '9' || src[i] == '_') {
					i++
				}
			}
			dig()
			if i < len(src) && src[i] == '.' {
				i++
				dig()
				put("float", i)
			} else {
				put("int", i)
			}
		case r == '"' || r == '\'':
			i++
			n := 0
			for i < len(src) && at(i) != r && src[i] != '\n' {
				if src[i] == '\\' {
					if i+1 >= len(src) {
						return out, false
					}
					e := rune(src[i+1])
					if strings.IndexByte(`abfnrtv\`, src[i+1]) >= 0 || e == r {
						i += 2
					} else {
						k := map[byte]int{'x': 2, 'u': 4, 'U': 8}[src[i+1]]
						j := i + 2
						base := "0123456789abcdefABCDEF"
						if k == 0 {
							if src[i+1] < '0' || src[i+1] > '7' {
								return out, false
							}
							k, j, base = 3, i+1, "01234567"
						}
						for x := 0; x < k; x++ {
							if j >= len(src) || strings.IndexByte(base, src[j]) < 0 {
								return out, false
							}
							j++
						}
						i = j
					}
				} else {
					i += utf8.RuneLen(at(i))
				}
				n++
			}
			if i >= len(src) || at(i) != r {
				return out, false
			}
			if r == '\'' {
				if n != 1 {
					return out, false
				}
				put("char", i+1)
			} else {
				put("string", i+1)
			}
		case r == '`':
			k := strings.IndexByte(src[i+1:], '`')
			if k < 0 {
				return out, false
			}
			put("raw", i+1+k+1)
		case r == '/' && at(i+1) == '/':
			k := strings.IndexByte(src[i:], '\n')
			if k < 0 {
				i = len(src)
			} else {
				i += k
			}
		case r == '/' && at(i+1) == '*':
			k := strings.Index(src[i+2:], "*/")
			if k < 0 {
				return out, false
			}
			i += 2 + k + 2
		default:
			put("rune", i+utf8.RuneLen(r))
		}
	}
}

type refTok struct {
	tok gq.Token
	lit string
}

var words = map[string]gq.Token{"trigger": gq.TRIGGER, "set": gq.SET, "when": gq.WHEN, "repeat": gq.REPEAT, "reset": gq.RESET,
	"rem": gq.REM, "mod": gq.REM, "or": gq.OR, "and": gq.AND, "eq": gq.EQL, "in": gq.IN, "range": gq.RANGE, "nearby": gq.NEARBY,
	"intersects": gq.INTERSECTS, "time": gq.TIME, "date": gq.DATE, "weekday": gq.WEEKDAY, "month": gq.MONTH,
	"point": gq.GEOMETRY_POINT, "multipoint": gq.GEOMETRY_MULTIPOINT, "line": gq.GEOMETRY_LINE, "multiline": gq.GEOMETRY_MULTILINE,
	"polygon": gq.GEOMETRY_POLYGON, "multipolygon": gq.GEOMETRY_MULTIPOLYGON, "collection": gq.GEOMETRY_COLLECTION,
	"true": gq.BOOLEAN, "false": gq.BOOLEAN, "up": gq.BOOLEAN, "down": gq.BOOLEAN}

var negated = map[string]gq.Token{"eq": gq.NOT_EQ, "in": gq.NOT_IN, "nearby": gq.NOT_NEARBY, "intersects": gq.NOT_INTERSECTS}

var single = map[rune]gq.Token{'@': gq.IDENT, ';': gq.SEMICOLON, ',': gq.COMMA, '(': gq.LPAREN, ')': gq.RPAREN, ']': gq.RBRACK,
	'[': gq.LBRACK, '{': gq.LBRACE, '}': gq.RBRACE, '/': gq.QUO, '+': gq.ADD, '-': gq.SUB, '*': gq.MUL, ':': gq.COLON,
	'.': gq.PERIOD, '=': gq.ASSIGN, '!': gq.ILLEGAL, '>': gq.GTR, '<': gq.LSS}

type twoChar struct {
	a, b rune
	tok  gq.Token
	lit  string
}

var twos = []twoChar{{'.', '.', gq.RANGE, ""}, {'=', '=', gq.LEQL, "=="}, {'!', '=', gq.LNEQ, "!="}, {'>', '=', gq.GEQ, ">="}, {'<', '=', gq.LEQ, "<="}}

// refTokens classifies the lexemes (the last is EOF).  n[i] is the number of lexemes read for token i,
// look-ahead included.
func refTokens(ls []lexeme) (out []refTok) {
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		low := strings.ToLower(l.text)
		switch l.kind {
		case "eof":
			out = append(out, refTok{gq.EOF, ""})
			return
		case "int":
			out = append(out, refTok{gq.INT, low})
		case "float":
			out = append(out, refTok{gq.FLOAT, low})
		case "string":
			out = append(out, refTok{gq.STRING, low})
		case "ident":
			if low == "not" {
				nx := ls[i+1]
				nl := strings.ToLower(nx.text)
				tok, lit := gq.ILLEGAL, "not "+nl
				if t, ok := negated[nl]; ok && nx.kind == "ident" {
					tok = t
				}
				out = append(out, refTok{tok, lit})
				i++
				if nx.kind == "eof" {
					out = append(out, refTok{gq.EOF, ""})
					return
				}
				continue
			}
			if t, ok := words[low]; ok {
				out = append(out, refTok{t, low})
			} else {
				out = append(out, refTok{gq.SELECTOR, low})
			}
		case "rune":
			done := false
			for _, w := range twos {
				if l.ch == w.a && ls[i+1].kind == "rune" && ls[i+1].ch == w.b {
					out = append(out, refTok{w.tok, w.lit})
					i++
					done = true
					break
				}
			}
			if done {
				continue
			}
			if t, ok := single[l.ch]; ok {
				out = append(out, refTok{t, low})
			} else {
				out = append(out, refTok{gq.ILLEGAL, low})
			}
		default: // char, raw
			out = append(out, refTok{gq.ILLEGAL, low})
		}
	}
	return
}
