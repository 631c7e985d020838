package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	gq "github.com/mmadfox/go-geoql-parser"
)

// tokens writes a statement as a list of lexemes (a lexeme may contain inner space that the grammar allows).
func (g *g) tokens(t *gq.Trigger) []string {
	var out []string
	kw := func(s string) { out = append(out, randCase(g.r, s)) }
	if len(t.Vars) > 0 || g.p(7, 8) {
		kw("trigger")
	}
	if len(t.Vars) > 0 {
		kw("set")
		for _, a := range t.Vars {
			out = append(out, a.Left.Val, "=")
			out = append(out, g.exprToks(a.Right)...)
			need := true
			switch a.Right.(type) {
			case *gq.StringTyp, *gq.BooleanTyp, *gq.GeometryPolygonTyp, *gq.WeekdayTyp, *gq.GeometryCollectionTyp, *gq.ParenExpr, *gq.ArrayTyp:
				need = false
			}
			if need || g.p(2, 3) {
				out = append(out, ";")
			}
		}
	}
	kw("when")
	out = append(out, g.exprToks(t.When)...)
	if t.RepeatCount != nil {
		kw("repeat")
		out = append(out, g.exprToks(t.RepeatCount)...)
		if t.RepeatInterval != nil {
			kw("every")
			out = append(out, g.exprToks(t.RepeatInterval)...)
		}
	}
	if t.ResetAfter != nil {
		kw("reset")
		kw("after")
		out = append(out, g.exprToks(t.ResetAfter)...)
	}
	return out
}

var opWords = map[gq.Token][]string{gq.OR: {"or"}, gq.AND: {"and"}, gq.LSS: {"<"}, gq.LEQ: {"<="}, gq.GTR: {">"}, gq.GEQ: {">="},
	gq.EQL: {"eq"}, gq.LEQL: {"=="}, gq.LNEQ: {"!="}, gq.NOT_EQ: {"not eq"}, gq.IN: {"in"}, gq.NOT_IN: {"not in"},
	gq.NEARBY: {"nearby"}, gq.NOT_NEARBY: {"not nearby"}, gq.INTERSECTS: {"intersects"}, gq.NOT_INTERSECTS: {"not intersects"},
	gq.ADD: {"+"}, gq.SUB: {"-"}, gq.MUL: {"*"}, gq.QUO: {"/"}, gq.REM: {"rem", "mod"}}

func (g *g) opToks(op gq.Token) []string {
	w := g.of(opWords[op]...)
	if strings.HasPrefix(w, "not ") {
		return []string{randCase(g.r, "not"), randCase(g.r, w[4:])}
	}
	return []string{randCase(g.r, w)}
}

func (g *g) fnum(v float64) []string {
	var out []string
	if v < 0 {
		out = append(out, "-")
		v = -v
	}
	t := strconv.FormatFloat(v, 'f', -1, 64)
	if !strings.Contains(t, ".") && g.p(1, 2) {
		t += ".0"
	}
	return append(out, t)
}

func (g *g) coordToks(c [2]float64) []string {
	out := append([]string{"["}, g.fnum(c[0])...)
	out = append(out, ",")
	out = append(out, g.fnum(c[1])...)
	return append(out, "]")
}

func (g *g) coordsToks(cs [][2]float64) []string {
	out := []string{"["}
	for i, c := range cs {
		if i > 0 {
			out = append(out, ",")
		}
		out = append(out, g.coordToks(c)...)
	}
	return append(out, "]")
}

var dayNames = []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}
var monthNames = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

func (g *g) pad(n, w int) string {
	if g.p(1, 4) {
		return strconv.Itoa(n)
	}
	return fmt.Sprintf("%0*d", w, n)
}

func calKind(e gq.Expr) string {
	switch e.(type) {
	case *gq.DateTyp:
		return "date"
	case *gq.TimeTyp:
		return "time"
	case *gq.WeekdayTyp:
		return "weekday"
	case *gq.MonthTyp:
		return "month"
	}
	return ""
}

func (g *g) calItem(e gq.Expr) []string {
	switch t := e.(type) {
	case *gq.DateTyp:
		return []string{g.pad(t.Year, 4), "-", g.pad(t.Month, 2), "-", g.pad(t.Day, 2)}
	case *gq.TimeTyp:
		out := []string{g.pad(t.Hours, 2), ":", g.pad(t.Minutes, 2)}
		if t.Seconds > 0 || g.p(1, 4) {
			out = append(out, ":", g.pad(t.Seconds, 2))
		}
		switch t.U {
		case gq.AM:
			out = append(out, randCase(g.r, "am"))
		case gq.PM:
			out = append(out, randCase(g.r, "pm"))
		}
		if n := len(out); t.U != 0 && g.p(2, 3) {
			out[n-2] += out[n-1]
			out = out[:n-1]
		}
		return out
	case *gq.WeekdayTyp:
		return []string{randCase(g.r, dayNames[t.Val])}
	case *gq.MonthTyp:
		return []string{randCase(g.r, monthNames[t.Val-1])}
	}
	panic("calItem")
}

func (g *g) exprToks(e gq.Expr) []string {
	if t, ok := g.text[e]; ok {
		return []string{t}
	}
	var out []string
	add := func(s ...string) { out = append(out, s...) }
	switch t := e.(type) {
	case *gq.BinaryExpr:
		add(g.exprToks(t.Left)...)
		add(g.opToks(t.Op)...)
		add(g.exprToks(t.Right)...)
	case *gq.ParenExpr:
		add("(")
		add(g.exprToks(t.Expr)...)
		add(")")
	case *gq.Ref:
		add("@", t.ID)
	case *gq.WildcardTyp:
		add("*")
	case *gq.Selector:
		add(randCase(g.r, t.Ident))
		if len(t.Args) > 0 || t.Wildcard && g.p(1, 6) || !t.Wildcard {
			add("{")
			var ids []string
			for k := range t.Args {
				ids = append(ids, `"`+k+`"`)
			}
			sort.Strings(ids)
			g.r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
			if t.Wildcard && (len(ids) > 0 || g.p(1, 2)) {
				at := g.n(len(ids) + 1)
				ids = append(ids[:at], append([]string{"*"}, ids[at:]...)...)
			}
			for i, s := range ids {
				if i > 0 {
					add(",")
				}
				add(s)
			}
			add("}")
		}
		for i, p := range t.Props {
			if i == 0 {
				add(":")
			} else {
				add(",")
			}
			add(g.exprToks(p)...)
		}
	case *gq.Range:
		if k := calKind(t.Low); k != "" {
			add(randCase(g.r, k), "[")
			add(g.calItem(t.Low)...)
			add("..")
			add(g.calItem(t.High)...)
			add("]")
			break
		}
		add(g.exprToks(t.Low)...)
		add("..")
		add(g.exprToks(t.High)...)
	case *gq.ArrayTyp:
		k := calKind(t.List[0])
		if k != "" {
			add(randCase(g.r, k))
		}
		add("[")
		for i, x := range t.List {
			if i > 0 {
				add(",")
			}
			if k != "" {
				add(g.calItem(x)...)
			} else {
				add(g.exprToks(x)...)
			}
		}
		add("]")
	case *gq.DateTyp, *gq.TimeTyp, *gq.WeekdayTyp, *gq.MonthTyp:
		add(randCase(g.r, calKind(e)), "[")
		add(g.calItem(e)...)
		add("]")
	case *gq.GeometryPointTyp:
		add(randCase(g.r, "point"))
		add(g.coordToks(t.Val)...)
		if t.Radius != nil {
			add(":", g.text[t.Radius])
		}
	case *gq.GeometryLineTyp:
		add(randCase(g.r, "line"))
		add(g.coordsToks(t.Val)...)
		if t.Margin != nil {
			add(":", g.text[t.Margin])
		}
	case *gq.GeometryPolygonTyp:
		add(randCase(g.r, "polygon"), "[")
		for i, c := range t.Val {
			if i > 0 {
				add(",")
			}
			add(g.coordsToks(c)...)
		}
		add("]")
	case *gq.GeometryMultiObjectTyp:
		add(randCase(g.r, map[gq.Token]string{gq.GEOMETRY_MULTIPOINT: "multipoint", gq.GEOMETRY_MULTILINE: "multiline", gq.GEOMETRY_MULTIPOLYGON: "multipolygon"}[t.Kind]), "[")
		for i, x := range t.Val {
			if i > 0 {
				add(",")
			}
			add(g.exprToks(x)...)
		}
		add("]")
	case *gq.GeometryCollectionTyp:
		add(randCase(g.r, "collection"), "[")
		for i, x := range t.Objects {
			if i > 0 {
				add(",")
			}
			add(g.exprToks(x)...)
		}
		add("]")
	default:
		panic(fmt.Sprintf("exprToks %T", e))
	}
	return out
}

func wordRune(r rune) bool {
	return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r)
}

// join writes the lexemes with random white space and comments, keeping neighbours apart where they would
// run together.
func (g *g) join(toks []string) string {
	style := g.n(4)
	var b strings.Builder
	space := func() {
		switch {
		case style == 3 && g.p(1, 6):
			b.WriteString(g.of(" // note\n", " /* c */ ", "\n", "\t", "  ", "\r\n", " /* a * b */ ", " /**/ "))
		default:
			b.WriteString(g.of(" ", " ", "\n", "\t"))
		}
	}
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			l, _ := utf8.DecodeLastRuneInString(p)
			f, _ := utf8.DecodeRuneInString(t)
			need := wordRune(l) && wordRune(f) || t == ".." || p == ".." || p == "/" || p == "%" || l == '%' ||
				wordRune(l) && f == '"' || (p == "<" || p == ">" || p == "=") && f == '='
			if need || style != 0 && g.p(1, 2) {
				space()
			}
		}
		b.WriteString(t)
	}
	if style > 0 {
		space()
	}
	return b.String()
}

// source of a statement.
func (g *g) source(t *gq.Trigger) string { return g.join(g.tokens(t)) }
