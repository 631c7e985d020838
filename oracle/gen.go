package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	gq "github.com/mmadfox/go-geoql-parser"
)

// g generates statements.  With src set, every node also gets a source text such that reading it must give
// the node back (texts are stored per node); without it the nodes may be anything well-formed.
type g struct {
	r    *rand.Rand
	big  bool
	text map[any]string // value texts (numbers, strings, units) of leaf nodes
}

func newG(seed int64) *g {
	return &g{r: rand.New(rand.NewSource(seed)), text: map[any]string{}}
}

func (g *g) n(k int) int           { return g.r.Intn(k) }
func (g *g) p(num, den int) bool   { return g.r.Intn(den) < num }
func (g *g) of(s ...string) string { return s[g.r.Intn(len(s))] }

var reserved = map[string]bool{"trigger": true, "set": true, "when": true, "repeat": true, "reset": true, "rem": true,
	"or": true, "and": true, "eq": true, "in": true, "range": true, "nearby": true, "intersects": true, "time": true,
	"date": true, "weekday": true, "month": true, "mod": true, "point": true, "multipoint": true, "line": true,
	"multiline": true, "polygon": true, "multipolygon": true, "collection": true, "true": true, "false": true,
	"up": true, "down": true, "not": true}

func (g *g) name() string {
	if g.p(1, 6) {
		return g.of("tracker_speed", "coord", "x", "n1", "_a", "selector", "somevar", "триггер", "ö2", "timex", "in_", "nota", "ors", "every", "after", "sun", "jan", "e1")
	}
	for {
		k := 1 + g.n(8)
		var b strings.Builder
		const first = "abcdefghijklmnopqrstuvwxyz_"
		const rest = first + "0123456789"
		b.WriteByte(first[g.n(len(first))])
		for i := 1; i < k; i++ {
			b.WriteByte(rest[g.n(len(rest))])
		}
		if s := b.String(); !reserved[s] {
			return s
		}
	}
}

// selName avoids names that a preceding number would take for its unit.
func (g *g) selName() string { return g.name() }

func (g *g) mixName() string {
	s := g.name()
	if g.p(1, 3) {
		return randCase(g.r, s)
	}
	return s
}

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	m := r.Intn(3)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && (m == 1 || m == 2 && r.Intn(2) == 0) {
			b[i] = c - 32
		}
	}
	return string(b)
}

func (g *g) intVal() (int, string) {
	var v int
	switch g.n(6) {
	case 0:
		v = g.n(3)
	case 1:
		v = g.n(100)
	case 2:
		v = g.n(100000)
	case 3:
		v = int(g.r.Int63())
	case 4:
		v = math.MaxInt64
		if g.p(1, 2) {
			v = 1 << uint(g.n(62))
		}
	default:
		v = g.n(12)
	}
	t := strconv.Itoa(v)
	if g.p(1, 12) {
		t = "0" + t
	}
	return v, t
}

func (g *g) floatVal() (float64, string) {
	var t string
	switch g.n(5) {
	case 0:
		t = fmt.Sprintf("%d.%d", g.n(100), g.n(10))
	case 1:
		t = fmt.Sprintf("%d.%d", g.n(3), g.n(1000000))
	case 2:
		t = strconv.FormatFloat(g.r.Float64()*math.Pow(10, float64(g.n(30)-10)), 'f', -1, 64)
	case 3:
		t = fmt.Sprintf("0.%0*d", 1+g.n(12), 1+g.n(9))
	default:
		t = fmt.Sprintf("%d.5", g.n(50))
	}
	if !strings.Contains(t, ".") {
		t += ".0"
	}
	if g.p(1, 6) {
		t += "00"
	}
	v, err := strconv.ParseFloat(t, 64)
	if err != nil {
		panic(err)
	}
	return v, t
}

// num: a number for a literal with a unit, written as integer or float.
func (g *g) num() (float64, string) {
	if g.p(1, 2) {
		v, t := g.intVal()
		return float64(v), t
	}
	return g.floatVal()
}

func (g *g) strVal() string {
	switch g.n(8) {
	case 0:
		return ""
	case 1:
		return g.of(`a\"b`, `\\`, `\n`, `\"`, `\"\"`, `x\x41`, `\u00e9`, "é", "日本", `'`, "a b", "//", "/*", "{", "in", `\101`, "`", "%s", `tail\"`)
	case 2:
		return strings.Repeat(g.of("ab", "z", "é"), g.n(40))
	}
	return g.name()
}

var allKinds = []string{"int", "float", "string", "bool", "speed", "distance", "temp", "pressure", "percent", "duration",
	"selector", "ref", "wildcard", "range", "array", "date", "time", "weekday", "month", "point", "line", "polygon", "multi", "collection", "paren"}

func (g *g) u(us ...gq.Unit) gq.Unit { return us[g.n(len(us))] }

func (g *g) distance() *gq.DistanceTyp {
	v, t := g.num()
	d := &gq.DistanceTyp{Val: v, U: g.u(gq.Kilometer, gq.Meter)}
	sp := map[gq.Unit][]string{gq.Kilometer: {"rkm", "rKM", "Rkm", "km", "Km"}, gq.Meter: {"rm", "rM", "Rm", "M"}}
	g.text[d] = t + g.gap() + g.of(sp[d.U]...)
	return d
}

func (g *g) gap() string {
	if g.p(1, 8) {
		return g.of(" ", "\n", "\t ", " /* u */ ")
	}
	return ""
}

func (g *g) duration() *gq.DurationTyp {
	var t string
	switch g.n(7) {
	case 0:
		t = fmt.Sprintf("%ds", g.n(100))
	case 1:
		t = fmt.Sprintf("%dm", g.n(100))
	case 2:
		t = fmt.Sprintf("%dh", g.n(100))
	case 3:
		t = fmt.Sprintf("%dh%dm%ds", g.n(100), g.n(60), g.n(60))
	case 4:
		t = fmt.Sprintf("%dh%dm", g.n(100), g.n(100))
	case 5:
		t = fmt.Sprintf("%d.%dh", g.n(10), g.n(100))
	default:
		t = fmt.Sprintf("%dms", g.n(5000))
	}
	v, err := time.ParseDuration(t)
	if err != nil {
		panic(err)
	}
	d := &gq.DurationTyp{Val: v}
	g.text[d] = t
	return d
}

func (g *g) simple(kind string) gq.Expr {
	switch kind {
	case "int":
		v, t := g.intVal()
		sign := g.of("", "", "", "-", "+")
		if sign == "-" {
			v = -v
		}
		e := &gq.IntTyp{Val: v}
		g.text[e] = sign + g.signGap(sign) + t
		return e
	case "float":
		v, t := g.floatVal()
		sign := g.of("", "", "", "-", "+")
		if sign == "-" {
			v = -v
		}
		e := &gq.FloatTyp{Val: v}
		g.text[e] = sign + g.signGap(sign) + t
		return e
	case "string":
		s := g.strVal()
		e := &gq.StringTyp{Val: s}
		g.text[e] = `"` + s + `"`
		return e
	case "bool":
		e := &gq.BooleanTyp{Val: g.p(1, 2)}
		if e.Val {
			g.text[e] = randCase(g.r, g.of("true", "true", "up"))
		} else {
			g.text[e] = randCase(g.r, g.of("false", "false", "down"))
		}
		return e
	case "speed":
		v, t := g.num()
		e := &gq.SpeedTyp{Val: v, U: g.u(gq.Kph, gq.Mph)}
		sp := map[gq.Unit][]string{gq.Kph: {"kph", "KPH", "Kph"}, gq.Mph: {"mph", "MPH", "Mph"}}
		g.text[e] = t + g.gap() + g.of(sp[e.U]...)
		return e
	case "distance":
		return g.distance()
	case "temp":
		v, t := g.num()
		e := &gq.TemperatureTyp{Val: v, U: g.u(gq.Celsius, gq.Fahrenheit)}
		sign := g.of("", "-", "+")
		switch sign {
		case "-":
			e.Vec = gq.Minus
		case "+":
			e.Vec = gq.Plus
		}
		sp := map[gq.Unit][]string{gq.Celsius: {"c", "C"}, gq.Fahrenheit: {"f", "F"}}
		g.text[e] = sign + g.signGap(sign) + t + g.gap() + g.of(sp[e.U]...)
		return e
	case "pressure":
		v, t := g.num()
		e := &gq.PressureTyp{Val: v, U: g.u(gq.Bar, gq.Psi)}
		sp := map[gq.Unit][]string{gq.Bar: {"bar", "Bar", "BAR"}, gq.Psi: {"Psi", "PSI", "psi"}}
		g.text[e] = t + g.gap() + g.of(sp[e.U]...)
		return e
	case "percent":
		v, t := g.num()
		e := &gq.PercentTyp{Val: v}
		g.text[e] = t + g.gap() + g.of("%", "%", "PCT", "Pct")
		return e
	case "duration":
		return g.duration()
	case "selector":
		return g.selector(0)
	case "ref":
		return &gq.Ref{ID: g.mixName()}
	case "wildcard":
		return &gq.WildcardTyp{}
	case "date":
		return &gq.DateTyp{Year: g.edge(2022, 2200), Month: g.edge(1, 12), Day: g.edge(1, 31)}
	case "time":
		e := &gq.TimeTyp{Hours: g.edge(0, 24), Minutes: g.edge(0, 59)}
		if g.p(1, 2) {
			e.Seconds = g.edge(0, 59)
		}
		switch g.n(4) {
		case 0:
			e.U = gq.AM
		case 1:
			e.U = gq.PM
		}
		return e
	case "weekday":
		return &gq.WeekdayTyp{Val: g.n(7)}
	case "month":
		return &gq.MonthTyp{Val: 1 + g.n(12)}
	case "point":
		e := &gq.GeometryPointTyp{Val: g.coord()}
		if g.p(1, 3) {
			e.Radius = g.distance()
		}
		return e
	case "line":
		e := &gq.GeometryLineTyp{Val: g.coords()}
		if g.p(1, 3) {
			e.Margin = g.distance()
		}
		return e
	case "polygon":
		e := &gq.GeometryPolygonTyp{}
		for i, k := 0, 1+g.n(3); i < k; i++ {
			e.Val = append(e.Val, g.coords())
		}
		return e
	}
	panic(kind)
}

func (g *g) signGap(sign string) string {
	if sign != "" && g.p(1, 10) {
		return " "
	}
	return ""
}

func (g *g) edge(lo, hi int) int {
	switch g.n(4) {
	case 0:
		return lo
	case 1:
		return hi
	}
	return lo + g.n(hi-lo+1)
}

func (g *g) coordVal() float64 {
	var v float64
	if g.p(1, 3) {
		v = float64(g.n(181))
	} else {
		v, _ = strconv.ParseFloat(fmt.Sprintf("%d.%d", g.n(180), g.n(100000)), 64)
	}
	if g.p(1, 3) && v != 0 {
		v = -v
	}
	return v
}

func (g *g) coord() [2]float64 { return [2]float64{g.coordVal(), g.coordVal()} }

func (g *g) coords() [][2]float64 {
	k := 1 + g.n(6)
	if g.p(1, 6) {
		k = 1 + g.n(22)
	}
	var out [][2]float64
	for i := 0; i < k; i++ {
		out = append(out, g.coord())
	}
	return out
}

func (g *g) selector(depth int) *gq.Selector {
	e := &gq.Selector{Ident: g.selName(), Wildcard: true}
	if g.p(1, 3) {
		k := g.n(4)
		if g.p(1, 8) {
			k = g.n(20)
		}
		for i := 0; i < k; i++ {
			if e.Args == nil {
				e.Args = map[string]struct{}{}
			}
			e.Args[g.strVal()] = struct{}{}
		}
		e.Wildcard = len(e.Args) == 0 || g.p(1, 3)
	}
	return e
}

func (g *g) props(e *gq.Selector) {
	for i, k := 0, 1+g.n(3); i < k; i++ {
		e.Props = append(e.Props, g.operand(0, []string{"int", "float", "string", "bool", "speed", "distance", "temp", "pressure", "percent", "duration", "ref", "range", "weekday", "date", "time", "month", "point", "array", "selector"}))
	}
}

// operand of one of the kinds (all when nil).
func (g *g) operand(depth int, kinds []string) gq.Expr {
	if kinds == nil {
		kinds = allKinds
	}
	k := kinds[g.n(len(kinds))]
	switch k {
	case "paren":
		if depth <= 0 {
			return g.simple("selector")
		}
		return &gq.ParenExpr{Expr: g.expr(depth-1, 1)}
	case "range":
		lk := g.of("int", "float", "speed", "distance", "temp", "pressure", "percent", "duration", "selector", "string", "ref")
		return &gq.Range{Low: g.simple(lk), High: g.simple(lk)}
	case "array":
		return g.array()
	case "date", "time", "weekday", "month":
		tok := map[string]gq.Token{"date": gq.DATE, "time": gq.TIME, "weekday": gq.WEEKDAY, "month": gq.MONTH}[k]
		switch g.n(3) {
		case 0:
			return g.simple(k)
		case 1:
			return &gq.Range{Low: g.simple(k), High: g.simple(k)}
		}
		a := &gq.ArrayTyp{Kind: tok}
		for i, n := 0, 2+g.n(4); i < n; i++ {
			a.List = append(a.List, g.simple(k))
		}
		return a
	case "multi":
		mk := g.of("point", "line", "polygon")
		m := &gq.GeometryMultiObjectTyp{Kind: map[string]gq.Token{"point": gq.GEOMETRY_MULTIPOINT, "line": gq.GEOMETRY_MULTILINE, "polygon": gq.GEOMETRY_MULTIPOLYGON}[mk]}
		for i, n := 0, 1+g.n(3); i < n; i++ {
			m.Val = append(m.Val, g.simple(mk))
		}
		return m
	case "collection":
		c := &gq.GeometryCollectionTyp{}
		for i, n := 0, 1+g.n(4); i < n; i++ {
			c.Objects = append(c.Objects, g.operand(0, []string{"point", "line", "polygon", "multi"}))
		}
		return c
	case "selector":
		s := g.selector(depth)
		if depth > 0 && g.p(1, 4) {
			g.props(s)
		}
		return s
	}
	return g.simple(k)
}

var arrayKinds = map[string]gq.Token{"selector": gq.SELECTOR, "duration": gq.DURATION, "speed": gq.SPEED, "pressure": gq.PRESSURE,
	"temp": gq.TEMPERATURE, "distance": gq.DISTANCE, "percent": gq.PERCENT, "int": gq.INT, "float": gq.FLOAT, "string": gq.STRING,
	"ref": gq.IDENT, "range": gq.RANGE}
var arrayKindNames = []string{"selector", "duration", "speed", "pressure", "temp", "distance", "percent", "int", "float", "string", "ref", "range"}

func (g *g) array() *gq.ArrayTyp {
	k := arrayKindNames[g.n(len(arrayKindNames))]
	a := &gq.ArrayTyp{Kind: arrayKinds[k]}
	for i, n := 0, 1+g.n(5); i < n; i++ {
		a.List = append(a.List, g.operand(0, []string{k}))
	}
	return a
}

var binops = []gq.Token{gq.OR, gq.AND, gq.LSS, gq.LEQ, gq.GTR, gq.GEQ, gq.EQL, gq.LEQL, gq.LNEQ, gq.NOT_EQ, gq.IN, gq.NOT_IN,
	gq.NEARBY, gq.NOT_NEARBY, gq.INTERSECTS, gq.NOT_INTERSECTS, gq.ADD, gq.SUB, gq.MUL, gq.QUO, gq.REM}

var level = map[gq.Token]int{gq.OR: 1, gq.AND: 2, gq.LSS: 3, gq.LEQ: 3, gq.GTR: 3, gq.GEQ: 3, gq.EQL: 3, gq.LEQL: 3, gq.LNEQ: 3,
	gq.NOT_EQ: 3, gq.IN: 3, gq.NOT_IN: 3, gq.NEARBY: 3, gq.NOT_NEARBY: 3, gq.INTERSECTS: 3, gq.NOT_INTERSECTS: 3,
	gq.ADD: 4, gq.SUB: 4, gq.MUL: 5, gq.QUO: 5, gq.REM: 5}

// expr generates an expression whose operators outside parentheses all have level >= min, grouped as the
// grammar groups them.
func (g *g) expr(depth, min int) gq.Expr {
	if depth <= 0 || min > 5 || g.p(1, 5) {
		return g.operand(depth, g.opKinds())
	}
	var op gq.Token
	for {
		op = binops[g.n(len(binops))]
		if level[op] >= min {
			break
		}
	}
	return &gq.BinaryExpr{Op: op, Left: g.expr(depth-1, level[op]), Right: g.expr(depth-1, level[op]+1)}
}

func (g *g) opKinds() []string {
	if g.p(2, 3) {
		return []string{"int", "selector", "float", "ref", "percent", "paren", "range", "array"}
	}
	return nil
}

func (g *g) stmt(depth int) *gq.Trigger {
	t := &gq.Trigger{When: g.expr(depth, 1)}
	if g.p(1, 2) {
		seen := map[string]bool{}
		for i, n := 0, g.n(5); i < n; i++ {
			nm := g.mixName()
			if seen[nm] {
				continue
			}
			seen[nm] = true
			a := &gq.Assign{Left: &gq.Ident{Val: nm}}
			for {
				a.Right = g.operand(1, nil)
				if _, ok := a.Right.(*gq.Ref); ok {
					continue
				}
				if arr, ok := a.Right.(*gq.ArrayTyp); ok && arr.Kind == gq.IDENT {
					continue
				}
				break
			}
			t.Vars = append(t.Vars, a)
		}
	}
	if g.p(1, 2) {
		v, tx := g.intVal()
		c := &gq.IntTyp{Val: v}
		g.text[c] = tx
		t.RepeatCount = c
		if g.p(1, 2) {
			t.RepeatInterval = g.duration()
		}
	}
	if g.p(1, 2) {
		t.ResetAfter = g.duration()
	}
	return t
}
