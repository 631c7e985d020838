package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	gq "github.com/mmadfox/go-geoql-parser"
)

var checks = map[string]func(*ctx){
	"C01": c01, "C02": c02, "C03": c03, "C04": parsed, "C05": parsed, "C06": parsed, "C07": parsed, "C08": c08,
	"C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": parsed, "C16": c16,
}

const calBare = false

// ---- parsing ----

func parse(c *ctx, src string) (*gq.Trigger, error) {
	c.note(src)
	st, err := gq.Parse(src)
	if st == nil && err == nil {
		failf("Parse gives neither a statement nor an error\nsource:\n%s", src)
	}
	if err != nil {
		if st != nil {
			failf("Parse gives both a statement and the error %v\nsource:\n%s", err, src)
		}
		return nil, err
	}
	t, ok := st.(*gq.Trigger)
	if !ok || t == nil {
		failf("Parse succeeds without a statement (%T)\nsource:\n%s", st, src)
	}
	return t, nil
}

// parsed: a generated statement, written as text, must be read back exactly; texts changed so that they break
// a rule must be refused; whatever is accepted must be well-formed.
func parsed(c *ctx) {
	g := c.rnd()
	if int(c.k) < len(fixed) {
		f := fixed[c.k]
		t, err := parse(c, f.src)
		if f.bad && err == nil {
			failf("accepted although it is not a statement (%s)\nsource:\n%s\nresult: %s", f.why, f.src, dump(t))
		}
		if !f.bad && err != nil {
			failf("refused: %v\nsource:\n%s", err, f.src)
		}
		return
	}
	depth := g.n(4)
	if g.p(1, 10) {
		depth = 7
	}
	want := g.stmt(depth)
	toks := g.tokens(want)
	src := g.join(toks)
	got, err := parse(c, src)
	if err != nil {
		failf("a statement is refused: %v\nsource:\n%s", err, src)
	}
	if w, h := dump(want), dump(got); w != h {
		failf("the statement is read wrongly\nsource:\n%s\n%s", src, firstDiff(w, h))
	}
	wellFormed(got, src)
	// one token replaced, removed, doubled or swapped
	for i := 0; i < 6; i++ {
		m := g.join(g.mutate(toks))
		if t, err := parse(c, m); err == nil {
			wellFormed(t, m)
			clauses(t, m)
		}
	}
	// text after the end
	for _, x := range []string{g.of(")", "]", "foo", "1", "when a", "==", ";", "trigger", "}", ",", "$", "every", "reset", "set")} {
		if x == "reset" && want.ResetAfter == nil {
			continue
		}
		m := g.join(append(append([]string{}, toks...), x))
		if t, err := parse(c, m); err == nil && !endsOK(want, x) {
			failf("accepted with %q after the end\nsource:\n%s\nresult: %s", x, m, dump(t))
		}
	}
	badValues(c, g)
}

// endsOK: the extra token may continue the last clause.
func endsOK(t *gq.Trigger, x string) bool { return false }

func badValues(c *ctx, g *g) {
	bad := func(why, src string) {
		for _, w := range []string{"trigger when a == " + src, "trigger set x = " + src + "; when a", "when " + src + " == 1 repeat 2", "trigger when a in [" + src + "]", "when (a and (" + src + "))", "when d:" + src} {
			if t, err := parse(c, w); err == nil {
				failf("accepted although %s\nsource:\n%s\nresult: %s", why, w, dump(t))
			}
		}
	}
	out := func(lo, hi int) int {
		switch g.n(3) {
		case 0:
			return hi + 1
		case 1:
			if lo > 0 {
				return lo - 1
			}
			return hi + 1
		}
		return hi + 1 + g.n(500)
	}
	cal := func(k, item, ok string) string {
		switch g.n(5) {
		case 0:
			return k + "[" + item + "]"
		case 1:
			return k + "[" + item + " .. " + ok + "]"
		case 2:
			return k + "[" + ok + " .. " + item + "]"
		case 3:
			return k + "[" + ok + ", " + item + "]"
		}
		return k + "[" + item + ", " + ok + ", " + ok + "]"
	}
	y, m, d := g.edge(2022, 2200), g.edge(1, 12), g.edge(1, 31)
	okd := "2030-10-02"
	switch g.n(14) {
	case 0:
		y = out(2022, 2200)
		bad("the year is out of range", cal("date", fmt.Sprintf("%d-%02d-%02d", y, m, d), okd))
	case 1:
		m = out(1, 12)
		bad("the month is out of range", cal("date", fmt.Sprintf("%d-%02d-%02d", y, m, d), okd))
	case 2:
		d = out(1, 31)
		bad("the day is out of range", cal("date", fmt.Sprintf("%d-%02d-%02d", y, m, d), okd))
	case 3:
		bad("the hour is out of range", cal("time", fmt.Sprintf("%d:%02d:%02d", out(0, 24), g.edge(0, 59), g.edge(0, 59)), "10:11"))
	case 4:
		bad("the minutes are out of range", cal("time", fmt.Sprintf("%d:%02d:%02d", g.edge(0, 24), out(0, 59), g.edge(0, 59)), "10:11"))
	case 5:
		bad("the seconds are out of range", cal("time", fmt.Sprintf("%d:%02d:%02d", g.edge(0, 24), g.edge(0, 59), out(0, 59)), "10:11"))
	case 6:
		bad("there is no such weekday", cal("weekday", g.of("foo", "jan", "sunday", "mo", "x"), "Sun"))
	case 7:
		bad("there is no such month", cal("month", g.of("foo", "sun", "january", "ja", "mon"), "Jan"))
	case 8:
		bad("only temperatures and plain numbers may be negative", "-"+fmt.Sprint(g.n(100))+g.of("Kph", "Mph", "Km", "M", "rkm", "rm", "Bar", "Psi", "%", "PCT", "s", "h3m", "m", "psi", "kph"))
	case 9:
		// mixed arrays
		for {
			a, b := arrayKindNames[g.n(len(arrayKindNames))], arrayKindNames[g.n(len(arrayKindNames))]
			if a == b {
				continue
			}
			items := []string{}
			n, at := 2+g.n(4), 0
			at = 1 + g.n(n-1)
			for i := 0; i < n; i++ {
				k := a
				if i == at {
					k = b
				}
				items = append(items, strings.Join(g.exprToks(g.operand(0, []string{k})), " "))
			}
			src := "[" + strings.Join(items, ", ") + "]"
			for _, w := range []string{"trigger when a in " + src, "trigger set x = " + src + "; when a"} {
				if t, err := parse(c, w); err == nil {
					failf("a mixed array is accepted\nsource:\n%s\nresult: %s", w, dump(t))
				}
			}
			break
		}
	case 10:
		a, b := g.of("point", "line", "polygon"), g.of("point", "line", "polygon")
		if a == b {
			return
		}
		okT := strings.Join(g.exprToks(g.simple(a)), " ")
		badT := strings.Join(g.exprToks(g.simple(b)), " ")
		bad("a multi-geometry holds another kind", "multi"+a+"["+g.of(badT, okT+", "+badT, badT+", "+okT)+"]")
	case 11:
		bad("it is empty", g.of("[]", "multipoint[]", "multiline[]", "multipolygon[]", "collection[]", "date[]", "time[]", "weekday[]", "month[]", "()", "point[", "(1"))
	case 12:
		bad("it lacks an operand", g.of("(1 +)", "1 + ", "* *", "(and 1)", "1 == ", "a in", "@", "1 ..", "x:", "point[1, 2]:", "1 + and 2", "a not", "1 not 2"))
	case 13:
		bad("the radius is no distance", g.of("point[1, 2]", "line[[1, 2]]")+":"+g.of("5", "5Kph", "5C", "x", "5%", "5Bar", "10s", `"a"`))
	}
}

type fx struct {
	src string
	bad bool
	why string
}

var fixed = func() (out []fx) {
	ok := func(s ...string) {
		for _, x := range s {
			out = append(out, fx{src: x})
		}
	}
	bad := func(why string, s ...string) {
		for _, x := range s {
			out = append(out, fx{x, true, why})
		}
	}
	ok("when a", "trigger when a", "trigger set a = 1; when b", "trigger set when b", "trigger when a repeat 3", "trigger when a repeat 3 every 10s reset after 1h",
		"trigger when a reset after 1h", "trigger when a repeat 3 reset after 1h", "trigger when a reset after 1.5h",
		"TRIGGER WHEN 1 == 1", "trigger when @a == 1")
	bad("the statement is cut", "", " ", "trigger", "trigger set", "trigger set a", "trigger set a =", "trigger set a = 1", "trigger set a = 1;",
		"trigger when", "when", "trigger when a ==", "trigger when (", "trigger when (a", "trigger when a repeat 3 every", "trigger when a repeat 3 every 10",
		"trigger when a reset", "trigger when a reset after", "trigger when a reset after 10", "trigger when [", "trigger when [1", "trigger when point", "trigger when point[1,2")
	bad("it is no statement", "foo", "set a = 1; when a", "repeat 3", "trigger repeat 3", "trigger trigger when a", "trigger when a when b", "trigger when a set b = 1;",
		"trigger when a repeat x", "trigger when a repeat 3.5", "trigger when a repeat 3s", "trigger when a repeat 3 each 10s", "trigger when a repeat 3 10s",
		"trigger when a repeat every 10s", "trigger when a repeat 3 every x", "trigger when a repeat 3 every 10Km", "trigger when a reset 1h", "trigger when a reset after x",
		"trigger when a reset after 10Km", "trigger when a reset before 1h", "trigger when a reset after 1h repeat 3", "trigger when a reset after 1h reset after 1h",
		"trigger when a repeat 3 repeat 3", "trigger when a repeat 3 every 10s every 10s", "trigger when a)", "trigger when (a))", "trigger when a b", "trigger when a;", "trigger when a == == b",
		"trigger when a = b", "trigger when a ! b", "trigger when a, b", "trigger when {}", "trigger when )", "trigger when ]",
		"trigger set a == 1; when b", "trigger set a 1; when b", "trigger set 1 = 1; when b", "trigger set @a = 1; when b", "trigger set a = @b; when b", "trigger set a = [@b]; when b",
		"trigger set a = 1; a = 2; when b", "trigger set a = 1; b = 2; a = 3; when b", "trigger set a = 1; b = 2; b = 3; when b",
		"trigger set a = 1, b = 2; when b", "trigger set a = 1; when", "trigger set a = 1;; when b", "trigger set a = 1; set b = 2; when b")
	return
}()

func tokenTexts() []string {
	return []string{"trigger", "set", "when", "repeat", "reset", "every", "after", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "==", "!=", "<", "<=", ">", ">=",
		"..", ".", "+", "-", "*", "/", "%", "@", "@a", "and", "or", "in", "not", "not in", "eq", "nearby", "intersects", "rem", "mod", "1", "2.5", "0", "31", "2030", "a", "b", "sel",
		`"s"`, "10Km", "5%", "1h", "10s", "-3C", "true", "down", "point", "point[1, 2]", "line[[1, 2], [3, 4]]", "polygon[[[1, 2]]]", "multipoint", "multiline", "multipolygon",
		"collection", "date", "time", "weekday", "month", "sun", "jan", "10:11", "2030-10-02", "range", "Kph", "am", "'x'", "`r`", "$", "#", "\\", "é", "..", "12:61", "25:00", "32", "13",
		"date[2030-10-32]", "time[10:60]", "weekday[Sun]", "month[Jan .. Feb]", "999999999999999999999", "1.2.3", "1_000", "not foo", "h", "m", "s", "5x", "5hx"}
}

var tokenPool = tokenTexts()

func (g *g) mutate(toks []string) []string {
	t := append([]string{}, toks...)
	for k := 1 + g.n(2); k > 0; k-- {
		if len(t) == 0 {
			return []string{g.of(tokenPool...)}
		}
		i, j := g.n(len(t)), g.n(len(t))
		switch g.n(6) {
		case 0:
			t[i] = g.of(tokenPool...)
		case 1:
			t = append(t[:i], t[i+1:]...)
		case 2:
			t = append(t[:i], append([]string{t[i]}, t[i:]...)...)
		case 3:
			t[i], t[j] = t[j], t[i]
		case 4:
			t = append(t[:i], append([]string{g.of(tokenPool...)}, t[i:]...)...)
		case 5:
			t = t[:i]
		}
	}
	return t
}

// wellFormed: the domain rules every accepted statement obeys.
func wellFormed(t *gq.Trigger, src string) {
	bad := func(f string, a ...any) {
		failf("%s\nsource:\n%s\nresult: %s", fmt.Sprintf(f, a...), src, dump(t))
	}
	nilE := func(e gq.Expr) bool {
		return e == nil || reflect.ValueOf(e).Kind() == reflect.Ptr && reflect.ValueOf(e).IsNil()
	}
	rng := func(what string, v, lo, hi int) {
		if v < lo || v > hi {
			bad("%s %d is out of range", what, v)
		}
	}
	kindOf := func(e gq.Expr) gq.Token {
		switch e.(type) {
		case *gq.Selector:
			return gq.SELECTOR
		case *gq.DurationTyp:
			return gq.DURATION
		case *gq.SpeedTyp:
			return gq.SPEED
		case *gq.PressureTyp:
			return gq.PRESSURE
		case *gq.TemperatureTyp:
			return gq.TEMPERATURE
		case *gq.DistanceTyp:
			return gq.DISTANCE
		case *gq.PercentTyp:
			return gq.PERCENT
		case *gq.IntTyp:
			return gq.INT
		case *gq.FloatTyp:
			return gq.FLOAT
		case *gq.StringTyp:
			return gq.STRING
		case *gq.Ref:
			return gq.IDENT
		case *gq.Range:
			return gq.RANGE
		case *gq.DateTyp:
			return gq.DATE
		case *gq.TimeTyp:
			return gq.TIME
		case *gq.WeekdayTyp:
			return gq.WEEKDAY
		case *gq.MonthTyp:
			return gq.MONTH
		}
		return gq.ILLEGAL
	}
	oneOf := func(what string, u gq.Unit, us ...gq.Unit) {
		for _, x := range us {
			if u == x {
				return
			}
		}
		bad("%s has unit %v", what, u)
	}
	nonneg := func(what string, v float64) {
		if v < 0 {
			bad("negative %s", what)
		}
	}
	var walk func(e gq.Expr, min int)
	walk = func(e gq.Expr, min int) {
		if nilE(e) {
			bad("an operand is missing")
		}
		switch x := e.(type) {
		case *gq.BinaryExpr:
			l, ok := level[x.Op]
			if !ok {
				bad("operator %d is none", x.Op)
			}
			if l < min {
				bad("operator %s is grouped against its precedence", opText[x.Op])
			}
			walk(x.Left, l)
			walk(x.Right, l+1)
		case *gq.ParenExpr:
			walk(x.Expr, 1)
		case *gq.Range:
			walk(x.Low, 6)
			walk(x.High, 6)
		case *gq.ArrayTyp:
			if len(x.List) == 0 {
				bad("empty array")
			}
			for _, y := range x.List {
				walk(y, 6)
				if kindOf(y) != x.Kind || x.Kind == gq.ILLEGAL {
					bad("array of kind %d holds a %T", x.Kind, y)
				}
			}
		case *gq.Selector:
			for _, y := range x.Props {
				walk(y, 6)
			}
		case *gq.DateTyp:
			rng("year", x.Year, 2022, 2200)
			rng("month", x.Month, 1, 12)
			rng("day", x.Day, 1, 31)
		case *gq.TimeTyp:
			rng("hour", x.Hours, 0, 24)
			rng("minute", x.Minutes, 0, 59)
			rng("second", x.Seconds, 0, 59)
			oneOf("time", x.U, gq.Unknown, gq.AM, gq.PM)
		case *gq.WeekdayTyp:
			rng("weekday", x.Val, 0, 6)
		case *gq.MonthTyp:
			rng("month", x.Val, 1, 12)
		case *gq.SpeedTyp:
			oneOf("speed", x.U, gq.Kph, gq.Mph)
			nonneg("speed", x.Val)
		case *gq.DistanceTyp:
			oneOf("distance", x.U, gq.Kilometer, gq.Meter)
			nonneg("distance", x.Val)
		case *gq.PressureTyp:
			oneOf("pressure", x.U, gq.Bar, gq.Psi)
			nonneg("pressure", x.Val)
		case *gq.TemperatureTyp:
			oneOf("temperature", x.U, gq.Celsius, gq.Fahrenheit)
			nonneg("temperature (the sign is kept apart)", x.Val)
		case *gq.PercentTyp:
			nonneg("percent", x.Val)
		case *gq.DurationTyp:
			nonneg("duration", float64(x.Val))
		case *gq.GeometryPointTyp:
			if x.Radius != nil {
				walk(x.Radius, 6)
			}
		case *gq.GeometryLineTyp:
			if x.Margin != nil {
				walk(x.Margin, 6)
			}
		case *gq.GeometryMultiObjectTyp:
			if len(x.Val) == 0 {
				bad("empty multi-geometry")
			}
			for _, y := range x.Val {
				walk(y, 6)
				ok := false
				switch y.(type) {
				case *gq.GeometryPointTyp:
					ok = x.Kind == gq.GEOMETRY_MULTIPOINT
				case *gq.GeometryLineTyp:
					ok = x.Kind == gq.GEOMETRY_MULTILINE
				case *gq.GeometryPolygonTyp:
					ok = x.Kind == gq.GEOMETRY_MULTIPOLYGON
				}
				if !ok {
					bad("multi-geometry %d holds a %T", x.Kind, y)
				}
			}
		case *gq.GeometryCollectionTyp:
			if len(x.Objects) == 0 {
				bad("empty collection")
			}
			for _, y := range x.Objects {
				walk(y, 6)
				switch y.(type) {
				case *gq.GeometryPointTyp, *gq.GeometryLineTyp, *gq.GeometryPolygonTyp, *gq.GeometryMultiObjectTyp:
				default:
					bad("collection holds a %T", y)
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, a := range t.Vars {
		if a == nil || a.Left == nil {
			bad("an operand is missing")
		}
		if seen[a.Left.Val] {
			bad("variable %s is defined twice", a.Left.Val)
		}
		seen[a.Left.Val] = true
		walk(a.Right, 6)
	}
	walk(t.When, 1)
	if t.RepeatCount != nil {
		if _, ok := t.RepeatCount.(*gq.IntTyp); !ok {
			bad("the repeat count is a %T", t.RepeatCount)
		}
	}
	for _, e := range []gq.Expr{t.RepeatInterval, t.ResetAfter} {
		if e != nil {
			if _, ok := e.(*gq.DurationTyp); !ok {
				bad("an interval is a %T", e)
			}
		}
	}
}

// clauses: what an accepted text must start with and hold.
func clauses(t *gq.Trigger, src string) {
	ls, ok := lexAll(src)
	if !ok {
		return
	}
	ts := refTokens(ls)
	bad := func(f string) { failf("%s\nsource:\n%s\nresult: %s", f, src, dump(t)) }
	if ts[0].tok != gq.TRIGGER && ts[0].tok != gq.WHEN {
		bad("accepted although it does not start with trigger or when")
	}
	n := map[gq.Token]int{}
	every := 0
	at := map[gq.Token]int{}
	for i, x := range ts {
		n[x.tok]++
		at[x.tok] = i
		if x.tok == gq.SELECTOR && x.lit == "every" && i > 1 && ts[i-2].tok == gq.REPEAT {
			every++
		}
		if x.tok == gq.ILLEGAL && x.lit != "%" {
			bad("accepted with a token that belongs to no statement: " + x.lit)
		}
	}
	refAt := 0 // keywords right after @ are names of variables
	for i := 1; i < len(ts); i++ {
		if ts[i-1].tok == gq.IDENT {
			refAt++
		}
	}
	if refAt > 0 {
		return
	}
	if n[gq.WHEN] != 1 {
		bad("accepted without exactly one when")
	}
	if n[gq.REPEAT] > 1 || n[gq.RESET] > 1 || n[gq.SET] > 1 || n[gq.TRIGGER] > 1 {
		bad("accepted with a clause twice")
	}
	if (t.RepeatCount != nil) != (n[gq.REPEAT] == 1 && at[gq.REPEAT]+1 < len(ts) && ts[at[gq.REPEAT]+1].tok == gq.INT) {
		bad("the repeat clause of the result is not that of the source")
	}
	if (t.RepeatInterval != nil) != (every == 1) {
		bad("the interval of the result is not that of the source")
	}
	if (t.ResetAfter != nil) != (n[gq.RESET] == 1) {
		bad("the reset clause of the result is not that of the source")
	}
}

// ---- C01 ----

func (g *g) soup() string {
	var b strings.Builder
	k := g.n(30)
	if g.p(1, 20) {
		k = g.n(3000)
	}
	switch g.n(5) {
	case 0:
		for i := 0; i < k; i++ {
			b.WriteByte(byte(g.n(256)))
		}
	case 1:
		for i := 0; i < k; i++ {
			b.WriteString(g.of(tokenPool...))
			b.WriteString(g.of("", " ", "\n"))
		}
	case 2:
		b.WriteString("trigger when ")
		for i := 0; i < k; i++ {
			b.WriteString(g.of(tokenPool...))
			b.WriteString(g.of("", " "))
		}
	case 3:
		s := g.source(g.stmt(g.n(4)))
		b.WriteString(s[:g.n(len(s)+1)])
		if g.p(1, 2) {
			b.WriteString(g.of("\xff", "\x00", "\"", "/*", "'", "`", "(", "[", "\\", "\xe2\x82", "."))
		}
	case 4:
		s := []byte(g.source(g.stmt(g.n(4))))
		for i := 0; i < 1+g.n(4) && len(s) > 0; i++ {
			s[g.n(len(s))] = byte(g.n(256))
		}
		b.Write(s)
	}
	return b.String()
}

func c01(c *ctx) {
	g := c.rnd()
	if int(c.k) < len(fixed) {
		parse(c, fixed[c.k].src)
		return
	}
	if c.k%500 == 7 {
		n := 2000 + g.n(20000)
		if g.p(1, 8) {
			n *= 20
		}
		open := g.of("(", "[", "x:", "collection[", "1 .. ", "point[", "point[[", "a and (", "sel{", "date[", "-", "not ", "1 + ", "@", "set ")
		parse(c, "trigger when "+strings.Repeat(open, n)+g.of("", "1", ")", "]"))
		parse(c, "trigger when "+strings.Repeat("(", n)+"1"+strings.Repeat(")", n))
		return
	}
	if c.k%2 == 0 {
		parse(c, g.soup())
		return
	}
	want := g.stmt(g.n(4))
	toks := g.tokens(want)
	parse(c, g.join(toks))
	for i := 0; i < 4; i++ {
		parse(c, g.join(g.mutate(toks)))
	}
	parse(c, g.join(toks[:g.n(len(toks))]))
}

// ---- C08 ----

func c08(c *ctx) {
	g := c.rnd()
	names := []string{"a", "b", "A", "ab", "", "é", "a "}
	t := &gq.Trigger{}
	if g.p(1, 2) {
		t.Vars = make([]*gq.Assign, 0, g.n(4))
	}
	var hist []*gq.Assign
	log := ""
	def := map[string]*gq.Assign{}
	steps := g.n(12)
	if g.p(1, 3) {
		steps = g.n(70)
		for i := 0; i < steps; i++ {
			names = append(names, fmt.Sprint("v", i))
		}
	}
	for i, n := 0, steps; i < n; i++ {
		a := &gq.Assign{Left: &gq.Ident{Val: g.of(names...)}}
		if g.p(1, 2) {
			a.Right = &gq.IntTyp{Val: i}
		} else {
			a.Right = &gq.StringTyp{Val: fmt.Sprint(i)}
		}
		log += fmt.Sprintf("SetVar(%q)\n", a.Left.Val)
		c.note(log)
		before := dump(a)
		err := t.SetVar(a)
		if _, dup := def[a.Left.Val]; dup {
			if err == nil {
				failf("a second definition is accepted\n%s", log)
			}
		} else {
			if err != nil {
				failf("a new definition is refused: %v\n%s", err, log)
			}
			hist = append(hist, a)
			def[a.Left.Val] = a
		}
		if dump(a) != before {
			failf("SetVar changed the definition\n%s", log)
		}
		if len(t.Vars) != len(hist) {
			failf("%d definitions, expected %d\n%s", len(t.Vars), len(hist), log)
		}
		for k := range hist {
			if t.Vars[k] != hist[k] {
				failf("definition %d is not the one made\n%s", k, log)
			}
		}
		if t.When != nil || t.RepeatCount != nil || t.ResetAfter != nil || t.RepeatInterval != nil {
			failf("SetVar changed another clause\n%s", log)
		}
		// look-up, seen through the type checker
		for _, nm := range names {
			t.When = &gq.BinaryExpr{Op: gq.LEQL, Left: &gq.Ref{ID: nm}, Right: &gq.IntTyp{}}
			err := gq.CheckType(t, nil)
			d := def[nm]
			_, isInt := any(nil).(int)
			if d != nil {
				_, isInt = d.Right.(*gq.IntTyp)
			}
			if (err == nil) != isInt {
				failf("variable %q resolves wrongly (check says %v)\n%s", nm, err, log)
			}
			t.When = nil
		}
	}
	// parsing
	src, seen, dup := "trigger set ", map[string]bool{}, false
	for i, n := 0, 1+g.n(6); i < n; i++ {
		nm := g.of("a", "b", "A", "ab", "aB", "c1", "é")
		dup = dup || seen[nm]
		seen[nm] = true
		src += nm + " = " + g.of("1", `"s"`, "true", "[1, 2]", "x", "10Km", "(1 + 2)") + "; "
	}
	src += "when q"
	tr, err := parse(c, src)
	if dup != (err != nil) {
		failf("duplicate definitions %v, but Parse says %v\nsource:\n%s", dup, err, src)
	}
	if err == nil {
		wellFormed(tr, src)
	}
	if g.p(1, 3) {
		w := g.stmt(1)
		s := g.source(w)
		if got, err := parse(c, s); err == nil {
			if len(got.Vars) != len(w.Vars) {
				failf("%d definitions read, expected %d\nsource:\n%s", len(got.Vars), len(w.Vars), s)
			}
			for i := range w.Vars {
				if dump(got.Vars[i]) != dump(w.Vars[i]) {
					failf("definition %d is read wrongly\nsource:\n%s\n%s", i, s, firstDiff(dump(w.Vars[i]), dump(got.Vars[i])))
				}
			}
		}
	}
}

// ---- C09 ----

var dictTypes = []gq.SelectorType{gq.Int, gq.Float, gq.String, gq.Boolean, gq.ArrayInt, gq.ArrayFloat, gq.ArrayString, 0, 99}

func checkOperands() (out []gq.Expr) {
	i, f, s, b := &gq.IntTyp{Val: 1}, &gq.FloatTyp{Val: 1.5}, &gq.StringTyp{Val: "s"}, &gq.BooleanTyp{Val: true}
	out = append(out, i, f, s, b, &gq.PercentTyp{}, &gq.PressureTyp{U: gq.Bar}, &gq.DistanceTyp{U: gq.Meter}, &gq.SpeedTyp{U: gq.Kph},
		&gq.TemperatureTyp{U: gq.Celsius}, &gq.DurationTyp{}, &gq.WildcardTyp{}, &gq.DateTyp{Year: 2030, Month: 1, Day: 1}, &gq.TimeTyp{},
		&gq.WeekdayTyp{}, &gq.MonthTyp{Val: 1}, &gq.GeometryPointTyp{}, &gq.GeometryLineTyp{Val: [][2]float64{{1, 2}}},
		&gq.GeometryPolygonTyp{Val: [][][2]float64{{{1, 2}}}}, &gq.GeometryMultiObjectTyp{Kind: gq.GEOMETRY_MULTIPOINT, Val: []gq.Expr{&gq.GeometryPointTyp{}}},
		&gq.GeometryCollectionTyp{Objects: []gq.Expr{&gq.GeometryPointTyp{}}})
	base := append([]gq.Expr{}, out...)
	for k := range dictTypes {
		out = append(out, &gq.Selector{Ident: fmt.Sprintf("d%d", k), Wildcard: true})
	}
	out = append(out, &gq.Selector{Ident: "undeclared"})
	for k := range base {
		out = append(out, &gq.Ref{ID: fmt.Sprintf("v%d", k)})
	}
	n := len(base)
	for k := 0; k < 6; k++ {
		out = append(out, &gq.Ref{ID: fmt.Sprintf("v%d", n+k)})
	}
	out = append(out, &gq.Ref{ID: "nowhere"})
	el := []gq.Expr{i, f, s, &gq.PercentTyp{}, &gq.DurationTyp{}, &gq.Selector{Ident: "d0"}, &gq.Selector{Ident: "d1"}, &gq.Selector{Ident: "d4"}, &gq.Selector{Ident: "d2"}, &gq.Ref{ID: "v0"}, &gq.Ref{ID: "v1"}, &gq.Range{Low: i, High: i}}
	for _, x := range el {
		out = append(out, &gq.ArrayTyp{Kind: gq.INT, List: []gq.Expr{x}}, &gq.Range{Low: x, High: x})
	}
	out = append(out, &gq.ArrayTyp{}, &gq.Range{Low: i, High: f}, &gq.Range{Low: f, High: i}, &gq.Range{Low: s, High: s})
	return
}

func checkWorld() ([]*gq.Assign, gq.Dictionary) {
	d := gq.Dict()
	for k, t := range dictTypes {
		d[fmt.Sprintf("d%d", k)] = t
	}
	var vars []*gq.Assign
	ops := checkOperands()
	add := func(e gq.Expr) {
		vars = append(vars, &gq.Assign{Left: &gq.Ident{Val: fmt.Sprintf("v%d", len(vars))}, Right: e})
	}
	for k := 0; k < 20; k++ {
		add(ops[k])
	}
	add(&gq.ArrayTyp{Kind: gq.INT, List: []gq.Expr{&gq.IntTyp{}}})
	add(&gq.ArrayTyp{Kind: gq.FLOAT, List: []gq.Expr{&gq.FloatTyp{}}})
	add(&gq.ArrayTyp{Kind: gq.STRING, List: []gq.Expr{&gq.StringTyp{}}})
	add(&gq.ArrayTyp{Kind: gq.SELECTOR, List: []gq.Expr{&gq.Selector{Ident: "d0"}}})
	add(&gq.Range{Low: &gq.IntTyp{}, High: &gq.IntTyp{}})
	add(&gq.Selector{Ident: "d0"})
	return vars, d
}

func c09(c *ctx) {
	g := c.rnd()
	vars, dict := checkWorld()
	ops := checkOperands()
	ref := &refCheck{vars, dict}
	one := func(e gq.Expr) {
		t := &gq.Trigger{Vars: vars, When: e}
		before := dump(t) + dump(dict)
		c.note("CheckType of\n" + refExpr(e, "", true) + "\n" + dump(t))
		_, want := ref.expr(e)
		for r := 0; r < 3; r++ {
			err := gq.CheckType(t, dict)
			if (err == nil) != want {
				failf("the condition is well-typed: %v, but CheckType says %v\ncondition: %s\ntree: %s\nvariables and dictionary: %s", want, err, refExpr(e, "", true), dump(e), dump(vars)+dump(dict))
			}
		}
		if dump(t)+dump(dict) != before {
			failf("CheckType changed its arguments\ncondition: %s", refExpr(e, "", true))
		}
	}
	// exhaustive: every operator on every pair of operands
	no := len(ops)
	pairs := no * no
	if int(c.k) < pairs {
		l, r := ops[int(c.k)/no], ops[int(c.k)%no]
		for _, op := range append([]gq.Token{gq.ILLEGAL, gq.ASSIGN, gq.COMMA, gq.Token(-1), gq.RANGE}, binops...) {
			e := &gq.BinaryExpr{Op: op, Left: l, Right: r}
			one(e)
			// the class of the result, seen from outside
			if int(c.k)%7 == 0 || no < 10 {
				for _, x := range []gq.Expr{ops[0], ops[1], ops[2], ops[3], ops[15]} {
					for _, op2 := range []gq.Token{gq.ADD, gq.IN, gq.AND, gq.LEQL} {
						one(&gq.BinaryExpr{Op: op2, Left: e, Right: x})
						one(&gq.BinaryExpr{Op: op2, Left: x, Right: &gq.ParenExpr{Expr: e}})
					}
				}
				one(&gq.BinaryExpr{Op: gq.IN, Left: e, Right: &gq.Range{Low: ops[0], High: ops[0]}})
				one(&gq.BinaryExpr{Op: gq.IN, Left: e, Right: &gq.ArrayTyp{Kind: gq.INT, List: []gq.Expr{ops[0]}}})
				one(&gq.BinaryExpr{Op: gq.IN, Left: e, Right: &gq.ArrayTyp{Kind: gq.FLOAT, List: []gq.Expr{ops[1]}}})
			}
		}
		if int(c.k) < no {
			one(ops[c.k])
			one(&gq.ParenExpr{Expr: ops[c.k]})
		}
		return
	}
	var tree func(d int) gq.Expr
	tree = func(d int) gq.Expr {
		if d == 0 || g.p(1, 6) {
			return ops[g.n(no)]
		}
		if g.p(1, 5) {
			return &gq.ParenExpr{Expr: tree(d - 1)}
		}
		return &gq.BinaryExpr{Op: binops[g.n(len(binops))], Left: tree(d - 1), Right: tree(d - 1)}
	}
	// well-typed with high probability
	var typed func(d int, k class) gq.Expr
	typed = func(d int, k class) gq.Expr {
		if d > 0 && g.p(1, 6) {
			return &gq.ParenExpr{Expr: typed(d-1, k)}
		}
		if d == 0 || k&(cInt|cFloat|cString|cBool) == 0 || g.p(1, 8) {
			for {
				e := ops[g.n(no)]
				if ref.classes(e)&k != 0 {
					return e
				}
			}
		}
		switch {
		case k&cBool != 0:
			op := []gq.Token{gq.AND, gq.OR, gq.EQL, gq.LEQL, gq.LNEQ, gq.NOT_EQ, gq.LSS, gq.LEQ, gq.GEQ, gq.GTR, gq.IN, gq.NOT_IN, gq.NEARBY, gq.NOT_NEARBY, gq.INTERSECTS, gq.NOT_INTERSECTS}[g.n(16)]
			lk, rk := cInt|cFloat, cInt|cFloat
			switch op {
			case gq.AND, gq.OR:
				lk, rk = cBool, cBool
			case gq.IN, gq.NOT_IN:
				lk = []class{cInt, cFloat, cString}[g.n(3)]
				rk = cArrInt | cRangeInt
				if lk == cFloat {
					rk = cArrFloat | cRangeFloat
				}
				if lk == cString {
					rk = cArrString
				}
			case gq.NEARBY, gq.NOT_NEARBY, gq.INTERSECTS, gq.NOT_INTERSECTS:
				lk, rk = cGeom, cGeom
			}
			return &gq.BinaryExpr{Op: op, Left: typed(d-1, lk), Right: typed(d-1, rk)}
		case k&cString != 0:
			return &gq.BinaryExpr{Op: gq.ADD, Left: typed(d-1, cString), Right: typed(d-1, cString)}
		}
		op := []gq.Token{gq.ADD, gq.SUB, gq.MUL, gq.QUO, gq.REM}[g.n(5)]
		return &gq.BinaryExpr{Op: op, Left: typed(d-1, k), Right: typed(d-1, k)}
	}
	e := typed(1+g.n(5), []class{cBool, cBool, cInt, cFloat, cString}[g.n(5)])
	one(e)
	one(tree(1 + g.n(4)))
	// random variables and dictionary; a definition may shadow nothing, only the exact name counts
	g2 := g.stmt(2)
	d2 := gq.Dict()
	for i := 0; i < 4; i++ {
		d2[g.name()] = dictTypes[g.n(len(dictTypes))]
	}
	r2 := &refCheck{g2.Vars, d2}
	_, want := r2.expr(g2.When)
	c.note(dump(g2))
	if err := gq.CheckType(g2, d2); (err == nil) != want {
		failf("the condition is well-typed: %v, but CheckType says %v\n%s\n%s", want, err, dump(g2), dump(d2))
	}
}

// ---- C10, C11 ----

// fstmt: a well-formed statement for formatting, often with many of the shapes whose layout varies.
func (g *g) fstmt() *gq.Trigger {
	t := g.stmt(g.n(4))
	if g.p(1, 3) {
		t.Vars = append(t.Vars, &gq.Assign{Left: &gq.Ident{Val: "z"}, Right: g.operand(2, nil)})
	}
	if g.p(1, 4) {
		s := g.selector(0)
		s.Args = map[string]struct{}{}
		for i, n := 0, g.n(30); i < n; i++ {
			s.Args[g.name()] = struct{}{}
		}
		s.Wildcard = g.p(1, 2)
		if g.p(1, 2) {
			g.props(s)
		}
		t.Vars = append(t.Vars, &gq.Assign{Left: &gq.Ident{Val: "zz"}, Right: s})
		if g.p(1, 3) {
			t.When = &gq.BinaryExpr{Op: gq.AND, Left: s, Right: t.When}
		}
	}
	if g.p(1, 6) {
		t.RepeatInterval = g.duration()
		if g.p(1, 2) {
			t.RepeatCount = nil
		}
	}
	if g.p(1, 4) {
		l := &gq.GeometryLineTyp{}
		for i, n := 0, g.n(14); i < n; i++ {
			l.Val = append(l.Val, g.coord())
		}
		p := &gq.GeometryPolygonTyp{}
		for i, n := 0, g.n(4); i < n; i++ {
			p.Val = append(p.Val, g.coords())
		}
		c := &gq.GeometryCollectionTyp{Objects: []gq.Expr{l, p}}
		t.Vars = append(t.Vars, &gq.Assign{Left: &gq.Ident{Val: "zl"}, Right: l}, &gq.Assign{Left: &gq.Ident{Val: "zp"}, Right: p}, &gq.Assign{Left: &gq.Ident{Val: "zc"}, Right: c})
		if g.p(1, 3) {
			t.When = &gq.BinaryExpr{Op: gq.OR, Left: t.When, Right: &gq.ParenExpr{Expr: c}}
		}
	}
	return t
}

func c10(c *ctx) {
	g := c.rnd()
	t := g.fstmt()
	c.note(dump(t))
	want := refFormat(t)
	for r := 0; r < 4; r++ {
		var b strings.Builder
		if err := gq.Format(&b, t); err != nil {
			failf("Format fails: %v\ntree: %s", err, dump(t))
		}
		if b.String() != want {
			failf("Format writes another text\ntree: %s\n%s", dump(t), firstDiff(want, b.String()))
		}
	}
}

type failWriter struct {
	at, n int
	err   error
	after int
	b     strings.Builder
}

func (w *failWriter) WriteString(s string) (int, error) {
	if w.n > w.at {
		w.after++
	}
	w.n++
	if w.n > w.at {
		return len(s) / 2, w.err
	}
	w.b.WriteString(s)
	return len(s), nil
}

type customErr struct{ n int }

func (e *customErr) Error() string { return fmt.Sprint("writer full ", e.n) }

type valErr string

func (e valErr) Error() string { return string(e) }

var _ io.StringWriter = (*failWriter)(nil)

func c11(c *ctx) {
	g := c.rnd()
	t := g.fstmt()
	c.note(dump(t))
	ok := &failWriter{at: 1 << 30}
	if err := gq.Format(ok, t); err != nil {
		failf("Format fails although no write fails: %v\ntree: %s", err, dump(t))
	}
	for _, e := range []error{errors.New("disk full"), io.EOF, &customErr{3}, valErr("x"), fmt.Errorf("wrapped %w", io.ErrShortWrite)} {
		ks := make([]int, 0, 40)
		if ok.n < 40 {
			for k := 0; k < ok.n; k++ {
				ks = append(ks, k)
			}
		} else {
			for k := 0; k < 30; k++ {
				ks = append(ks, g.n(ok.n))
			}
			ks = append(ks, 0, ok.n-1, ok.n-2)
		}
		for _, k := range ks {
			w := &failWriter{at: k, err: e}
			var got error
			func() {
				defer func() {
					if p := recover(); p != nil {
						failf("Format panics (%v) when write %d of %d fails\ntree: %s", p, k+1, ok.n, dump(t))
					}
				}()
				got = gq.Format(w, t)
			}()
			if got != e {
				failf("write %d of %d fails with %v, but Format returns %v\ntree: %s", k+1, ok.n, e, got, dump(t))
			}
			if w.after > 0 {
				failf("%d writes after write %d of %d failed\ntree: %s", w.after, k+1, ok.n, dump(t))
			}
			if !strings.HasPrefix(ok.b.String(), w.b.String()) {
				failf("the text before the failing write differs\ntree: %s\n%s", dump(t), firstDiff(ok.b.String(), w.b.String()))
			}
		}
	}
}

// ---- C12 ----

type walkEvent struct {
	id   int
	node gq.Expr
}

type plan struct {
	answer func(n int) bool // n-th visit of a node: go on?
	events []walkEvent
	visits int
	made   int
}

type vis struct {
	p  *plan
	id int
}

func (v *vis) Visit(e gq.Expr) gq.Visitor {
	v.p.events = append(v.p.events, walkEvent{v.id, e})
	if e == nil {
		return nil
	}
	v.p.visits++
	if !v.p.answer(v.p.visits) {
		return nil
	}
	v.p.made++
	return &vis{v.p, v.p.made}
}

func (p *plan) ref(id int, e gq.Expr) {
	p.events = append(p.events, walkEvent{id, e})
	p.visits++
	if !p.answer(p.visits) {
		return
	}
	p.made++
	my := p.made
	for _, k := range children(e) {
		p.ref(my, k)
	}
	p.events = append(p.events, walkEvent{my, nil})
}

func showEvents(ev []walkEvent) string {
	var b strings.Builder
	for i, x := range ev {
		if i > 60 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %d:%s", x.id, strings.TrimPrefix(fmt.Sprintf("%T", x.node), "*geoqlparser."))
	}
	return b.String()
}

func c12(c *ctx) {
	g := c.rnd()
	t := g.fstmt()
	var root gq.Expr = t
	if g.p(1, 4) {
		root = g.operand(2, nil)
	}
	if g.p(1, 10) {
		root = &gq.Trigger{Vars: t.Vars}
	}
	c.note(dump(root))
	mask := g.r.Int63()
	ans := func(n int) bool { return true }
	switch g.n(3) {
	case 0:
		ans = func(n int) bool { return (mask>>(uint(n)%60))&1 == 0 || n == 1 }
	case 1:
		k := 1 + g.n(12)
		ans = func(n int) bool { return n != k }
	}
	a, b := &plan{answer: ans}, &plan{answer: ans}
	a.ref(0, root)
	gq.Walk(&vis{b, 0}, root)
	same := len(a.events) == len(b.events)
	for i := 0; same && i < len(a.events); i++ {
		same = a.events[i] == b.events[i]
	}
	if !same {
		failf("Walk makes other visits\nexpected%s\ngot     %s\ntree: %s", showEvents(a.events), showEvents(b.events), dump(root))
	}
	// Visit with a function
	var got, want []gq.Expr
	n := 0
	gq.Visit(root, func(e gq.Expr) bool {
		got = append(got, e)
		if e == nil {
			return false
		}
		n++
		return ans(n)
	})
	n = 0
	var rec func(e gq.Expr)
	rec = func(e gq.Expr) {
		want = append(want, e)
		n++
		if !ans(n) {
			return
		}
		for _, k := range children(e) {
			rec(k)
		}
		want = append(want, nil)
	}
	rec(root)
	same = len(want) == len(got)
	for i := 0; same && i < len(want); i++ {
		same = want[i] == got[i]
	}
	if !same {
		failf("Visit makes other visits (%d, expected %d)\ntree: %s", len(got), len(want), dump(root))
	}
}

// ---- C16 ----

// full dump with positions, by reflection over all fields.
func fullDump(x any) string {
	return dump(x) + posDump(x)
}

func posDump(x any) string {
	t, ok := x.(*gq.Trigger)
	if !ok {
		return ""
	}
	var b strings.Builder
	var rec func(e gq.Expr)
	rec = func(e gq.Expr) {
		func() {
			defer func() { recover() }()
			fmt.Fprintf(&b, "%p %d-%d ", e, e.Pos(), e.End())
		}()
		for _, k := range children(e) {
			rec(k)
		}
	}
	rec(t)
	return b.String()
}

var battery = func() []*gq.Trigger {
	g := newG(77)
	var out []*gq.Trigger
	for i := 0; i < 12; i++ {
		out = append(out, g.fstmt())
	}
	return out
}()

func outcome(t *gq.Trigger, d gq.Dictionary) string {
	var b strings.Builder
	e1 := gq.Format(&b, t)
	e2 := gq.CheckType(t, d)
	n := 0
	gq.Visit(t, func(gq.Expr) bool { n++; return true })
	return fmt.Sprint(b.String(), e1, e2 == nil, n)
}

func c16(c *ctx) {
	g := c.rnd()
	t := g.fstmt()
	if g.p(1, 3) {
		src := g.source(g.stmt(2))
		if p, err := parse(c, src); err == nil {
			t = p
		}
	}
	d := gq.Dict()
	gq.Visit(t, func(e gq.Expr) bool {
		if s, ok := e.(*gq.Selector); ok && g.p(2, 3) {
			d[s.Ident] = dictTypes[g.n(len(dictTypes))]
		}
		return true
	})
	if g.p(1, 8) {
		d = nil
	}
	vs := checkOperands()
	vars, wd := checkWorld()
	if g.p(1, 2) {
		t = &gq.Trigger{Vars: vars, When: &gq.BinaryExpr{Op: binops[g.n(len(binops))], Left: vs[g.n(len(vs))], Right: vs[g.n(len(vs))]}}
		d = wd
	}
	c.note(dump(t))
	before, bd := fullDump(t), dump(d)
	same := func(what string) {
		if x := fullDump(t); x != before {
			failf("%s changes the statement\n%s", what, firstDiff(before, x))
		}
		if x := dump(d); x != bd {
			failf("%s changes the dictionary\n%s", what, firstDiff(bd, x))
		}
	}
	first := outcome(t, d)
	same("formatting, checking or walking")
	for k := 0; k < 4; k++ {
		w := &failWriter{at: g.n(30), err: io.EOF}
		gq.Format(w, t)
		same("formatting to a failing writer")
	}
	gq.CheckType(t, nil)
	same("checking without a dictionary")
	n := 0
	gq.Visit(t, func(e gq.Expr) bool { n++; return n%3 != 0 })
	same("a pruned walk")
	if x := outcome(t, d); x != first {
		failf("the second outcome differs\n%s\ntree: %s", firstDiff(first, x), dump(t))
	}
	// shared values: the outcome of fixed statements never changes
	i := g.n(len(battery))
	if x := outcome(battery[i], wd); x != baseline[i] {
		failf("the outcome of a fixed statement changed after other work\n%s\ntree: %s", firstDiff(baseline[i], x), dump(battery[i]))
	}
	_ = sort.Strings
}

var baseline = func() []string {
	var out []string
	_, wd := checkWorld()
	for _, t := range battery {
		out = append(out, outcome(t, wd))
	}
	return out
}()
