package main

import (
	"sort"
	"strconv"
	"strings"

	gq "github.com/mmadfox/go-geoql-parser"
)

// ---- formatting: the canonical text, written down independently of the code ----

func num(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }

func two(n int) string {
	if n < 10 {
		return "0" + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

var unitName = map[gq.Unit]string{gq.Kph: "Kph", gq.Mph: "Mph", gq.Celsius: "C", gq.Fahrenheit: "F", gq.Kilometer: "Km", gq.Meter: "M", gq.Bar: "Bar", gq.Psi: "Psi", gq.AM: "AM", gq.PM: "PM"}

var opText = map[gq.Token]string{gq.OR: "or", gq.AND: "and", gq.LSS: "<", gq.LEQ: "<=", gq.GTR: ">", gq.GEQ: ">=", gq.EQL: "eq",
	gq.LEQL: "==", gq.LNEQ: "!=", gq.NOT_EQ: "not eq", gq.IN: "in", gq.NOT_IN: "not in", gq.NEARBY: "nearby",
	gq.NOT_NEARBY: "not nearby", gq.INTERSECTS: "intersects", gq.NOT_INTERSECTS: "not intersects", gq.ADD: "+", gq.SUB: "-",
	gq.MUL: "*", gq.QUO: "/", gq.REM: "rem"}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func calText(e gq.Expr) string {
	switch t := e.(type) {
	case *gq.DateTyp:
		return two(t.Year) + "-" + two(t.Month) + "-" + two(t.Day)
	case *gq.TimeTyp:
		ap := t.U == gq.AM || t.U == gq.PM
		s := two(t.Hours)
		if ap {
			s = strconv.Itoa(t.Hours)
		}
		s += ":" + two(t.Minutes)
		if t.Seconds > 0 {
			s += ":" + two(t.Seconds)
		}
		if ap {
			s += unitName[t.U]
		}
		return s
	case *gq.WeekdayTyp:
		return title(dayNames[t.Val])
	case *gq.MonthTyp:
		return title(monthNames[t.Val-1])
	}
	return ""
}

func refCoord(c [2]float64) string { return "[" + num(c[0]) + ", " + num(c[1]) + "]" }

func refExpr(e gq.Expr, pad string, inline bool) string {
	switch t := e.(type) {
	case *gq.BinaryExpr:
		l, r := refExpr(t.Left, pad, inline), refExpr(t.Right, pad, inline)
		op := opText[t.Op]
		switch t.Op {
		case gq.AND, gq.OR:
			return l + " \n" + pad + op + " " + r
		case gq.ADD, gq.SUB, gq.MUL, gq.QUO:
			return l + op + r
		}
		return l + " " + op + " " + r
	case *gq.ParenExpr:
		expand := true
		if b, ok := t.Expr.(*gq.BinaryExpr); ok {
			_, lb := b.Left.(*gq.BinaryExpr)
			_, rb := b.Right.(*gq.BinaryExpr)
			expand = lb || rb
		}
		in := refExpr(t.Expr, pad+pad, inline)
		if expand {
			return "(\n" + pad + pad + in + "\n" + pad + ")"
		}
		return "(" + in + ")"
	case *gq.IntTyp:
		return strconv.Itoa(t.Val)
	case *gq.FloatTyp:
		return num(t.Val)
	case *gq.PercentTyp:
		return num(t.Val) + "%"
	case *gq.StringTyp:
		return `"` + t.Val + `"`
	case *gq.BooleanTyp:
		return strconv.FormatBool(t.Val)
	case *gq.DurationTyp:
		return t.Val.String()
	case *gq.TemperatureTyp:
		return map[gq.Sign]string{gq.Plus: "+", gq.Minus: "-"}[t.Vec] + num(t.Val) + unitText(t.U)
	case *gq.PressureTyp:
		return num(t.Val) + unitText(t.U)
	case *gq.DistanceTyp:
		return num(t.Val) + unitText(t.U)
	case *gq.SpeedTyp:
		return num(t.Val) + unitText(t.U)
	case *gq.Ref:
		return "@" + t.ID
	case *gq.Ident:
		return t.Val
	case *gq.WildcardTyp:
		return "*"
	case *gq.Assign:
		return pad + t.Left.Val + " = " + refExpr(t.Right, pad, inline) + ";"
	case *gq.Selector:
		s := t.Ident
		if len(t.Args) > 0 {
			var ids []string
			total := 0
			for k := range t.Args {
				ids = append(ids, k)
				total += len(k)
			}
			sort.Strings(ids)
			expand := !inline && total > 64
			s += "{"
			if t.Wildcard {
				s += "*, "
			}
			for i, k := range ids {
				if i > 0 {
					s += ", "
				}
				if expand {
					s += "\n" + pad + "\t"
				}
				s += `"` + k + `"`
			}
			if expand {
				s += "\n" + pad
			}
			s += "}"
		}
		if len(t.Props) > 0 {
			s += ":"
			for i, p := range t.Props {
				if i > 0 {
					s += ", "
				}
				s += refExpr(p, pad, inline)
			}
		}
		return s
	case *gq.Range:
		if k := calKind(t.Low); k != "" {
			return k + "[" + refCal(t.Low, pad) + " .. " + refCal(t.High, pad) + "]"
		}
		return refExpr(t.Low, pad, inline) + " .. " + refExpr(t.High, pad, inline)
	case *gq.ArrayTyp:
		word := map[gq.Token]string{gq.TIME: "time", gq.DATE: "date", gq.MONTH: "month", gq.WEEKDAY: "weekday"}[t.Kind]
		s := word + "["
		for i, x := range t.List {
			if i > 0 {
				s += ", "
			}
			if word != "" {
				s += refCal(x, pad)
			} else {
				s += refExpr(x, pad, inline)
			}
		}
		return s + "]"
	case *gq.DateTyp, *gq.TimeTyp, *gq.WeekdayTyp, *gq.MonthTyp:
		if inline && calBare {
			return calText(e)
		}
		return calKind(e) + "[" + calText(e) + "]"
	case *gq.GeometryPointTyp:
		s := "point" + refCoord(t.Val)
		if t.Radius != nil {
			s += ":" + refExpr(t.Radius, pad, inline)
		}
		return s
	case *gq.GeometryLineTyp:
		return refLine(t, pad, inline)
	case *gq.GeometryPolygonTyp:
		return refPolygon(t, pad, inline)
	case *gq.GeometryMultiObjectTyp:
		s := map[gq.Token]string{gq.GEOMETRY_MULTIPOINT: "multipoint", gq.GEOMETRY_MULTILINE: "multiline", gq.GEOMETRY_MULTIPOLYGON: "multipolygon"}[t.Kind] + "["
		return s + refObjs(t.Val, pad, inline) + "]"
	case *gq.GeometryCollectionTyp:
		return "collection[" + refObjs(t.Objects, pad, inline) + "]"
	}
	return "<?>"
}

func unitText(u gq.Unit) string {
	if s, ok := unitName[u]; ok {
		return s
	}
	return "?"
}

// refCal: an element of a calendar list or range.
func refCal(e gq.Expr, pad string) string {
	if calKind(e) != "" {
		return calText(e)
	}
	return refExpr(e, pad, true)
}

func refObjs(xs []gq.Expr, pad string, inline bool) string {
	s := ""
	for i, x := range xs {
		if !inline {
			s += "\n" + pad
		}
		s += refExpr(x, pad, inline)
		if i+1 < len(xs) {
			s += ", "
		}
	}
	return s
}

func refLine(t *gq.GeometryLineTyp, pad string, inline bool) string {
	expand := len(t.Val) > 4 && !inline
	s := "line["
	if expand {
		s += "\n" + pad + pad
	}
	inBlock := 0
	for i, c := range t.Val {
		s += refCoord(c)
		if i+1 < len(t.Val) {
			s += ", "
		}
		if inBlock == 4 {
			inBlock = 0
			s += "\n"
			if i+2 < len(t.Val) {
				s += pad + pad
			}
		} else {
			inBlock++
		}
	}
	if expand {
		if inBlock > 0 {
			s += "\n"
		}
		s += pad
	}
	s += "]"
	if t.Margin != nil {
		s += ":" + refExpr(t.Margin, pad, inline)
	}
	return s
}

func refPolygon(t *gq.GeometryPolygonTyp, pad string, inline bool) string {
	expand := false
	for _, r := range t.Val {
		expand = expand || len(r) > 4
	}
	expand = expand && !inline
	p2, p3 := pad+pad, pad+pad+pad
	s := "polygon["
	inBlock := 0
	for i, r := range t.Val {
		if expand {
			s += "\n" + p2
		}
		s += "["
		if expand {
			s += "\n" + p3
		}
		for j, c := range r {
			s += refCoord(c)
			if j+1 < len(r) {
				s += ", "
			}
			if inBlock == 4 {
				inBlock = 0
				s += "\n" + p3
			} else {
				inBlock++
			}
		}
		if expand {
			s += "\n" + p2
		}
		s += "]"
		if i+1 < len(t.Val) {
			s += ", "
		}
	}
	if expand {
		s += "\n" + pad
	}
	return s + "]"
}

func refFormat(t *gq.Trigger) string {
	s := "TRIGGER\n"
	if len(t.Vars) > 0 {
		s += "SET\n"
		for _, a := range t.Vars {
			s += refExpr(a, "\t", false) + "\n"
		}
	}
	s += "WHEN\n\t" + refExpr(t.When, "\t", true) + "\n"
	if t.RepeatCount != nil || t.RepeatInterval != nil {
		s += "REPEAT "
		if t.RepeatCount != nil {
			s += refExpr(t.RepeatCount, "\t", true)
		}
		if t.RepeatInterval != nil {
			s += " every " + refExpr(t.RepeatInterval, "\t", true)
		}
		s += "\n"
	}
	if t.ResetAfter != nil {
		s += "RESET after " + refExpr(t.ResetAfter, "\t", true)
	}
	return s
}

// ---- type checking ----

type class uint

const (
	cInt class = 1 << iota
	cFloat
	cString
	cBool
	cArrInt
	cArrFloat
	cArrString
	cRangeInt
	cRangeFloat
	cGeom
)

type refCheck struct {
	vars []*gq.Assign
	dict gq.Dictionary
}

// direct: the class of a literal of its own kind.
func litClass(e gq.Expr) class {
	switch e.(type) {
	case *gq.IntTyp:
		return cInt
	case *gq.FloatTyp, *gq.PercentTyp, *gq.PressureTyp, *gq.DistanceTyp, *gq.SpeedTyp, *gq.TemperatureTyp:
		return cFloat
	case *gq.StringTyp:
		return cString
	case *gq.BooleanTyp:
		return cBool
	case *gq.GeometryCollectionTyp, *gq.GeometryLineTyp, *gq.GeometryPointTyp, *gq.GeometryPolygonTyp, *gq.GeometryMultiObjectTyp:
		return cGeom
	}
	return 0
}

func (c *refCheck) find(id string) gq.Expr {
	for _, a := range c.vars {
		if a.Left.Val == id {
			return a.Right
		}
	}
	return nil
}

// scalar classes of an operand.
func (c *refCheck) scalar(e gq.Expr) class {
	switch t := e.(type) {
	case *gq.Ref:
		if r := c.find(t.ID); r != nil {
			return litClass(r)
		}
		return 0
	case *gq.Selector:
		switch c.dict[t.Ident] {
		case gq.Int, gq.ArrayInt:
			return cInt
		case gq.Float, gq.ArrayFloat:
			return cFloat
		case gq.String, gq.ArrayString:
			return cString
		case gq.Boolean:
			return cBool
		}
		return 0
	}
	return litClass(e)
}

// classes of an operand: everything the rule table may match.
func (c *refCheck) classes(e gq.Expr) class {
	k := c.scalar(e)
	arr := func(x gq.Expr) class {
		s := c.scalar(x)
		var out class
		if s&cInt != 0 {
			out |= cArrInt
		}
		if s&cFloat != 0 {
			out |= cArrFloat
		}
		if s&cString != 0 {
			out |= cArrString
		}
		return out
	}
	switch t := e.(type) {
	case *gq.Selector:
		k |= arr(t)
	case *gq.ArrayTyp:
		if len(t.List) > 0 {
			k |= arr(t.List[0])
		}
	case *gq.Ref:
		if a, ok := c.find(t.ID).(*gq.ArrayTyp); ok && len(a.List) > 0 {
			k |= arr(a.List[0])
		}
	case *gq.Range:
		s := c.scalar(t.Low)
		if s&cInt != 0 {
			k |= cRangeInt
		}
		if s&cFloat != 0 {
			k |= cRangeFloat
		}
	}
	return k
}

const numC = cInt | cFloat

// eval gives the class set of the result; 0 when the operator does not allow the operands.
func (c *refCheck) eval(op gq.Token, l, r class) (class, bool) {
	has := func(k, m class) bool { return k&m != 0 }
	arith := func() (class, bool) {
		if !has(l, numC) || !has(r, numC) {
			return 0, false
		}
		if has(l, cFloat) || has(r, cFloat) {
			return cFloat, true
		}
		return cInt, true
	}
	switch op {
	case gq.OR, gq.AND:
		return cBool, has(l, cBool) && has(r, cBool)
	case gq.EQL, gq.LEQL, gq.NOT_EQ, gq.LNEQ:
		ok := has(l, numC) && has(r, numC) || has(l, cString) && has(r, cString) || has(l, cBool) && has(r, cBool) ||
			has(l, cArrString) && has(r, cArrString) || has(l, cArrInt|cArrFloat|cGeom) && has(r, cArrInt|cArrFloat|cGeom)
		return cBool, ok
	case gq.GEQ, gq.LEQ, gq.GTR, gq.LSS:
		return cBool, has(l, numC) && has(r, numC)
	case gq.ADD:
		if k, ok := arith(); ok {
			return k, true
		}
		return cString, has(l, cString) && has(r, cString)
	case gq.SUB, gq.MUL, gq.QUO, gq.REM:
		return arith()
	case gq.IN, gq.NOT_IN:
		ok := has(l, cInt) && has(r, cArrInt|cRangeInt|cRangeFloat|cGeom) ||
			has(l, cFloat) && has(r, cArrFloat|cRangeInt|cRangeFloat|cGeom) ||
			has(l, cString) && has(r, cArrString) || has(l, cGeom) && has(r, cGeom)
		return cBool, ok
	case gq.NEARBY, gq.NOT_NEARBY, gq.INTERSECTS, gq.NOT_INTERSECTS:
		return cBool, has(l, cGeom|numC) && has(r, cGeom)
	}
	return 0, false
}

func (c *refCheck) expr(e gq.Expr) (class, bool) {
	switch t := e.(type) {
	case *gq.ParenExpr:
		return c.expr(t.Expr)
	case *gq.BinaryExpr:
		l, ok := c.expr(t.Left)
		if !ok {
			return 0, false
		}
		r, ok := c.expr(t.Right)
		if !ok {
			return 0, false
		}
		return c.eval(t.Op, l, r)
	}
	return c.classes(e), true
}

// ---- walking ----

func children(e gq.Expr) []gq.Expr {
	var out []gq.Expr
	switch t := e.(type) {
	case *gq.Trigger:
		for _, a := range t.Vars {
			out = append(out, a)
		}
		for _, x := range []gq.Expr{t.When, t.RepeatCount, t.RepeatInterval, t.ResetAfter} {
			if x != nil {
				out = append(out, x)
			}
		}
	case *gq.Assign:
		out = append(out, t.Left, t.Right)
	case *gq.BinaryExpr:
		out = append(out, t.Left, t.Right)
	case *gq.ParenExpr:
		out = append(out, t.Expr)
	case *gq.Range:
		out = append(out, t.Low, t.High)
	case *gq.Selector:
		out = append(out, t.Props...)
	case *gq.ArrayTyp:
		out = append(out, t.List...)
	case *gq.GeometryMultiObjectTyp:
		out = append(out, t.Val...)
	case *gq.GeometryCollectionTyp:
		out = append(out, t.Objects...)
	case *gq.GeometryPointTyp:
		if t.Radius != nil {
			out = append(out, t.Radius)
		}
	case *gq.GeometryLineTyp:
		if t.Margin != nil {
			out = append(out, t.Margin)
		}
	}
	return out
}
