package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	gq "github.com/mmadfox/go-geoql-parser"
)

// dump writes every exported field of a tree (positions excluded), recursively; maps in key order.
func dump(x any) string {
	var b strings.Builder
	dumpV(&b, reflect.ValueOf(x), 0)
	return b.String()
}

var posType = reflect.TypeOf(gq.Pos(0))

func dumpV(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 20000 {
		b.WriteString("<deep>")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpV(b, v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpV(b, v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name() + "{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Type == posType {
				continue
			}
			b.WriteString(f.Name + ":")
			dumpV(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			dumpV(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Array:
		b.WriteString("(")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			dumpV(b, v.Index(i), depth+1)
		}
		b.WriteString(")")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, strconv.Quote(fmt.Sprint(k.Interface()))+"="+fmt.Sprint(v.MapIndex(k).Interface()))
		}
		sort.Strings(ks)
		b.WriteString("{" + strings.Join(ks, ",") + "}")
	case reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int64, reflect.Int32:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint8, reflect.Uint, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	default:
		b.WriteString("?" + v.Kind().String())
	}
}

// firstDiff shows where two dumps part.
func firstDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if lo >= len(s) {
			return ""
		}
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("expected ...%s...\ngot      ...%s...", cut(want), cut(got))
}
