package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const (
	sInt   = "Int"
	sBool  = "Bool"
	sStr   = "Str"
	sFlt   = "Flt"
	sIface = "Iface"
	sSlice = "Slice"
)

type structInfo struct {
	name   string
	st     *types.Struct
	sort   string
	ctor   string
	fsorts []string
}

var structs = map[string]*structInfo{}

func structOf(t types.Type) (*structInfo, bool) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	n := typeName(t)
	if si, ok := structs[n]; ok {
		return si, true
	}
	if strings.ContainsAny(n, "{} ;") {
		// an unnamed structure type
		sum := sha256.Sum256([]byte(n))
		key := n
		n = "anon" + hex.EncodeToString(sum[:6])
		if u.NumFields() == 0 {
			n = "unit"
		}
		defer func() { structs[key] = structs[n] }()
	}
	si := &structInfo{name: n, st: u, sort: "S!" + n, ctor: "mk!S!" + n}
	structs[n] = si
	for i := 0; i < u.NumFields(); i++ {
		si.fsorts = append(si.fsorts, sortOf(u.Field(i).Type()))
	}
	return si, true
}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&types.IsFloat != 0:
			return sFlt
		case u.Kind() == types.UnsafePointer:
			return sInt
		case u.Kind() == types.UntypedNil:
			return sIface
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Interface:
		return sIface
	case *types.Slice:
		return sSlice
	case *types.Struct:
		si, _ := structOf(t)
		return si.sort
	case *types.Array:
		return ArrSort(sInt, sortOf(u.Elem()))
	}
	panic("sortOf: unsupported type " + t.String())
}

func mkIface(tag, pay *Term) *Term { return App("mk!iface", sIface, tag, pay) }
func ifTag(v *Term) *Term          { return getField("get!iface!0", sInt, v) }
func ifPay(v *Term) *Term          { return getField("get!iface!1", sInt, v) }

var tNilIface = mkIface(Int(0), Int(0))

func mkSlice(ref, off, ln, cp *Term) *Term { return App("mk!slice", sSlice, ref, off, ln, cp) }
func slRef(v *Term) *Term                  { return getField("get!slice!0", sInt, v) }
func slOff(v *Term) *Term                  { return getField("get!slice!1", sInt, v) }
func slLen(v *Term) *Term                  { return getField("get!slice!2", sInt, v) }
func slCap(v *Term) *Term                  { return getField("get!slice!3", sInt, v) }

var tNilSlice = mkSlice(Int(0), Int(0), Int(0), Int(0))

func (si *structInfo) mk(args []*Term) *Term { return mk(si.ctor, si.sort, "", args...) }
func (si *structInfo) get(v *Term, i int) *Term {
	return getField(fmt.Sprintf("get!S!%s!%d", si.name, i), si.fsorts[i], v)
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return fltConst("0")
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Int(0)
	case *types.Interface:
		return tNilIface
	case *types.Slice:
		return tNilSlice
	case *types.Struct:
		si, _ := structOf(t)
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, zero(u.Field(i).Type()))
		}
		return si.mk(a)
	case *types.Array:
		return ConstArr(sortOf(t), zero(u.Elem()))
	}
	panic("zero: unsupported type " + t.String())
}

func fltConst(s string) *Term { return Var("flt!"+s, sFlt) }

// type tags for interface values.
var tagIDs = map[string]int{}
var tagTypes = map[int]types.Type{}

func initTags(r *Repo) {
	var names []string
	tm := map[string]types.Type{}
	add := func(t types.Type) {
		n := typeName(t)
		if _, ok := tm[n]; !ok {
			tm[n] = t
			names = append(names, n)
		}
	}
	for _, p := range r.tpkgs {
		for _, n := range p.Scope().Names() {
			if tn, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
				if _, isI := tn.Type().Underlying().(*types.Interface); isI {
					continue
				}
				add(tn.Type())
				add(types.NewPointer(tn.Type()))
			}
		}
	}
	for k := types.Bool; k <= types.String; k++ {
		add(types.Typ[k])
	}
	sort.Strings(names)
	for i, n := range names {
		tagIDs[n] = i + 1
		tagTypes[i+1] = tm[n]
	}
}

func tagOf(t types.Type) int {
	n := typeName(t)
	if id, ok := tagIDs[n]; ok {
		return id
	}
	id := 1000 + len(tagIDs)
	tagIDs[n] = id
	tagTypes[id] = t
	return id
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structNameOfPtr(t types.Type) string {
	return typeName(deref(t))
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func fieldComp(structName, field string) string { return "F!" + structName + "!" + field }
func memComp(elem types.Type) string            { return "M!" + typeName(elem) }
func cellComp(t types.Type) string              { return "C!" + typeName(t) }
func mapComps(t *types.Map) (string, string) {
	k := typeName(t.Key()) + "!" + typeName(t.Elem())
	return "MP!" + k, "MV!" + k
}
func isImmStruct(name string) bool { return immStructs[name] }

var immStructs = map[string]bool{} // struct names declared immutable-after-publication
var immElems = map[string]bool{}   // slice element type names with the same discipline

func lastSeg(s string) string {
	if i := strings.LastIndex(s, "!"); i >= 0 {
		return s[i+1:]
	}
	return s
}
