package main

// Abstract values of the abstract interpreter.
//
// The domain is a term domain: every abstract value is a constant, a symbol standing for "any value reaching this
// point from that source" (a parameter, a field of an unknown object, the result of a call that is not followed),
// an address of an abstract object, or a term over those. Nothing here is ever a concrete run-time input.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst Kind = iota
	KNil
	KSym
	KPtr
	KIface
	KStruct
	KArr
	KSlice
	KVec // heap content of a slice backing store
	KMap // reference to a map object
	KMapV
	KFunc
	KTuple
	KLin
	KTerm
	KIter
)

type Obj struct {
	ID   string
	T    types.Type // type of the content
	Root bool       // exists before the analysed call (symbolic root or global)
	Seq  int
}

type Val struct {
	K    Kind
	T    types.Type
	C    constant.Value
	S    string
	O    *Obj
	Path []int
	A    []*Val
	M    map[string]*Val
	MK   map[string]*Val
	N    int // slice: number of known elements after base (may be negative); KLin: offset
	Off  int
	Fn   *ssa.Function
	key  string
}

func (v *Val) Key() string {
	if v == nil {
		return "<nil>"
	}
	if v.key != "" {
		return v.key
	}
	var b strings.Builder
	switch v.K {
	case KConst:
		if v.C.Kind() == constant.String {
			b.WriteString(strconv.Quote(constant.StringVal(v.C)))
		} else {
			b.WriteString(v.C.ExactString())
		}
	case KNil:
		b.WriteString("nil")
	case KSym:
		b.WriteString(v.S)
	case KPtr:
		b.WriteString("&" + v.O.ID)
		for _, p := range v.Path {
			fmt.Fprintf(&b, ".%d", p)
		}
	case KIface:
		b.WriteString("i{" + shortType(v.T) + "," + v.A[0].Key() + "}")
	case KSlice:
		id := ""
		if v.O != nil {
			id = v.O.ID
		}
		fmt.Fprintf(&b, "sl{%s;%s;%d;%d}", id, v.S, v.Off, v.N)
	case KMap:
		b.WriteString("map{" + v.O.ID + "}")
	case KFunc:
		b.WriteString("fn{" + v.Fn.String())
		for _, a := range v.A {
			b.WriteString("," + a.Key())
		}
		b.WriteString("}")
	case KLin:
		fmt.Fprintf(&b, "len(%s)%+d", v.S, v.N)
	case KVec, KMapV:
		b.WriteString("{" + v.S + ":")
		ks := make([]string, 0, len(v.M))
		for k := range v.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k + "=" + v.M[k].Key() + ";")
		}
		b.WriteString("}")
	case KTerm:
		b.WriteString(v.S + "(")
		for i, a := range v.A {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(a.Key())
		}
		b.WriteString(")")
	default:
		fmt.Fprintf(&b, "k%d(", v.K)
		for i, a := range v.A {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(a.Key())
		}
		b.WriteString(")")
	}
	v.key = b.String()
	return v.key
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func vInt(i int64) *Val                { return &Val{K: KConst, C: constant.MakeInt64(i), T: types.Typ[types.Int]} }
func vIntT(i int64, t types.Type) *Val { return &Val{K: KConst, C: constant.MakeInt64(i), T: t} }
func vStr(s string) *Val {
	return &Val{K: KConst, C: constant.MakeString(s), T: types.Typ[types.String]}
}
func vBool(b bool) *Val                          { return &Val{K: KConst, C: constant.MakeBool(b), T: types.Typ[types.Bool]} }
func vConst(c constant.Value, t types.Type) *Val { return &Val{K: KConst, C: c, T: t} }
func vNil(t types.Type) *Val                     { return &Val{K: KNil, T: t} }
func vSym(s string, t types.Type) *Val           { return &Val{K: KSym, S: s, T: t} }
func vTerm(op string, t types.Type, a ...*Val) *Val {
	return &Val{K: KTerm, S: op, A: a, T: t}
}
func vPtr(o *Obj, path ...int) *Val {
	return &Val{K: KPtr, O: o, Path: path, T: nil}
}
func vIface(dyn types.Type, v *Val) *Val { return &Val{K: KIface, T: dyn, A: []*Val{v}} }

func (v *Val) isConst() bool { return v != nil && v.K == KConst }
func (v *Val) intConst() (int64, bool) {
	if v == nil || v.K != KConst || v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}
func (v *Val) strConst() (string, bool) {
	if v == nil || v.K != KConst || v.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v.C), true
}
func (v *Val) boolConst() (bool, bool) {
	if v == nil || v.K != KConst || v.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.C), true
}

// inner strips interface wrapping.
func (v *Val) inner() *Val {
	for v != nil && v.K == KIface {
		v = v.A[0]
	}
	return v
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func zeroVal(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return vConst(constant.MakeString(""), t)
		case u.Info()&types.IsBoolean != 0:
			return vConst(constant.MakeBool(false), t)
		case u.Info()&types.IsNumeric != 0:
			return vConst(constant.MakeInt64(0), t)
		}
		return vNil(t)
	case *types.Struct:
		a := make([]*Val, u.NumFields())
		for i := range a {
			a[i] = zeroVal(u.Field(i).Type())
		}
		return &Val{K: KStruct, T: t, A: a}
	case *types.Array:
		if u.Len() > 4096 {
			return vSym("bigarray", t)
		}
		a := make([]*Val, u.Len())
		z := zeroVal(u.Elem())
		for i := range a {
			a[i] = z
		}
		return &Val{K: KArr, T: t, A: a}
	case *types.Tuple:
		a := make([]*Val, u.Len())
		for i := range a {
			a[i] = zeroVal(u.At(i).Type())
		}
		return &Val{K: KTuple, T: t, A: a}
	}
	return vNil(t)
}

// expand turns a symbolic struct/array into an explicit one so a component can be replaced.
func expand(v *Val) *Val {
	if v.K != KSym || v.T == nil {
		return v
	}
	switch u := v.T.Underlying().(type) {
	case *types.Struct:
		a := make([]*Val, u.NumFields())
		for i := range a {
			a[i] = vSym(v.S+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return &Val{K: KStruct, T: v.T, A: a}
	case *types.Array:
		a := make([]*Val, u.Len())
		for i := range a {
			a[i] = vSym(fmt.Sprintf("%s[%d]", v.S, i), u.Elem())
		}
		return &Val{K: KArr, T: v.T, A: a}
	}
	return v
}

func component(v *Val, i int) *Val {
	switch v.K {
	case KStruct, KArr, KTuple:
		if i >= 0 && i < len(v.A) {
			return v.A[i]
		}
	case KVec:
		if e, ok := v.M[strconv.Itoa(i)]; ok {
			return e
		}
		et := types.Type(nil)
		if v.T != nil {
			et = v.T
		}
		if v.S == "" {
			if et != nil {
				return zeroVal(et)
			}
			return vSym("undef", et)
		}
		return vSym(fmt.Sprintf("%s[%d]", v.S, i), et)
	case KSym, KTerm:
		nm := v.Key()
		if v.T != nil {
			switch u := v.T.Underlying().(type) {
			case *types.Struct:
				if i < u.NumFields() {
					return vSym(nm+"."+u.Field(i).Name(), u.Field(i).Type())
				}
			case *types.Array:
				return vSym(fmt.Sprintf("%s[%d]", nm, i), u.Elem())
			case *types.Tuple:
				return vSym(fmt.Sprintf("%s#%d", nm, i), u.At(i).Type())
			}
		}
		return vSym(fmt.Sprintf("%s#%d", nm, i), nil)
	}
	return vSym("?", nil)
}

func setPath(v *Val, path []int, nv *Val) *Val {
	if len(path) == 0 {
		return nv
	}
	if v.K == KVec {
		m := make(map[string]*Val, len(v.M)+1)
		for k, e := range v.M {
			m[k] = e
		}
		m[strconv.Itoa(path[0])] = setPath(component(v, path[0]), path[1:], nv)
		return &Val{K: KVec, S: v.S, M: m, T: v.T}
	}
	v = expand(v)
	if v.K != KStruct && v.K != KArr {
		return v
	}
	a := append([]*Val(nil), v.A...)
	if path[0] >= 0 && path[0] < len(a) {
		a[path[0]] = setPath(a[path[0]], path[1:], nv)
	}
	return &Val{K: v.K, T: v.T, A: a}
}

func getPath(v *Val, path []int) *Val {
	for _, p := range path {
		v = component(v, p)
	}
	return v
}
