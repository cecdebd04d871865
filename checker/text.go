package main

// Texts with unknown characters. A text is a term over its bytes; a byte is a constant or a symbol, and for each symbol the state
// keeps the set of the values it can have. Conditions on one symbol split that set, so paths carry exact sets of bytes.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type byteSet [4]uint64

func (b *byteSet) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b *byteSet) add(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b byteSet) empty() bool     { return b == byteSet{} }
func (b byteSet) enc() *Val {
	var s []string
	for _, w := range b {
		s = append(s, strconv.FormatUint(w, 16))
	}
	return vStr(strings.Join(s, "."))
}
func fullSet() byteSet { return byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func (b byteSet) list() []int {
	var r []int
	for i := 0; i < 256; i++ {
		if b.has(i) {
			r = append(r, i)
		}
	}
	return r
}

const bytePrefix = "byte~"

func isByteSym(v *Val) bool { return v.K == KSym && strings.HasPrefix(v.S, bytePrefix) }

func (s *State) byteSet(sym string) byteSet {
	v, ok := s.bind["set:"+sym]
	if !ok {
		return fullSet()
	}
	t, _ := v.strConst()
	var r byteSet
	for i, w := range strings.Split(t, ".") {
		r[i], _ = strconv.ParseUint(w, 16, 64)
	}
	return r
}
func (s *State) setBytes(sym string, b byteSet) { s.bind["set:"+sym] = b.enc() }

func vText(bs []*Val, t types.Type) *Val {
	all := true
	for _, b := range bs {
		if !b.isConst() {
			all = false
		}
	}
	if all {
		var s []byte
		for _, b := range bs {
			i, _ := b.intConst()
			s = append(s, byte(i))
		}
		return vConst(constant.MakeString(string(s)), t)
	}
	return vTerm("text", t, bs...)
}

func isText(v *Val) bool { return v.K == KTerm && v.S == "text" }

// textBytes are the bytes of a text or a constant.
func textBytes(v *Val) ([]*Val, bool) {
	if isText(v) {
		return v.A, true
	}
	if s, ok := v.strConst(); ok {
		r := []*Val{}
		for i := 0; i < len(s); i++ {
			r = append(r, vConst(constant.MakeInt64(int64(s[i])), types.Typ[types.Byte]))
		}
		return r, true
	}
	return nil, false
}

// byteSyms are the unknown bytes a term depends on; ok is false if it depends on anything else.
func byteSyms(v *Val, into map[string]bool) bool {
	switch v.K {
	case KConst, KNil:
		return true
	case KSym:
		if isByteSym(v) {
			into[v.S] = true
			return true
		}
		return false
	case KTerm:
		for _, a := range v.A {
			if !byteSyms(a, into) {
				return false
			}
		}
		return true
	case KTuple, KArr:
		for _, a := range v.A {
			if !byteSyms(a, into) {
				return false
			}
		}
		return true
	}
	return false
}

// evalBytes computes a term for given bytes.
func evalBytes(v *Val, env map[string]int) (constant.Value, bool) {
	switch v.K {
	case KConst:
		return v.C, true
	case KSym:
		i, ok := env[v.S]
		return constant.MakeInt64(int64(i)), ok
	case KTerm:
	default:
		return nil, false
	}
	if v.S == "text" {
		var s []byte
		for _, b := range v.A {
			c, ok := evalBytes(b, env)
			if !ok {
				return nil, false
			}
			i, _ := constant.Int64Val(c)
			s = append(s, byte(i))
		}
		return constant.MakeString(string(s)), true
	}
	var a []constant.Value
	for _, x := range v.A {
		c, ok := evalBytes(x, env)
		if !ok {
			return nil, false
		}
		a = append(a, c)
	}
	wrap := func(c constant.Value) (constant.Value, bool) {
		if v.T != nil {
			c = wrapInt(c, v.T)
		}
		return c, true
	}
	ints := func() bool {
		for _, c := range a {
			if c.Kind() != constant.Int {
				return false
			}
		}
		return true
	}
	switch v.S {
	case "!":
		if len(a) == 1 && a[0].Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(a[0])), true
		}
	case "==", "texteq":
		if len(a) == 2 && a[0].Kind() == a[1].Kind() {
			return constant.MakeBool(constant.Compare(a[0], token.EQL, a[1])), true
		}
	case "<":
		if len(a) == 2 && a[0].Kind() == a[1].Kind() {
			return constant.MakeBool(constant.Compare(a[0], token.LSS, a[1])), true
		}
	case "addc", "+":
		if len(a) == 2 && ints() {
			return wrap(constant.BinaryOp(a[0], token.ADD, a[1]))
		}
		if len(a) == 2 && a[0].Kind() == constant.String && a[1].Kind() == constant.String {
			return constant.MakeString(constant.StringVal(a[0]) + constant.StringVal(a[1])), true
		}
	case "strcat":
		s := ""
		for _, c := range a {
			if c.Kind() != constant.String {
				return nil, false
			}
			s += constant.StringVal(c)
		}
		return constant.MakeString(s), true
	case "&", "|", "^", "-", "*", "&^":
		ops := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "-": token.SUB, "*": token.MUL, "&^": token.AND_NOT}
		if len(a) == 2 && ints() {
			return wrap(constant.BinaryOp(a[0], ops[v.S], a[1]))
		}
	case "<<", ">>":
		if len(a) == 2 && ints() {
			n, _ := constant.Uint64Val(a[1])
			if n > 64 {
				return nil, false
			}
			op := token.SHL
			if v.S == ">>" {
				op = token.SHR
			}
			return wrap(constant.Shift(a[0], op, uint(n)))
		}
	case "index":
		if len(a) == 2 && a[0].Kind() == constant.String && a[1].Kind() == constant.Int {
			i, _ := constant.Int64Val(a[1])
			if s := constant.StringVal(a[0]); i >= 0 && i < int64(len(s)) {
				return constant.MakeInt64(int64(s[i])), true
			}
		}
	case "contains":
		if len(a) == 2 && a[0].Kind() == constant.String && a[1].Kind() == constant.String {
			return constant.MakeBool(strings.Contains(constant.StringVal(a[0]), constant.StringVal(a[1]))), true
		}
	}
	if strings.HasPrefix(v.S, "std:") {
		return stdEval(v.S[4:], a)
	}
	if strings.HasPrefix(v.S, "conv:") && len(a) == 1 && v.T != nil {
		b, ok := v.T.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch {
		case b.Info()&types.IsString != 0 && a[0].Kind() == constant.Int:
			i, _ := constant.Int64Val(a[0])
			return constant.MakeString(string(rune(i))), true
		case b.Info()&types.IsString != 0 && a[0].Kind() == constant.String:
			return a[0], true
		case b.Info()&types.IsInteger != 0 && a[0].Kind() == constant.Int:
			return wrapInt(a[0], v.T), true
		}
	}
	return nil, false
}

// byteDecide tells whether a condition on bytes is certain.
func byteDecide(st *State, c *Val) (val, known, handled bool) {
	syms := map[string]bool{}
	if !byteSyms(c, syms) || len(syms) == 0 {
		return false, false, false
	}
	if len(syms) > 1 {
		if c.S == "texteq" {
			all := true
			for i, b := range c.A[0].A {
				w, _ := textBytes(c.A[1])
				n, _ := w[i].intConst()
				if isByteSym(b) {
					set := st.byteSet(b.S)
					if !set.has(int(n)) {
						return false, true, true
					}
					if len(set.list()) > 1 {
						all = false
					}
				}
			}
			return all, all, true
		}
		v, ok := st.facts[c.Key()]
		return v, ok, true
	}
	for s := range syms {
		t, f := false, false
		for _, i := range st.byteSet(s).list() {
			r, ok := evalBytes(c, map[string]int{s: i})
			if !ok || r.Kind() != constant.Bool {
				return false, false, false
			}
			if constant.BoolVal(r) {
				t = true
			} else {
				f = true
			}
		}
		if t != f {
			return t, true, true
		}
	}
	return false, false, true
}

// byteAssume narrows the bytes to those for which the condition holds or not.
func byteAssume(st *State, c *Val, want bool) (possible, handled bool) {
	syms := map[string]bool{}
	if !byteSyms(c, syms) || len(syms) == 0 {
		return true, false
	}
	if len(syms) > 1 {
		if c.S == "texteq" && want {
			w, _ := textBytes(c.A[1])
			for i, b := range c.A[0].A {
				if isByteSym(b) {
					n, _ := w[i].intConst()
					set := st.byteSet(b.S)
					if !set.has(int(n)) {
						return false, true
					}
					var one byteSet
					one.add(int(n))
					st.setBytes(b.S, one)
				}
			}
			return true, true
		}
		st.facts[c.Key()] = want
		if !want {
			c = vTerm("!", types.Typ[types.Bool], c)
		}
		st.conds = append(st.conds[:len(st.conds):len(st.conds)], c)
		return true, true
	}
	for s := range syms {
		var n byteSet
		for _, i := range st.byteSet(s).list() {
			r, ok := evalBytes(c, map[string]int{s: i})
			if !ok || r.Kind() != constant.Bool {
				return true, false
			}
			if constant.BoolVal(r) == want {
				n.add(i)
			}
		}
		st.setBytes(s, n)
		if n.empty() {
			return false, true
		}
	}
	return true, true
}

// textEq compares texts byte by byte.
func textEq(a, b *Val) *Val {
	if isText(b) && !isText(a) {
		a, b = b, a
	}
	x, ok1 := textBytes(a)
	y, ok2 := textBytes(b)
	if !ok1 || !ok2 {
		return nil
	}
	if len(x) != len(y) {
		return vBool(false)
	}
	same := true
	for i := range x {
		if x[i].isConst() && y[i].isConst() && !constant.Compare(x[i].C, token.EQL, y[i].C) {
			return vBool(false)
		}
		if x[i].Key() != y[i].Key() {
			same = false
		}
	}
	if same {
		return vBool(true)
	}
	if !isText(b) {
		return vTerm("texteq", types.Typ[types.Bool], a, b)
	}
	return nil
}

// textConv converts between texts and lists of bytes.
func (in *Interp) textConv(st *State, v *Val, x *ssa.Convert) *Val {
	if !in.texts {
		return nil
	}
	byteList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	switch {
	case isStr(x.Type()) && byteList(x.X.Type()):
		if l, ok := in.elems(st, v); ok {
			return vText(l, x.Type())
		}
	case byteList(x.Type()) && isStr(x.X.Type()):
		if l, ok := textBytes(v); ok {
			in.seq++
			return in.list(st, "bytes~"+strconv.Itoa(in.seq), types.Typ[types.Byte], l...)
		}
	case isStr(x.Type()) && isByteSym(v):
		if t := in.runeText(st, v); t != nil {
			return retype(t, x.Type())
		}
	}
	return nil
}

// runeText: a character below 128 is its own byte.
func (in *Interp) runeText(st *State, v *Val) *Val {
	if !in.texts || !isByteSym(v) {
		return nil
	}
	for _, i := range st.byteSet(v.S).list() {
		if i >= 128 {
			return nil
		}
	}
	return vText([]*Val{v}, types.Typ[types.String])
}

// stdEval computes functions of the standard library on texts and characters.
func stdEval(name string, a []constant.Value) (constant.Value, bool) {
	str := func(i int) (string, bool) {
		if i < len(a) && a[i].Kind() == constant.String {
			return constant.StringVal(a[i]), true
		}
		return "", false
	}
	num := func(i int) (rune, bool) {
		if i < len(a) && a[i].Kind() == constant.Int {
			n, ok := constant.Int64Val(a[i])
			return rune(n), ok
		}
		return 0, false
	}
	if f, ok := map[string]func(r rune) bool{"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsPunct": unicode.IsPunct}[name]; ok {
		if r, ok := num(0); ok {
			return constant.MakeBool(f(r)), true
		}
	}
	if s, ok := str(0); ok {
		if r, ok := num(1); ok {
			switch name {
			case "strings.ContainsRune":
				return constant.MakeBool(strings.ContainsRune(s, r)), true
			case "strings.IndexRune":
				return constant.MakeInt64(int64(strings.IndexRune(s, r))), true
			case "strings.IndexByte":
				return constant.MakeInt64(int64(strings.IndexByte(s, byte(r)))), true
			}
		}
		if t, ok := str(1); ok {
			switch name {
			case "strings.Contains":
				return constant.MakeBool(strings.Contains(s, t)), true
			case "strings.ContainsAny":
				return constant.MakeBool(strings.ContainsAny(s, t)), true
			case "strings.Index":
				return constant.MakeInt64(int64(strings.Index(s, t))), true
			case "strings.HasPrefix":
				return constant.MakeBool(strings.HasPrefix(s, t)), true
			case "strings.HasSuffix":
				return constant.MakeBool(strings.HasSuffix(s, t)), true
			}
		}
	}
	return nil, false
}

var stdNames = map[string]bool{"unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsNumber": true, "unicode.IsSpace": true, "unicode.IsUpper": true, "unicode.IsLower": true, "unicode.IsControl": true, "unicode.IsPrint": true, "unicode.IsPunct": true,
	"strings.ContainsRune": true, "strings.IndexRune": true, "strings.IndexByte": true, "strings.Contains": true, "strings.ContainsAny": true, "strings.Index": true, "strings.HasPrefix": true, "strings.HasSuffix": true}

// stdTerm is the result of such a function for unknown bytes.
func (in *Interp) stdTerm(c *CallCtx) *Val {
	if !stdNames[c.name] {
		return nil
	}
	var as []*Val
	syms := map[string]bool{}
	for _, a := range c.args {
		a = c.st.norm(a)
		if !byteSyms(a, syms) {
			return nil
		}
		as = append(as, a)
	}
	t := vTerm("std:"+c.name, c.rt, as...)
	if len(syms) == 0 {
		if v, ok := evalBytes(t, nil); ok {
			return vConst(v, c.rt)
		}
		return nil
	}
	return t
}

func textLen(v *Val) (int, bool) {
	if isText(v) {
		return len(v.A), true
	}
	if s, ok := v.strConst(); ok {
		return len(s), true
	}
	return 0, false
}
