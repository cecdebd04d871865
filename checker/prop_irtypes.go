package main

// The instructions that are generated get operands of the types LLVM demands.

import (
	"fmt"
	"go/types"
	"strings"
)

func llKind(v *Val) string {
	if v == nil {
		return ""
	}
	if v.K == KIface {
		return strings.TrimPrefix(shortType(v.T), "*types.")
	}
	if v.K == KPtr && v.O.T != nil && len(v.Path) == 0 {
		return strings.TrimPrefix(shortType(types.NewPointer(v.O.T)), "*types.")
	}
	return ""
}

// llSame compares LLVM types by structure; known is false when the parts that are known do not settle it.
func (in *Interp) llSame(st *State, a, b *Val, depth int) (same, known bool) {
	if a == nil || b == nil || depth > 8 {
		return false, false
	}
	a, b = st.norm(a), st.norm(b)
	if a.inner().Key() == b.inner().Key() {
		return true, true
	}
	ka, kb := llKind(a), llKind(b)
	if ka == "" || kb == "" {
		return false, false
	}
	if ka != kb {
		return false, true
	}
	all := func(parts ...[2]*Val) (bool, bool) {
		k := true
		for _, p := range parts {
			s, ok := in.llSame(st, p[0], p[1], depth+1)
			if ok && !s {
				return false, true
			}
			k = k && ok
		}
		return k, k
	}
	num := func(f string) (bool, bool) {
		x, y := in.field(st, a, f), in.field(st, b, f)
		if x == nil || y == nil {
			return false, false
		}
		x, y = st.norm(x), st.norm(y)
		if x.Key() == y.Key() {
			return true, true
		}
		m, ok1 := x.intConst()
		n, ok2 := y.intConst()
		return m == n, ok1 && ok2
	}
	list := func(f string) (bool, bool) {
		x, ok1 := in.elems(st, in.field(st, a, f))
		y, ok2 := in.elems(st, in.field(st, b, f))
		if !ok1 || !ok2 {
			return false, false
		}
		if len(x) != len(y) {
			return false, true
		}
		var ps [][2]*Val
		for i := range x {
			ps = append(ps, [2]*Val{x[i], y[i]})
		}
		return all(ps...)
	}
	switch ka {
	case "IntType":
		return num("BitSize")
	case "FloatType":
		return num("Kind")
	case "VoidType":
		return true, true
	case "PointerType":
		return all([2]*Val{in.field(st, a, "ElemType"), in.field(st, b, "ElemType")})
	case "ArrayType":
		s1, k1 := num("Len")
		s2, k2 := all([2]*Val{in.field(st, a, "ElemType"), in.field(st, b, "ElemType")})
		if k1 && !s1 || k2 && !s2 {
			return false, true
		}
		return s1 && s2, k1 && k2
	case "StructType":
		x, y := in.field(st, a, "TypeName"), in.field(st, b, "TypeName")
		if x == nil || y == nil {
			return false, false
		}
		m, ok1 := st.norm(x).strConst()
		n, ok2 := st.norm(y).strConst()
		if !ok1 || !ok2 {
			return false, false
		}
		if m != "" || n != "" {
			return m == n, m != "" && n != ""
		}
		return list("Fields")
	case "FuncType":
		s1, k1 := all([2]*Val{in.field(st, a, "RetType"), in.field(st, b, "RetType")})
		s2, k2 := list("Params")
		if k1 && !s1 || k2 && !s2 {
			return false, true
		}
		return s1 && s2, k1 && k2
	}
	return false, false
}

// wellTyped: what is wrong with the operands of the instructions of a path, and how many instructions were judged.
func wellTyped(s *Scen, st *State) (bad string, judged, open int) {
	in := s.in
	show := func(t *Val) string {
		if t == nil {
			return "nothing"
		}
		return llName(in, st, st.norm(t))
	}
	for _, e := range st.events() {
		if !strings.HasPrefix(e.Op, "ir:") {
			continue
		}
		op := e.Op[3:]
		var decided = true
		fail := ""
		eq := func(what string, a, b *Val) {
			same, known := in.llSame(st, a, b, 0)
			if known && !same && fail == "" {
				fail = fmt.Sprintf("%s: %s and %s", what, show(a), show(b))
			}
			decided = decided && known
		}
		is := func(what string, t *Val, kinds ...string) bool {
			k := ""
			if t != nil {
				k = llKind(st.norm(t))
			}
			if k == "" {
				decided = false
				return false
			}
			for _, x := range kinds {
				if x == k {
					return true
				}
			}
			if fail == "" {
				fail = fmt.Sprintf("%s is a %s", what, show(t))
			}
			return false
		}
		ty := func(v *Val) *Val { return in.typeOf(st, v) }
		// the second operand is printed without its type: a number only has to be of the kind
		eqc := func(what string, x, y *Val) {
			tx, t2 := ty(x), ty(y)
			if v := st.norm(y).inner(); (llKind(st.norm(t2)) == "IntType" || llKind(st.norm(t2)) == "FloatType") && v.K == KPtr && strings.HasPrefix(v.O.ID, "const:") {
				if llKind(st.norm(tx)) == llKind(st.norm(t2)) {
					return
				}
			}
			eq(what, tx, t2)
		}
		elem := func(what string, p *Val) *Val {
			t := ty(p)
			if is(what, t, "PointerType") {
				return in.field(st, st.norm(t), "ElemType")
			}
			return nil
		}
		bits := func(t *Val) (int64, bool) {
			f := in.field(st, st.norm(t), "BitSize")
			if f == nil {
				return 0, false
			}
			return st.norm(f).intConst()
		}
		a := e.Args
		switch {
		case op == "Store" && len(a) == 2:
			if el := elem("the place", a[1]); el != nil {
				eq("the value and the place differ", ty(a[0]), el)
			}
		case op == "Load" && len(a) == 2:
			if el := elem("the place", a[1]); el != nil {
				eq("the type that is loaded is not the one of the place", a[0], el)
			}
			is("what is loaded", a[0], "IntType", "FloatType", "PointerType", "ArrayType", "StructType")
		case op == "Alloca" && len(a) >= 1:
			is("what is allocated", a[0], "IntType", "FloatType", "PointerType", "ArrayType", "StructType")
		case op == "ICmp" && len(a) == 3:
			if is("an operand of an integer comparison", ty(a[1]), "IntType", "PointerType") {
				eqc("the operands differ", a[1], a[2])
			}
		case op == "FCmp" && len(a) == 3:
			if is("an operand of a floating point comparison", ty(a[1]), "FloatType") {
				eqc("the operands differ", a[1], a[2])
			}
		case (op == "FAdd" || op == "FSub" || op == "FMul" || op == "FDiv" || op == "FRem") && len(a) == 2:
			if is("an operand of floating point arithmetic", ty(a[0]), "FloatType") {
				eqc("the operands differ", a[0], a[1])
			}
		case (op == "Add" || op == "Sub" || op == "Mul" || op == "SDiv" || op == "UDiv" || op == "SRem" || op == "URem" || op == "And" || op == "Or" || op == "Xor" || op == "Shl" || op == "AShr" || op == "LShr") && len(a) == 2:
			if is("an operand of integer arithmetic", ty(a[0]), "IntType") {
				eqc("the operands differ", a[0], a[1])
			}
		case castOps[op] && len(a) == 2:
			from, to := ty(a[0]), a[1]
			k := map[string][2]string{"Trunc": {"IntType", "IntType"}, "ZExt": {"IntType", "IntType"}, "SExt": {"IntType", "IntType"}, "FPTrunc": {"FloatType", "FloatType"}, "FPExt": {"FloatType", "FloatType"}, "FPToUI": {"FloatType", "IntType"}, "FPToSI": {"FloatType", "IntType"}, "UIToFP": {"IntType", "FloatType"}, "SIToFP": {"IntType", "FloatType"}, "PtrToInt": {"PointerType", "IntType"}, "IntToPtr": {"IntType", "PointerType"}}[op]
			if k[0] != "" {
				ok := is("what is converted", from, k[0])
				if is("what it is converted to", to, k[1]) && ok && k[0] == "IntType" && k[1] == "IntType" {
					m, ok1 := bits(from)
					n, ok2 := bits(to)
					if ok1 && ok2 && (op == "Trunc") != (m > n) {
						fail = fmt.Sprintf("from %s to %s", show(from), show(to))
					} else if ok1 && ok2 && m == n {
						fail = fmt.Sprintf("from %s to %s", show(from), show(to))
					}
					decided = decided && ok1 && ok2
				} else if ok && k[0] == "FloatType" && k[1] == "FloatType" {
					if same, known := in.llSame(st, from, to, 0); known && same {
						fail = fmt.Sprintf("from %s to %s", show(from), show(to))
					}
				}
			} else if op == "BitCast" {
				kf, kt := llKind(st.norm(from)), llKind(st.norm(to))
				if kf != "" && kt != "" && (kf == "PointerType") != (kt == "PointerType") {
					fail = fmt.Sprintf("from %s to %s", show(from), show(to))
				}
			}
		case op == "GetElementPtr" && len(a) >= 3:
			if el := elem("the address", a[1]); el != nil {
				eq("the type that is walked is not the one of the address", a[0], el)
			}
			for _, ix := range a[2:] {
				is("an index", ty(ix), "IntType")
			}
			t := st.norm(a[0])
			for range a[3:] {
				if k := llKind(t); k == "ArrayType" {
					t = st.norm(in.field(st, t, "ElemType"))
				} else if k == "StructType" {
					break
				} else if k != "" {
					fail = "walks into " + show(t)
					break
				} else {
					break
				}
			}
		case op == "Call" && len(a) >= 1:
			ft := elem("what is called", a[0])
			if ft == nil || !is("what is called", ft, "FuncType") {
				break
			}
			ft = st.norm(ft)
			ps, ok := in.elems(st, in.field(st, ft, "Params"))
			if !ok {
				decided = false
				break
			}
			vr, vk := st.norm(in.field(st, ft, "Variadic")).boolConst()
			args := a[1:]
			if len(args) < len(ps) || vk && !vr && len(args) > len(ps) {
				fail = fmt.Sprintf("a function of %d parameters gets %d arguments", len(ps), len(args))
				break
			}
			for i := range ps {
				eq(fmt.Sprintf("argument %d and its parameter differ", i), ty(args[i]), ps[i])
			}
		case op == "Ret":
			var fn *Val
			if e.Blk != nil {
				fn = in.field(st, vPtr(e.Blk), "Parent")
			}
			if fn == nil || st.norm(fn).inner().K != KPtr {
				decided = false
				break
			}
			sig := in.field(st, st.norm(fn).inner(), "Sig")
			if sig == nil || st.norm(sig).inner().K != KPtr {
				decided = false
				break
			}
			rt := in.field(st, st.norm(sig).inner(), "RetType")
			if len(a) == 0 || st.norm(a[0]).K == KNil {
				is("what the function returns", rt, "VoidType")
			} else {
				eq("the value returned is not of the type of the function", ty(a[0]), rt)
			}
		case op == "CondBr" && len(a) >= 1:
			if t := ty(a[0]); is("the condition", t, "IntType") {
				if n, ok := bits(t); ok && n != 1 {
					fail = "the condition is a " + show(t)
				}
			}
		case op == "Switch" && len(a) >= 1:
			is("what is switched on", ty(a[0]), "IntType")
			for _, c := range a[2:] {
				d := in.def(st, c)
				if d != nil && d.K == KTerm && d.S == "case" && len(d.A) > 0 {
					eq("a case is not of the type switched on", ty(d.A[0]), ty(a[0]))
				}
			}
		default:
			continue
		}
		if fail != "" {
			return fmt.Sprintf("%s generated in %s (%s): %s", op, e.Fn, in.w.pos(e.Pos), fail), judged, open
		}
		if decided {
			judged++
		} else {
			open++
			dbg("open: %s %v in %s at %s", op, keysOf(a), e.Fn, in.w.pos(e.Pos))
		}
	}
	return "", judged, open
}

func init() {
	register(&Prop{id: "C46",
		explanation: "Every scenario of the code generation properties, and every program the scenarios of the analysis accept, is generated by abstract interpretation; the types of the operands of every instruction on every path are compared with what the instruction demands.",
		rules:       []string{"stores, loads and address computations agree with the type of the place", "arithmetic, comparisons and conversions get operands of their kind and of one type", "calls pass what the parameters take and returns give what the function returns", "branches and switches decide on values of the right type", "every type that is used is one LLVM has"},
		run: func(w *World, a *Anchors, r *Report) {
			ca := w.compAnchors(a)
			if !a.guard(r) {
				return
			}
			if ca.newFn == nil || ca.typeOf == nil {
				r.Ob(false, "anchors", "constructor of the code generator", 0, "not found")
				return
			}
			judged, open := 0, 0
			one := func(s *Scen, st *State) (bool, string) {
				bad, j, o := wellTyped(s, st)
				judged += j
				open += o
				if bad == "" {
					bad = typesWellFormed(s, st)
				}
				return bad == "", bad
			}
			for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C07", "C09", "C11", "C12", "C13", "C40", "C43"} {
				r.again(w, a, id, "well-typed", func(s *Scen, o Outcome) (bool, string) { return one(s, o.St) })
			}
			for _, id := range []string{"C14", "C15", "C16", "C17", "C18", "C19", "C22", "C24", "C48"} {
				r.again(w, a, id, "well-typed", func(s *Scen, o Outcome) (bool, string) {
					g, outs := s.compiled(ca, o)
					for _, c := range outs {
						if ok, d := one(g, c.St); !ok {
							return false, d
						}
					}
					return true, ""
				})
			}
			dbg("judged %d open %d", judged, open)
		}})
}

// misformed tells what is wrong with a type: LLVM has no pointers to nothing, nor fields, elements or parameters of no type.
func (in *Interp) misformed(st *State, t *Val, seen map[string]bool) string {
	if t == nil {
		return ""
	}
	t = st.norm(t)
	k := llKind(t)
	if k == "" || !strings.HasSuffix(k, "Type") || seen[t.inner().Key()] {
		return ""
	}
	seen[t.inner().Key()] = true
	part := func(p *Val, what string) string {
		if p == nil {
			return ""
		}
		p = st.norm(p)
		if llKind(p) == "VoidType" {
			return what
		}
		return in.misformed(st, p, seen)
	}
	list := func(f, what string) string {
		es, ok := in.elems(st, in.field(st, t, f))
		if !ok {
			return ""
		}
		for _, p := range es {
			if p != nil && llKind(st.norm(p)) == "FuncType" {
				return what + " that is code"
			}
			if d := part(p, what+" of type void"); d != "" {
				return d
			}
		}
		return ""
	}
	switch k {
	case "PointerType":
		return part(in.field(st, t, "ElemType"), "a pointer to void")
	case "ArrayType":
		return part(in.field(st, t, "ElemType"), "an array of void")
	case "StructType":
		return list("Fields", "a field")
	case "FuncType":
		if r := in.field(st, t, "RetType"); r != nil && llKind(st.norm(r)) != "VoidType" {
			if d := in.misformed(st, r, seen); d != "" {
				return d
			}
		}
		return list("Params", "a parameter")
	}
	return ""
}

// typesWellFormed looks at every type that a path mentions.
func typesWellFormed(s *Scen, st *State) string {
	in := s.in
	seen := map[string]bool{}
	for _, e := range st.events() {
		switch {
		case strings.HasPrefix(e.Op, "ir:"), strings.HasPrefix(e.Op, "const:"), e.Op == "newfunc", e.Op == "newglobal", e.Op == "newtypedef":
		default:
			continue
		}
		for i, a := range append([]*Val{e.Res}, e.Args...) {
			if a == nil {
				continue
			}
			a = st.norm(a)
			what := a
			if k := llKind(a); !strings.HasSuffix(k, "Type") {
				if i > 0 && e.Op != "newfunc" {
					continue
				}
				if a.inner() == nil {
					continue
				}
				what = in.typeOf(st, a)
			} else if k == "VoidType" && (e.Op == "ir:Alloca" || e.Op == "ir:Load") {
				return "memory of no type is used at " + in.w.pos(e.Pos)
			}
			if d := in.misformed(st, what, seen); d != "" {
				return fmt.Sprintf("the type of %s has %s, which LLVM doesn't know (%s at %s)", strings.TrimPrefix(e.Op, "ir:"), d, e.Fn, in.w.pos(e.Pos))
			}
		}
	}
	return ""
}
