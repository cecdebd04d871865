package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- types of the language, as the rules see them -------------------------------------------------------------

type ty struct {
	k    string // num, ptr, arr, func, struct, union, void
	name string
	elem *ty
	n    int64
	ps   []*ty
	mem  []*ty // members of a union
}

func (t *ty) String() string {
	switch t.k {
	case "ptr":
		return "*" + t.elem.String()
	case "arr":
		return fmt.Sprintf("[%d]%s", t.n, t.elem)
	case "func":
		r := "func("
		for i, p := range t.ps {
			if i > 0 {
				r += ", "
			}
			r += p.String()
		}
		return r + ") " + t.elem.String()
	}
	return t.name
}

func same(a, b *ty) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case "ptr":
		return same(a.elem, b.elem)
	case "arr":
		return a.n == b.n && same(a.elem, b.elem)
	case "func":
		if len(a.ps) != len(b.ps) || !same(a.elem, b.elem) {
			return false
		}
		for i := range a.ps {
			if !same(a.ps[i], b.ps[i]) {
				return false
			}
		}
		return true
	}
	return a.name == b.name
}

func num(n string) *ty         { return &ty{k: "num", name: n} }
func ptr(t *ty) *ty            { return &ty{k: "ptr", elem: t} }
func arr(n int64, t *ty) *ty   { return &ty{k: "arr", n: n, elem: t} }
func fun(r *ty, ps ...*ty) *ty { return &ty{k: "func", elem: r, ps: ps} }

var tyVoid = &ty{k: "void", name: "void"}
var tyS, tyT = &ty{k: "struct", name: "S-id"}, &ty{k: "struct", name: "T-id"}
var tyU = &ty{k: "union", name: "U-id", mem: []*ty{num("i32"), num("f64"), ptr(num("i8"))}}

func nums() []*ty {
	var r []*ty
	for _, n := range []string{"i1", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"} {
		r = append(r, num(n))
	}
	return r
}

// typePool: every scalar, and a representative of every way to build a type, nested where it matters.
func typePool() []*ty {
	i32, i8 := num("i32"), num("i8")
	r := nums()
	return append(r, ptr(i8), ptr(i32), ptr(ptr(i32)), ptr(tyS), arr(3, i32), arr(2, i32), arr(3, i8), arr(2, arr(3, i32)), ptr(arr(3, i32)), tyS, tyT, tyU, ptr(tyU), arr(3, tyU),
		fun(tyVoid), fun(i32, i32), fun(i32, i32, i32), fun(i8, i32), fun(i32, ptr(i32)), fun(i32, tyU), fun(fun(i32, i32), i32), ptr(fun(i32, i32)))
}

// tyEnv builds the types in a scenario: each use is an object of its own, as the parser makes them, except for the named types.
type tyEnv struct {
	s     *Scen
	rec   map[string]*CT
	decls []*Val
	alias bool // named types are written by their names
}

func newTyEnv(s *Scen, alias bool) *tyEnv {
	e := &tyEnv{s: s, rec: map[string]*CT{}, alias: alias}
	add := func(kind, name string, names []string, fs ...*CT) {
		t, d := s.tRec(kind, name, names, fs...)
		e.rec[name] = t
		e.decls = append(e.decls, d)
	}
	add("Struct", "S-id", []string{"a", "b"}, s.shared("I32"), s.tPtr(s.shared("I8")))
	add("Struct", "T-id", []string{"a", "b"}, s.shared("I32"), s.tPtr(s.shared("I8")))
	add("Union", "U-id", []string{"a", "b", "c"}, s.shared("I32"), s.shared("F64"), s.tPtr(s.shared("I8")))
	return e
}

func (e *tyEnv) mk(t *ty) *CT {
	s := e.s
	switch t.k {
	case "num":
		return s.shared(string(t.name[0]-32) + t.name[1:])
	case "ptr":
		return s.tPtr(e.mk(t.elem))
	case "arr":
		return s.tArr(t.n, e.mk(t.elem))
	case "func":
		var ps []*CT
		for _, p := range t.ps {
			ps = append(ps, e.mk(p))
		}
		return s.tFunc(e.mk(t.elem), ps...)
	case "void":
		return s.voidCT()
	}
	if e.alias {
		return s.tNamed(t.name)
	}
	return e.rec[t.name]
}

// name writes a type of the analysed program the way ty.String does.
func (s *Scen) tyName(st *State, v *Val, d int) string {
	in := s.in
	v = st.norm(v)
	if v.K == KPtr && v.O.T != nil {
		v = vIface(types.NewPointer(v.O.T), v)
	}
	if v.K != KIface || d > 8 {
		return v.Key()
	}
	f := func(n string) *Val { return st.norm(in.field(st, v, n)) }
	str := func(v *Val) string {
		if x, ok := v.strConst(); ok {
			return x
		}
		return v.Key()
	}
	switch shortType(v.T) {
	case "*ctypes.Integer":
		return "i" + f("BitSize").Key()
	case "*ctypes.UInteger":
		return "u" + f("BitSize").Key()
	case "*ctypes.Float":
		return "f" + f("BitSize").Key()
	case "*ctypes.Void":
		return "void"
	case "*ctypes.Pointer":
		return "*" + s.tyName(st, f("Inner"), d+1)
	case "*ctypes.Array":
		return "[" + f("Length").Key() + "]" + s.tyName(st, f("Inner"), d+1)
	case "*ctypes.Function":
		l, _ := in.elems(st, f("Parameters"))
		r := "func("
		for i, p := range l {
			if i > 0 {
				r += ", "
			}
			r += s.tyName(st, p, d+1)
		}
		return r + ") " + s.tyName(st, f("Return"), d+1)
	case "*ctypes.Struct", "*ctypes.Union", "*ctypes.Anonymous":
		return str(f("Name"))
	}
	return v.Key()
}

// recorded is the type an expression node carries after the analysis.
func (s *Scen) recorded(st *State, x *Val) string {
	n := s.in.field(st, x, "Node")
	if n == nil {
		return "nothing"
	}
	return s.tyName(st, s.in.field(st, n, "Type"), 0)
}

// val is any expression of the type; its type is the one the analysis would have computed.
func (e *tyEnv) val(t *ty) *Val {
	al := e.alias
	e.alias = false
	v := e.s.e(e.mk(t))
	e.alias = al
	return v
}

// a slot is a place of the language that takes a value of a given type.
type slot struct {
	name    string
	coerces bool // a union takes a value of one of its members
	types   func(t *ty) bool
	build   func(e *tyEnv, want, got *ty) []*Val
}

func fits(want, got *ty, coerces bool) bool {
	if same(want, got) {
		return true
	}
	if coerces && want.k == "ptr" && got.k == "ptr" {
		return fits(want.elem, got.elem, true)
	}
	if coerces && want.k == "union" {
		for _, m := range want.mem {
			if same(m, got) {
				return true
			}
		}
	}
	return false
}

func slots() []slot {
	any := func(t *ty) bool { return true }
	return []slot{
		{"declaration", true, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.vdecl("x-id", e.mk(w), e.val(g), false))}
		}},
		{"global declaration", true, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.vdecl("x-id", e.mk(w), e.val(g), false)}
		}},
		{"constant declaration", true, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.vdecl("x-id", e.mk(w), e.val(g), true))}
		}},
		{"assignment", true, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.asg(e.s.pop("Multiply", e.val(ptr(w))), e.val(g)))}
		}},
		{"assignment to a variable", true, any, func(e *tyEnv, w, g *ty) []*Val {
			f, _ := e.s.fnc("f-id", nil, []string{"x-id"}, []*CT{e.mk(w)}, e.s.asg(e.s.va("x-id"), e.val(g)))
			return []*Val{f}
		}},
		{"list declaration", false, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.mk("MultipleDeclarationStatement", "Names", e.s.strs([]string{"x-id", "y-id"}), "Type", e.mk(w), "Expression", e.s.e(e.s.tList(e.mk(w), e.mk(g))), "Constant", false))}
		}},
		{"list assignment", false, any, func(e *tyEnv, w, g *ty) []*Val {
			l := e.s.mk("CommaExpressions", "Expressions", []*Val{e.s.pop("Multiply", e.val(ptr(w))), e.s.pop("Multiply", e.val(ptr(w)))}, "IsAssignment", true)
			r := e.s.mk("CommaExpressions", "Expressions", []*Val{e.val(w), e.val(g)})
			return []*Val{e.s.inMain(e.s.asg(l, r))}
		}},
		{"list assignment of a call", false, any, func(e *tyEnv, w, g *ty) []*Val {
			l := e.s.mk("CommaExpressions", "Expressions", []*Val{e.s.pop("Multiply", e.val(ptr(num("i8")))), e.s.pop("Multiply", e.val(ptr(w)))}, "IsAssignment", true)
			return []*Val{e.s.inMain(e.s.asg(l, e.s.e(e.s.tList(e.s.shared("I8"), e.mk(g)))))}
		}},
		{"second of the returned values", false, any, func(e *tyEnv, w, g *ty) []*Val {
			f, _ := e.s.fnc("f-id", e.s.tList(e.s.shared("I8"), e.mk(w)), nil, nil, e.s.ret(e.s.mk("CommaExpressions", "Expressions", []*Val{e.val(num("i8")), e.val(g)})))
			return []*Val{f}
		}},
		{"third argument of a declared function", false, any, func(e *tyEnv, w, g *ty) []*Val {
			f, _ := e.s.fnc("f-id", nil, []string{"x-id", "y-id", "z-id"}, []*CT{e.s.shared("I8"), e.mk(w), e.mk(w)})
			return []*Val{f, e.s.inMain(e.s.xs(e.s.mk("Call", "Left", e.s.va("f-id"), "Parameters", []*Val{e.val(num("i8")), e.val(w), e.val(g)})))}
		}},
		{"argument", false, any, func(e *tyEnv, w, g *ty) []*Val {
			f, _ := e.s.fnc("f-id", nil, []string{"x-id"}, []*CT{e.mk(w)})
			return []*Val{f, e.s.inMain(e.s.xs(e.s.mk("Call", "Left", e.s.va("f-id"), "Parameters", []*Val{e.val(g)})))}
		}},
		{"second argument of a function value", false, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.xs(e.s.mk("Call", "Left", e.val(fun(tyVoid, num("i8"), w)), "Parameters", []*Val{e.val(num("i8")), e.val(g)})))}
		}},
		{"return", false, any, func(e *tyEnv, w, g *ty) []*Val {
			f, _ := e.s.fnc("f-id", e.mk(w), nil, nil, e.s.ret(e.val(g)))
			return []*Val{f}
		}},
		{"return of a function expression", false, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.vdecl("x-id", nil, e.s.lambda(e.mk(w), nil, nil, e.s.ret(e.val(g))), false))}
		}},
		{"return of a block expression", false, any, func(e *tyEnv, w, g *ty) []*Val {
			b := e.s.mk("ExpressionBlock", "Node.Type", e.mk(w), "Block", e.s.blk(e.s.ret(e.val(g))))
			return []*Val{e.s.inMain(e.s.xs(b))}
		}},
		{"return after a function expression", false, any, func(e *tyEnv, w, g *ty) []*Val {
			l := e.s.lambda(e.s.shared("I16"), nil, nil, e.s.ret(e.val(num("i16"))))
			f, _ := e.s.fnc("f-id", e.mk(w), nil, nil, e.s.vdecl("x-id", nil, l, false), e.s.ret(e.val(g)))
			return []*Val{f}
		}},
		{"return after a block expression", false, any, func(e *tyEnv, w, g *ty) []*Val {
			b := e.s.mk("ExpressionBlock", "Node.Type", e.s.shared("I16"), "Block", e.s.blk(e.s.ret(e.val(num("i16")))))
			f, _ := e.s.fnc("f-id", e.mk(w), nil, nil, e.s.xs(b), e.s.ret(e.val(g)))
			return []*Val{f}
		}},
		{"struct literal field", true, any, func(e *tyEnv, w, g *ty) []*Val {
			t, d := e.s.tRec("Struct", "R-id", []string{"p", "q"}, e.s.shared("I16"), e.mk(w))
			_ = t
			return []*Val{d, e.s.inMain(e.s.xs(e.s.structLit("R-id", []string{"p", "q"}, e.val(num("i16")), e.val(g))))}
		}},
		{"second element of an array literal", false, any, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.xs(e.s.mk("ArrayLiteral", "Node.Type", e.s.tArr(2, e.mk(w)), "Values", []*Val{e.val(w), e.val(g)})))}
		}},
		{"switch case", false, func(t *ty) bool { return t.k == "num" && t.name[0] != 'f' }, func(e *tyEnv, w, g *ty) []*Val {
			return []*Val{e.s.inMain(e.s.switchStmt(e.s.nextID("switch"), e.val(w), [][2]*Val{{e.val(g), e.s.blk().inner()}}, nil))}
		}},
	}
}

func (s *Scen) structLit(name string, names []string, vs ...*Val) *Val {
	vt := s.in.w.typ("internals/ast", "StructValue")
	var l []*Val
	for i, n := range names {
		o := s.in.newObj(s.st, s.nextID("sv"), vt)
		s.in.setField(s.st, o, "Name", vStr(n))
		s.in.setField(s.st, o, "Expression", vs[i])
		l = append(l, s.st.content(o.O))
	}
	return s.mk("StructLiteral", "Name", name, "Module", "", "Values", l)
}

func init() {
	register(&Prop{id: "C14",
		explanation: "Programs that put a value of each type into each place with a type (abstract expressions; types nested, written out or by name) are followed through the analyzer on every path; the accepted pairs are compared with the language's rule.",
		rules:       []string{"a typed place takes exactly values of the same type; a union place of a declaration, assignment or struct literal also takes values of its members"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			// types that differ in one part from others of the pool
			i32, i8 := num("i32"), num("i8")
			pool := append(typePool(), fun(i32), fun(tyVoid, i32), fun(tyS), fun(tyT), fun(i32, arr(2, i32)), fun(i32, arr(3, i32)), fun(i32, ptr(i8)), ptr(arr(2, i32)), ptr(tyT), arr(3, ptr(i32)), arr(3, ptr(i8)),
				arr(3, tyS), arr(3, tyT), arr(2, fun(i32)), arr(2, fun(tyVoid)), ptr(ptr(ptr(i32))), fun(ptr(tyU)), fun(ptr(i32)))
			for _, sl := range slots() {
				for wi, want := range pool {
					if !sl.types(want) {
						continue
					}
					for gi, got := range pool {
						if !r.thorough && !same(want, got) && want.k != "union" && (wi+gi)%3 != 0 && !(want.k == got.k && want.k != "num") {
							continue
						}
						if r.override != nil && !fits(want, got, sl.coerces) {
							continue
						}
						dbg("slot %s %s %s", sl.name, want, got)
						s := NewSem(w, a, sa)
						e := newTyEnv(s, (wi+gi)%2 == 0)
						s.declared = nil
						prog := append(append([]*Val{}, e.decls...), sl.build(e, want, got)...)
						if !strings.HasSuffix(sl.name, "declaration") || sl.name == "list declaration" {
							s.declared = nil
						}
						r.judge(s, s.verdicts(prog...), sl.name, fmt.Sprintf("%s takes %s", want, got), fits(want, got, sl.coerces), func(o Outcome) (bool, string) {
							for _, d := range s.declared {
								if g := s.tyName(o.St, s.in.field(o.St, d, "Type"), 0); d != nil && g != want.String() {
									return false, fmt.Sprintf("the variable is handed on as %s, but is declared as %s", g, want)
								}
							}
							return true, ""
						})
					}
				}
			}
		}})
}
