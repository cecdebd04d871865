package main

import "fmt"

// Which operands an operator takes, and the type of what it yields.

func isNum(t *ty) bool      { return t.k == "num" }
func isFlt(t *ty) bool      { return t.k == "num" && t.name[0] == 'f' }
func isInt(t *ty) bool      { return t.k == "num" && t.name[0] != 'f' }
func isUns(t *ty) bool      { return t.k == "num" && t.name[0] == 'u' }
func isPtr(t *ty) bool      { return t.k == "ptr" }
func isStrTy(t *ty) bool    { return t.k == "ptr" && t.elem.k == "num" && t.elem.name == "i8" }
func isCmp(op string) bool  { return cmpTyOps[op] }
func isBits(op string) bool { return op == "BinaryAND" || op == "BinaryOR" || op == "BinaryXOR" }

var cmpTyOps = map[string]bool{"Equals": true, "NotEquals": true, "LessThan": true, "LessThanEqual": true, "GreaterThan": true, "GreaterThanEqual": true, "AND": true, "OR": true}
var binOps = []string{"Add", "Subtract", "Multiply", "Divide", "Modulo", "BinaryAND", "BinaryOR", "BinaryXOR", "LeftShift", "RightShift",
	"Equals", "NotEquals", "LessThan", "LessThanEqual", "GreaterThan", "GreaterThanEqual", "AND", "OR"}

// binRule gives the type of l op r, nil when the operator does not take these operands; known is false where the language leaves it open.
func binRule(op string, l, r *ty) (res *ty, known bool) {
	switch {
	case (op == "Add" || op == "Subtract") && isPtr(l) && isInt(r):
		return l, true
	case op == "LeftShift" || op == "RightShift":
		if isInt(l) && isUns(r) {
			return nil, false
		}
		if isInt(l) && isInt(r) {
			return l, true
		}
		return nil, true
	case !same(l, r):
		return nil, true
	case isCmp(op):
		if isNum(l) || isPtr(l) {
			return num("i1"), true
		}
		return nil, true
	case isBits(op):
		if isInt(l) {
			return l, true
		}
		return nil, true
	case isNum(l):
		return l, true
	case op == "Add" && isStrTy(l):
		return l, true
	}
	return nil, true
}

func castRule(from, to *ty) bool {
	switch {
	case isNum(from):
		return isNum(to) || isPtr(to)
	case isPtr(from):
		return isInt(to) || isPtr(to)
	case from.k == "arr":
		return isPtr(to)
	}
	return false
}

// opForm is an expression over operands of some types.
type opForm struct {
	name  string
	types []*ty
	res   *ty // nil: not accepted
	void  bool
	stmt  bool // builds a statement instead of an expression
	build func(e *tyEnv, v []*Val) *Val
}

func opForms(thorough bool) []opForm {
	var r []opForm
	pool := append(typePool(), ptr(tyT), arr(1, ptr(num("i8"))))
	i1 := num("i1")
	for _, op := range binOps {
		op := op
		for li, l := range pool {
			for ri, x := range pool {
				res, known := binRule(op, l, x)
				if !known {
					continue
				}
				if res == nil && !thorough && !same(l, x) && (li*7+ri)%5 != len(op)%5 && !(l.k == x.k && l.k != "num") {
					continue
				}
				r = append(r, opForm{name: op, types: []*ty{l, x}, res: res, build: func(e *tyEnv, v []*Val) *Val { return e.s.bop(op, v[0], v[1]) }})
			}
		}
	}
	pre := func(op string, rule func(t *ty) *ty) {
		for _, t := range append(pool, tyVoid) {
			r = append(r, opForm{name: "prefix " + op, types: []*ty{t}, res: rule(t), build: func(e *tyEnv, v []*Val) *Val { return e.s.pop(op, v[0]) }})
		}
	}
	numOnly := func(t *ty) *ty {
		if isNum(t) {
			return t
		}
		return nil
	}
	pre("Add", numOnly)
	pre("Subtract", numOnly)
	for _, op := range []string{"AddOne", "SubtractOne"} {
		op := op
		for _, t := range pool {
			r = append(r, opForm{name: "prefix " + op + " of *p", types: []*ty{ptr(t)}, res: numOnly(t), build: func(e *tyEnv, v []*Val) *Val { return e.s.pop(op, e.s.pop("Multiply", v[0])) }})
		}
	}
	pre("Bang", func(t *ty) *ty {
		if isNum(t) || isPtr(t) {
			return i1
		}
		return nil
	})
	pre("Multiply", func(t *ty) *ty {
		if isPtr(t) {
			return t.elem
		}
		return nil
	})
	for _, t := range pool {
		r = append(r, opForm{name: "prefix BinaryAND", types: []*ty{t}, res: ptr(t), build: func(e *tyEnv, v []*Val) *Val { return e.s.pop("BinaryAND", v[0]) }})
	}
	// indexing
	for li, l := range pool {
		for xi, x := range pool {
			var res *ty
			if (isPtr(l) || l.k == "arr") && isInt(x) {
				res = l.elem
			}
			if res == nil && !thorough && (li+xi)%3 != 0 {
				continue
			}
			r = append(r, opForm{name: "index", types: []*ty{l, x}, res: res, build: func(e *tyEnv, v []*Val) *Val {
				return e.s.mk("IndexAccess", "Left", v[0], "Access", v[1])
			}})
		}
	}
	// conditions
	cond := func(name string, build func(e *tyEnv, v []*Val) *Val) {
		for _, t := range append(pool, tyVoid) {
			f := opForm{name: name, types: []*ty{t}, stmt: true, build: build}
			if isNum(t) {
				f.res = tyVoid
			}
			r = append(r, f)
		}
	}
	cond("condition of an if", func(e *tyEnv, v []*Val) *Val { return e.s.iff(v[0], e.s.blk(), nil) })
	cond("condition of an else-if", func(e *tyEnv, v []*Val) *Val {
		return e.s.ifStmt(e.s.nextID("if"), e.val(i1), e.s.blk().inner(), [][2]*Val{{v[0], e.s.blk().inner()}}, nil)
	})
	cond("condition of a for", func(e *tyEnv, v []*Val) *Val {
		return e.s.mk("ForStatement", "Condition", v[0], "Block", e.s.blk())
	})
	for _, t := range append(pool, tyVoid) {
		f := opForm{name: "subject of a switch", types: []*ty{t}, stmt: true, build: func(e *tyEnv, v []*Val) *Val {
			return e.s.switchStmt(e.s.nextID("switch"), v[0], nil, e.s.blk().inner())
		}}
		if isInt(t) {
			f.res = tyVoid
		}
		r = append(r, f)
	}
	// built-in functions
	bc := func(name string, res *ty, ts []*ty, tp ...*ty) {
		r = append(r, opForm{name: "@" + name + tpName(tp), types: ts, res: res, void: res == tyVoid, build: func(e *tyEnv, v []*Val) *Val {
			var l []*CT
			for _, t := range tp {
				l = append(l, e.mk(t))
			}
			return e.s.mk("BuiltinCall", "Name", name, "TypeParameters", l, "Parameters", v)
		}})
	}
	for ti, to := range pool {
		for fi, from := range pool {
			res := to
			if !castRule(from, to) {
				res = nil
			}
			if !thorough && (from.k != to.k || res == nil) && (ti+fi)%3 != 0 {
				continue
			}
			bc("cast", res, []*ty{from}, to)
		}
		bc("sizeof", num("i32"), nil, to)
		for _, n := range append(nums(), ptr(num("i8")), tyS, arr(3, num("i32"))) {
			res := ptr(to)
			if !isInt(n) {
				res = nil
			}
			if !thorough && ti%4 != 0 && n.name != "i32" && n.name != "f32" {
				continue
			}
			bc("alloc", res, []*ty{n}, to)
		}
		if isPtr(to) {
			bc("realloc", to, []*ty{to, num("i64")})
			bc("free", tyVoid, []*ty{to})
		} else {
			bc("realloc", nil, []*ty{to, num("i64")})
			bc("free", nil, []*ty{to})
		}
		if !isUns(to) {
			res := ptr(num("i32"))
			if !isInt(to) {
				res = nil
			}
			bc("realloc", res, []*ty{ptr(num("i32")), to})
		}
		bc("print", tyVoid, []*ty{to})
		bc("print", tyVoid, []*ty{num("i32"), to})
	}
	bc("print", nil, []*ty{tyVoid})
	bc("print", nil, []*ty{num("i32"), tyVoid})
	return r
}

func tpName(ts []*ty) string {
	if len(ts) == 0 {
		return ""
	}
	s := " of"
	for _, t := range ts {
		s += " " + t.String()
	}
	return s
}

func init() {
	register(&Prop{id: "C15",
		explanation: "Programs that apply each operator, condition, index, conversion and built-in function to abstract operands of each combination of types are followed through the analyzer on every path: accepted combinations, and the type the result is then given, are compared with the language's rules.",
		rules:       []string{"an operator is accepted exactly on operands it is defined for", "its result has the type the language gives it, and that type is what the compiler is told"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			for i, f := range opForms(r.thorough) {
				construct := f.name
				for j, t := range f.types {
					if j == 0 {
						construct += " on " + t.String()
					} else {
						construct += ", " + t.String()
					}
				}
				// want is the type the result is put to; nil leaves it unused
				run := func(want *ty, valid bool, what string) {
					if r.override != nil && !valid {
						return
					}
					s := NewSem(w, a, sa)
					e := newTyEnv(s, i%2 == 0)
					var v []*Val
					for _, t := range f.types {
						v = append(v, e.val(t))
					}
					x := f.build(e, v)
					prog := append([]*Val{}, e.decls...)
					switch {
					case f.stmt:
						prog = append(prog, s.inMain(x))
					case want == nil:
						prog = append(prog, s.inMain(s.xs(x)))
					default:
						fn, _ := s.fnc("f-id", e.mk(want), nil, nil, s.ret(x))
						prog = append(prog, fn)
					}
					r.judge(s, s.verdicts(prog...), "operands", construct+what, valid, func(o Outcome) (bool, string) {
						if want == nil {
							return true, ""
						}
						got := s.recorded(o.St, x)
						return got == want.String(), fmt.Sprintf("the expression is recorded as %s, but is %s", got, want)
					})
				}
				switch {
				case f.res == nil || f.stmt || f.void:
					run(nil, f.res != nil, "")
				default:
					run(f.res, true, fmt.Sprintf(" yields %s", f.res))
					other := num("i16")
					if same(other, f.res) {
						other = num("u16")
					}
					run(other, false, fmt.Sprintf(" is no %s", other))
				}
			}
		}})
}
