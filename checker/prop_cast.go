package main

import (
	"fmt"
)

type castKind struct {
	name string
	kind string // B, S, U, F
	bits int
	mk   func(s *Scen) *CT
}

func castKinds() []castKind {
	r := []castKind{{"i1", "B", 1, func(s *Scen) *CT { return s.shared("I1") }}}
	for _, b := range []int{8, 16, 32, 64} {
		b := b
		r = append(r, castKind{fmt.Sprintf("i%d", b), "S", b, func(s *Scen) *CT { return s.shared(fmt.Sprintf("I%d", b)) }})
		r = append(r, castKind{fmt.Sprintf("u%d", b), "U", b, func(s *Scen) *CT { return s.shared(fmt.Sprintf("U%d", b)) }})
	}
	r = append(r, castKind{"f32", "F", 32, func(s *Scen) *CT { return s.shared("F32") }}, castKind{"f64", "F", 64, func(s *Scen) *CT { return s.shared("F64") }})
	return r
}

// castTerm is the conversion the language prescribes.
func castTerm(from, to castKind, x, pre string) string {
	ll := fmt.Sprintf("i%d", to.bits)
	if to.kind == "F" {
		ll = map[int]string{32: "float", 64: "double"}[to.bits]
	}
	c := func(op string) string { return pre + op + "(" + x + "->" + ll + ")" }
	switch {
	case from.kind == "F" && to.kind == "F":
		switch {
		case from.bits > to.bits:
			return c("FPTrunc")
		case from.bits < to.bits:
			return c("FPExt")
		}
		return x
	case from.kind == "F":
		if to.kind == "U" {
			return c("FPToUI")
		}
		return c("FPToSI")
	case to.kind == "F":
		if from.kind == "S" {
			return c("SIToFP")
		}
		return c("UIToFP")
	}
	switch {
	case from.bits > to.bits:
		return c("Trunc")
	case from.bits < to.bits:
		if from.kind == "S" {
			return c("SExt")
		}
		return c("ZExt")
	}
	return x
}

func init() {
	register(&Prop{id: "C05",
		explanation: "Abstract interpretation of the conversion generator over every ordered pair of the language's numeric types and the pointer conversions; the conversion instruction on every path is compared with the conversion table.",
		rules:       []string{"integer widening follows the sign of the source (booleans and unsigned zero-extend), narrowing truncates, equal widths keep the bits", "float to integer follows the sign of the target, integer to float the sign of the source", "pointer/integer and pointer/pointer casts preserve the address; an array decays to the address of its first element", "element counts given to allocation builtins widen the same way"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, f := range castKinds() {
				for _, t := range castKinds() {
					if t.kind == "B" && f.kind == "F" {
						continue
					}
					for _, m := range []Mode{LV, RV, RVF} {
						s := NewScen(w, a)
						ft, tt := f.mk(s), t.mk(s)
						root := s.builtin("cast", []*CT{tt}, tt, s.addChild("P0", ft, m))
						want := castTerm(f, t, operand("P0", m), "")
						r.outcomes(s, s.run(a.compileExpr, root), "conversion", f.name+" to "+t.name, func(o Outcome) (bool, string) {
							return oneOf(s.rv(o), []string{want})
						})
					}
				}
			}
			for _, m := range []Mode{LV, RVF} {
				x := operand("P0", m)
				for _, k := range castKinds() {
					if k.kind == "F" || k.kind == "B" {
						continue
					}
					s := NewScen(w, a)
					kt := k.mk(s)
					pt := s.in.ptrTo(s.st, s.shared("I32"))
					root := s.builtin("cast", []*CT{kt}, kt, s.addChild("P0", pt, m))
					r.outcomes(s, s.run(a.compileExpr, root), "pointer-conversion", "pointer to "+k.name, func(o Outcome) (bool, string) {
						return oneOf(s.rv(o), []string{fmt.Sprintf("PtrToInt(%s->i%d)", x, k.bits)})
					})
					s = NewScen(w, a)
					kt = k.mk(s)
					pt = s.in.ptrTo(s.st, s.shared("I32"))
					root = s.builtin("cast", []*CT{pt}, pt, s.addChild("P0", kt, m))
					r.outcomes(s, s.run(a.compileExpr, root), "pointer-conversion", k.name+" to pointer", func(o Outcome) (bool, string) {
						return oneOf(s.rv(o), []string{"IntToPtr(" + x + "->i32*)"})
					})
				}
				s := NewScen(w, a)
				pt := s.in.ptrTo(s.st, s.shared("I32"))
				qt := s.in.ptrTo(s.st, s.shared("I8"))
				root := s.builtin("cast", []*CT{qt}, qt, s.addChild("P0", pt, m))
				r.outcomes(s, s.run(a.compileExpr, root), "pointer-conversion", "pointer to pointer", func(o Outcome) (bool, string) {
					return oneOf(s.rv(o), []string{"BitCast(" + x + "->i8*)"})
				})
			}
			for _, m := range []Mode{LV, SLIT} {
				s := NewScen(w, a)
				at := s.in.arrayOf(s.st, s.shared("I32"), 3)
				qt := s.in.ptrTo(s.st, s.shared("I32"))
				root := s.builtin("cast", []*CT{qt}, qt, s.addChild("P0", at, m))
				r.outcomes(s, s.run(a.compileExpr, root), "pointer-conversion", "array to pointer", func(o Outcome) (bool, string) {
					return oneOf(s.rv(o), []string{"BitCast(gep(P0,0,0)->i32*)", "gep(P0,0,0)", "BitCast(P0->i32*)"})
				})
			}
			// implicit widening of element counts
			i64 := castKind{"i64", "S", 64, nil}
			for _, k := range castKinds() {
				if k.kind == "F" {
					continue
				}
				s := NewScen(w, a)
				i32 := s.shared("I32")
				root := s.builtin("alloc", []*CT{i32}, s.in.ptrTo(s.st, i32), s.addChild("P0", k.mk(s), LV))
				wantN := castTerm(k, i64, "*P0", "")
				r.outcomes(s, s.run(a.compileExpr, root), "count-widening", "@alloc count of type "+k.name, func(o Outcome) (bool, string) {
					return calls(s, o, "@malloc", []string{bin("Mul", wantN, "4")})
				})
				s = NewScen(w, a)
				p := s.in.ptrTo(s.st, s.shared("I64"))
				root = s.builtin("realloc", nil, p, s.addChild("P0", p, LV), s.addChild("P1", k.mk(s), LV))
				wantN = castTerm(k, i64, "*P1", "")
				r.outcomes(s, s.run(a.compileExpr, root), "count-widening", "@realloc count of type "+k.name, func(o Outcome) (bool, string) {
					return calls(s, o, "@realloc", []string{"BitCast(*P0->i8*)", bin("Mul", wantN, "8")})
				})
			}
		}})
}

// calls: exactly one call of the named function, with these arguments.
func calls(s *Scen, o Outcome, fn string, args []string) (bool, string) {
	n := 0
	for _, e := range o.St.events() {
		if e.Op != "ir:Call" || s.term(o.St, e.Args[0]) != fn {
			continue
		}
		n++
		if len(e.Args)-1 != len(args) {
			return false, fmt.Sprintf("%s is called with %d arguments", fn, len(e.Args)-1)
		}
		for i, w := range args {
			if g := s.term(o.St, e.Args[i+1]); g != w && w != "_" {
				return false, fmt.Sprintf("argument %d of %s is %s, expected %s", i+1, fn, g, w)
			}
		}
	}
	if n != 1 {
		return false, fmt.Sprintf("%s is called %d times", fn, n)
	}
	return true, ""
}
