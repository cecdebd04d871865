package main

import "strings"

// unsupportedConst are the constant expressions removed from LLVM (version 15).
var unsupportedConst = map[string]bool{"SDiv": true, "UDiv": true, "SRem": true, "URem": true, "FAdd": true, "FSub": true, "FMul": true, "FDiv": true, "FRem": true, "FNeg": true}

func init() {
	register(&Prop{id: "C06",
		explanation: "Abstract interpretation of the constant folder: for every operator and conversion that is legal on runtime values of a numeric type, the constant generator must compute the same function of its operands, left operand first.",
		rules:       []string{"a folded binary operation uses the same instruction as the runtime operation of the operands' type, on the left and the right operand", "a folded conversion uses the same conversion as the runtime conversion", "leaves denote their own value", "the folded value is in a form the LLVM tools accept"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, k := range numKinds() {
				for _, row := range opTable {
					ins := pick(k.kind, row.s, row.u, row.f)
					if ins == "" {
						continue
					}
					s := NewScen(w, a)
					t := k.mk(s)
					root := s.binary(row.op, t, LV, t, LV, t)
					x, y := "L", "R"
					want := []string{"const." + bin(ins, x, y)}
					r.outcomes(s, s.run(a.compileConst, root), "constant-operator", row.op+" on "+k.name, func(o Outcome) (bool, string) {
						return oneOf(s.term(o.St, o.Res), want)
					})
					// LLVM 15 and later have no constant expressions for these
					form := "constant " + row.op + " of integers"
					if k.kind == "F" {
						form = "constant " + row.op + " of floats"
					}
					r.outcomes(s, s.run(a.compileConst, root), "constant-form", form, func(o Outcome) (bool, string) {
						if unsupportedConst[ins] && strings.HasPrefix(s.term(o.St, o.Res), "const."+ins+"(") {
							return false, "the value is left to a constant expression (" + ins + ") that current LLVM versions reject"
						}
						return true, ""
					})
				}
			}
			for _, f := range castKinds() {
				for _, t := range castKinds() {
					if t.kind == "B" && f.kind == "F" {
						continue
					}
					s := NewScen(w, a)
					ft, tt := f.mk(s), t.mk(s)
					root := s.builtin("cast", []*CT{tt}, tt, s.addChild("P0", ft, LV))
					want := castTerm(f, t, "P0", "const.")
					r.outcomes(s, s.run(a.compileConst, root), "constant-conversion", f.name+" to "+t.name, func(o Outcome) (bool, string) {
						return oneOf(s.term(o.St, o.Res), []string{want})
					})
				}
			}
		}})
}
