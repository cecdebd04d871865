package main

import (
	"fmt"
	"strings"
)

var cmpOps = []struct{ op, suf string }{
	{"Equals", "EQ"}, {"NotEquals", "NE"}, {"LessThan", "LT"}, {"LessThanEqual", "LE"}, {"GreaterThan", "GT"}, {"GreaterThanEqual", "GE"},
}

func cmpTerm(kind, suf, l, r string) string {
	p := suf
	base := "ICmp"
	switch kind {
	case "S":
		if suf != "EQ" && suf != "NE" {
			p = "S" + suf
		}
	case "U":
		if suf != "EQ" && suf != "NE" {
			p = "U" + suf
		}
	case "F":
		base = "FCmp"
		p = "O" + suf
	}
	if l > r {
		l, r, p = r, l, flipPred(p)
	}
	return base + "." + p + "(" + l + "," + r + ")"
}

func init() {
	register(&Prop{id: "C02",
		explanation: "Path-sensitive abstract interpretation of the comparison code generator: the predicate, operand order and operand loading of the comparison computed on every path is compared with the table of the language, for all six operators and every comparable type.",
		rules:       []string{"signed integers compare signed, unsigned integers unsigned, floats ordered, in operand order", "two *i8 values are compared by contents (strcmp against zero)", "other pointers are compared by address", "! yields the negation of the operand's truth value"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, k := range numKinds() {
				for _, row := range cmpOps {
					for _, mc := range modeCombos {
						s := NewScen(w, a)
						t := k.mk(s)
						root := s.binary(row.op, t, mc[0], t, mc[1], s.shared("I1"))
						want := cmpTerm(k.kind, row.suf, operand("L", mc[0]), operand("R", mc[1]))
						r.outcomes(s, s.run(a.compileExpr, root), "comparison-predicate", row.op+" on "+k.name, func(o Outcome) (bool, string) {
							return oneOf(s.rv(o), []string{want})
						})
					}
				}
			}
			for _, row := range cmpOps {
				for _, mc := range modeCombos {
					if mc[0] == RV || mc[1] == RV {
						continue
					}
					l, rr := operand("L", mc[0]), operand("R", mc[1])
					// strings
					s := NewScen(w, a)
					t := s.in.ptrTo(s.st, s.shared("I8"))
					root := s.binary(row.op, t, mc[0], t, mc[1], s.shared("I1"))
					var want []string
					want = append(want, cmpTerm("S", row.suf, "call @strcmp("+l+","+rr+")", "0"))
					want = append(want, cmpTerm("S", strings.NewReplacer("GT", "LT", "LT", "GT", "GE", "LE", "LE", "GE").Replace(row.suf), "call @strcmp("+rr+","+l+")", "0"))
					r.outcomes(s, s.run(a.compileExpr, root), "string-comparison", row.op+" on *i8", func(o Outcome) (bool, string) {
						return oneOf(s.rv(o), want)
					})
					// other pointers
					s = NewScen(w, a)
					t = s.in.ptrTo(s.st, s.shared("I32"))
					root = s.binary(row.op, t, mc[0], t, mc[1], s.shared("I1"))
					want2 := []string{cmpTerm("S", row.suf, l, rr), cmpTerm("U", row.suf, l, rr)}
					r.outcomes(s, s.run(a.compileExpr, root), "pointer-comparison", row.op+" on pointers", func(o Outcome) (bool, string) {
						return oneOf(s.rv(o), want2)
					})
				}
			}
			for _, m := range []Mode{LV, RV, RVF} {
				x := operand("R", m)
				for _, k := range append(numKinds(), numKind{"i1", "B", func(s *Scen) *CT { return s.shared("I1") }}) {
					if k.kind == "F" || strings.Contains(k.name, "any width") {
						continue
					}
					s := NewScen(w, a)
					t := k.mk(s)
					root := s.prefix("Bang", t, m, t)
					want := []string{cmpTerm("S", "EQ", cmpTerm("S", "NE", x, "0"), "0"), cmpTerm("S", "EQ", x, "0")}
					if k.kind == "B" {
						want = []string{cmpTerm("S", "EQ", x, "0"), bin("Xor", x, "1")}
					}
					r.outcomes(s, s.run(a.compileExpr, root), "logical-not", "! on "+k.name, func(o Outcome) (bool, string) {
						return oneOf(s.rv(o), want)
					})
				}
			}
		}})

	register(&Prop{id: "C03",
		explanation: "The control-flow graph the generator builds for && and || is extracted by abstract interpretation and every route through it is enumerated: which operand is evaluated under which outcome of the other, and what value the expression has at the end of the route.",
		rules:       []string{"&&: the right operand is evaluated exactly on the routes where the left is true, the result is the right operand's truth value there and false elsewhere", "||: dually", "the construct leaves the generator in the block both routes join in"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			kinds := append(numKinds()[:0:0], numKind{"i1", "B", func(s *Scen) *CT { return s.shared("I1") }}, numKind{"i32", "S", func(s *Scen) *CT { return s.shared("I32") }}, numKind{"u8", "U", func(s *Scen) *CT { return s.shared("U8") }})
			for _, op := range []string{"AND", "OR"} {
				for _, k := range kinds {
					for _, mc := range modeCombos {
						s := NewScen(w, a)
						t := k.mk(s)
						root := s.binary(op, t, mc[0], t, mc[1], s.shared("I1"))
						tb := func(n string, m Mode) string {
							x := operand(n, m)
							if k.kind == "B" {
								return x
							}
							return cmpTerm("S", "NE", x, "0")
						}
						L, R := tb("L", mc[0]), tb("R", mc[1])
						go2, stop, val := "T", "F", "0"
						if op == "OR" {
							go2, stop, val = "F", "T", "1"
						}
						r.outcomes(s, s.run(a.compileExpr, root), "short-circuit", op+" on "+k.name, func(o Outcome) (bool, string) {
							if ok, d := s.hygiene(o); !ok {
								return false, d
							}
							cur, _ := s.curBlock(o.St, s.c)
							ws := s.flow(o).from(s.b0.O)
							if len(ws) != 2 {
								return false, fmt.Sprintf("%d routes through the construct, expected 2", len(ws))
							}
							seen := map[string]bool{}
							for _, wk := range ws {
								if cur == nil || wk.end != "open:"+cur.O.ID {
									return false, "a route does not end in the block code generation continues in: " + wk.shape()
								}
								var v string
								isPtr := strings.HasPrefix(s.rvPtr(o), "alloca")
								if isPtr {
									v, _ = wk.mem(s, o.St, o.Res)
								} else {
									return false, "unrecognised result form " + s.term(o.St, o.Res)
								}
								v = wk.decided(v)
								switch wk.shape() {
								case "L [" + L + "]" + go2 + " R out":
									if v != R {
										return false, "when the right operand is evaluated the result is " + v + ", expected " + R
									}
									seen["go"] = true
								case "L [" + L + "]" + stop + " out":
									if v != val {
										return false, "when the right operand is skipped the result is " + v + ", expected " + val
									}
									seen["stop"] = true
								default:
									return false, "unexpected route: " + wk.shape()
								}
							}
							return seen["go"] && seen["stop"], "a route is missing"
						})
					}
				}
			}
		}})
}

// rvPtr renders the raw result (address or value).
func (s *Scen) rvPtr(o Outcome) string { return s.term(o.St, o.Res) }
