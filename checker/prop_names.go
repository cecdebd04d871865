package main

import (
	"fmt"
	"strings"
)

// C49: what is named twice where each may be named once is rejected.

func init() {
	register(&Prop{id: "C49",
		explanation: "Abstract interpretation of the analysis, and of the code generation for the cases of a switch, on programs that give the same name or case twice, at every pair of positions of lists of different lengths, and on programs that only look so.",
		rules:       []string{"a parameter, a field, an attribute of a literal and a case appear once", "the same name elsewhere is another one"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			ca := w.compAnchors(a)
			if !a.guard(r) {
				return
			}
			if ca.newFn == nil || ca.typeOf == nil {
				r.Ob(false, "anchors", "constructor of the code generator", 0, "not found")
				return
			}
			do := func(rule, construct string, valid bool, build func(s *Scen) []*Val) {
				s := NewSem(w, a, sa)
				r.judge(s, s.verdicts(build(s)...), rule, construct, valid, nil)
			}
			i8 := func(s *Scen) *CT { return s.shared("I8") }
			i32 := func(s *Scen) *CT { return s.shared("I32") }
			type list struct {
				name  string
				names []string
				ok    bool
			}
			var lists []list
			all := []string{"p", "q", "r", "t", "u"}
			for n := 1; n <= 5; n++ {
				lists = append(lists, list{fmt.Sprintf("%d names", n), all[:n], true})
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						l := append([]string{}, all[:n]...)
						l[j] = l[i]
						lists = append(lists, list{fmt.Sprintf("%d names, %d and %d the same", n, i+1, j+1), l, false})
					}
				}
			}
			lists = append(lists, list{"three equal names", []string{"p", "p", "p"}, false}, list{"two pairs of equal names", []string{"p", "q", "p", "q"}, false},
				list{"names that start alike", []string{"p", "pp", "p1", "P"}, true})
			ids := func(names []string) (r []string) {
				for _, n := range names {
					r = append(r, n+"-id")
				}
				return
			}
			types := func(s *Scen, n int, mixed bool) (r []*CT) {
				for i := 0; i < n; i++ {
					if mixed && i%2 == 1 {
						r = append(r, i8(s))
					} else {
						r = append(r, i32(s))
					}
				}
				return
			}
			for _, mixed := range []bool{false, true} {
				mixed := mixed
				mx := " of one type"
				if mixed {
					mx = " of different types"
				}
				places := []struct {
					name, rule string
					build      func(s *Scen, names []string) []*Val
				}{
					{"parameters of a function", "parameters", func(s *Scen, names []string) []*Val {
						f, _ := s.fnc("f-id", nil, ids(names), types(s, len(names), mixed))
						return []*Val{f}
					}},
					{"parameters of a function after another one", "parameters", func(s *Scen, names []string) []*Val {
						g, _ := s.fnc("g-id", nil, ids(all[:2]), types(s, 2, mixed))
						f, _ := s.fnc("f-id", i32(s), ids(names), types(s, len(names), mixed), s.ret(s.e(i32(s))))
						return []*Val{g, f}
					}},
					{"parameters of a function in a function", "parameters", func(s *Scen, names []string) []*Val {
						f, _ := s.fnc("f-id", nil, ids(names), types(s, len(names), mixed))
						return []*Val{s.inMain(f)}
					}},
					{"parameters of a function expression", "parameters", func(s *Scen, names []string) []*Val {
						return []*Val{s.inMain(s.vdecl("l-id", nil, s.lambda(nil, ids(names), types(s, len(names), mixed)), false))}
					}},
					{"parameters of a function expression in another one", "parameters", func(s *Scen, names []string) []*Val {
						l := s.lambda(nil, ids(names), types(s, len(names), mixed))
						return []*Val{s.inMain(s.vdecl("l-id", nil, s.lambda(nil, ids(all[:3]), types(s, 3, mixed), s.vdecl("m-id", nil, l, false)), false))}
					}},
					{"parameters of a returned function expression", "parameters", func(s *Scen, names []string) []*Val {
						l := s.lambda(nil, ids(names), types(s, len(names), mixed))
						f, _ := s.fnc("f-id", s.tFunc(s.voidCT(), types(s, len(names), mixed)...), nil, nil, s.ret(l))
						return []*Val{f}
					}},
					{"parameters of a function that is an argument", "parameters", func(s *Scen, names []string) []*Val {
						l := s.lambda(nil, ids(names), types(s, len(names), mixed))
						return []*Val{s.inMain(s.xs(s.mk("Call", "Left", s.e(s.tFunc(i32(s), s.tFunc(s.voidCT(), types(s, len(names), mixed)...))), "Parameters", []*Val{l})))}
					}},
					{"fields of a struct", "fields", func(s *Scen, names []string) []*Val {
						_, d := s.tRec("Struct", "R-id", names, types(s, len(names), mixed)...)
						return []*Val{d}
					}},
					{"fields of a union", "fields", func(s *Scen, names []string) []*Val {
						_, d := s.tRec("Union", "R-id", names, types(s, len(names), mixed)...)
						return []*Val{d}
					}},
					{"fields of a struct after another one", "fields", func(s *Scen, names []string) []*Val {
						_, q := s.tRec("Struct", "Q-id", all[:2], types(s, 2, mixed)...)
						_, d := s.tRec("Struct", "R-id", names, types(s, len(names), mixed)...)
						return []*Val{q, d, s.inMain()}
					}},
					{"fields of a struct before a union", "fields", func(s *Scen, names []string) []*Val {
						_, q := s.tRec("Union", "Q-id", all[:2], types(s, 2, mixed)...)
						_, d := s.tRec("Struct", "R-id", names, types(s, len(names), mixed)...)
						return []*Val{d, q, s.inMain()}
					}},
				}
				literal := func(s *Scen, names []string) (*Val, *Val) {
					all := append(append([]string{}, all...), "pp", "p1", "P")
					ts := types(s, len(all), mixed)
					_, d := s.tRec("Struct", "R-id", all, ts...)
					var vs []*Val
					for _, n := range names {
						for i := range all {
							if all[i] == n {
								vs = append(vs, s.e(ts[i]))
							}
						}
					}
					return d, s.structLit("R-id", names, vs...)
				}
				lits := []struct {
					name string
					use  func(s *Scen, d, l *Val) []*Val
				}{
					{"a declared value", func(s *Scen, d, l *Val) []*Val { return []*Val{d, s.inMain(s.vdecl("x-id", nil, l, false))} }},
					{"a returned value", func(s *Scen, d, l *Val) []*Val {
						f, _ := s.fnc("f-id", s.tNamed("R-id"), nil, nil, s.ret(l))
						return []*Val{d, f}
					}},
					{"an argument", func(s *Scen, d, l *Val) []*Val {
						return []*Val{d, s.inMain(s.xs(s.mk("Call", "Left", s.e(s.tFunc(i32(s), s.tNamed("R-id"))), "Parameters", []*Val{l})))}
					}},
					{"an element", func(s *Scen, d, l *Val) []*Val {
						return []*Val{d, s.inMain(s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(1, s.tNamed("R-id")), "Values", []*Val{l})))}
					}},
					{"a value in another literal", func(s *Scen, d, l *Val) []*Val {
						_, o := s.tRec("Struct", "O-id", []string{"p"}, s.tNamed("R-id"))
						return []*Val{d, o, s.inMain(s.xs(s.structLit("O-id", []string{"p"}, l)))}
					}},
					{"a value in a function expression", func(s *Scen, d, l *Val) []*Val {
						return []*Val{d, s.inMain(s.vdecl("l-id", nil, s.lambda(nil, nil, nil, s.vdecl("x-id", nil, l, false)), false))}
					}},
				}
				for _, l := range lits {
					l := l
					places = append(places, struct {
						name, rule string
						build      func(s *Scen, names []string) []*Val
					}{"attributes of a literal that is " + l.name, "literals", func(s *Scen, names []string) []*Val {
						d, lit := literal(s, names)
						return l.use(s, d, lit)
					}})
				}
				for _, p := range places {
					for _, l := range lists {
						p, l := p, l
						do(p.rule, l.name+" as "+p.name+mx, l.ok, func(s *Scen) []*Val { return p.build(s, l.names) })
					}
				}
			}
			// the same name somewhere else
			for _, u := range []struct {
				name  string
				build func(s *Scen) []*Val
			}{
				{"parameters of two functions", func(s *Scen) []*Val {
					f, _ := s.fnc("f-id", nil, ids(all[:2]), types(s, 2, false))
					g, _ := s.fnc("g-id", nil, ids(all[:2]), types(s, 2, true))
					return []*Val{f, g}
				}},
				{"parameters of a function and the one around it", func(s *Scen) []*Val {
					f, _ := s.fnc("f-id", nil, ids(all[:2]), types(s, 2, true), s.vdecl("l-id", nil, s.lambda(nil, ids(all[:2]), types(s, 2, false)), false))
					return []*Val{f}
				}},
				{"parameters of two function expressions in a statement", func(s *Scen) []*Val {
					l := func() *Val { return s.lambda(nil, ids(all[:2]), types(s, 2, false)) }
					t := s.tFunc(s.voidCT(), types(s, 2, false)...)
					return []*Val{s.inMain(s.xs(s.mk("Call", "Left", s.e(s.tFunc(i32(s), t, t)), "Parameters", []*Val{l(), l()})))}
				}},
				{"a parameter and a variable", func(s *Scen) []*Val {
					f, _ := s.fnc("f-id", nil, ids(all[:2]), types(s, 2, true), s.vdecl("p-id", nil, s.e(i8(s)), false))
					return []*Val{f}
				}},
				{"a parameter and a global variable", func(s *Scen) []*Val {
					f, _ := s.fnc("f-id", nil, ids(all[:2]), types(s, 2, true))
					return []*Val{s.vdecl("p-id", nil, s.e(i8(s)), false), f}
				}},
				{"fields of two structs", func(s *Scen) []*Val {
					_, d := s.tRec("Struct", "R-id", all[:2], types(s, 2, true)...)
					_, e := s.tRec("Struct", "Q-id", all[:2], types(s, 2, false)...)
					return []*Val{d, e}
				}},
				{"fields of a struct and of a union that it contains", func(s *Scen) []*Val {
					_, d := s.tRec("Struct", "R-id", all[:2], s.tNamed("Q-id"), i8(s))
					_, e := s.tRec("Union", "Q-id", all[:2], types(s, 2, true)...)
					return []*Val{d, e}
				}},
				{"a field and a type", func(s *Scen) []*Val {
					_, d := s.tRec("Struct", "p-id", all[:2], types(s, 2, true)...)
					return []*Val{d}
				}},
				{"attributes of two literals", func(s *Scen) []*Val {
					_, d := s.tRec("Struct", "R-id", all[:2], types(s, 2, false)...)
					l := func() *Val { return s.structLit("R-id", all[:2], s.e(i32(s)), s.e(i32(s))) }
					return []*Val{d, s.inMain(s.vdecl("x-id", nil, l(), false), s.vdecl("y-id", nil, l(), false))}
				}},
				{"attributes of two literals in one expression", func(s *Scen) []*Val {
					_, d := s.tRec("Struct", "R-id", all[:2], types(s, 2, false)...)
					l := func() *Val { return s.structLit("R-id", all[:2], s.e(i32(s)), s.e(i32(s))) }
					return []*Val{d, s.inMain(s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(2, s.tNamed("R-id")), "Values", []*Val{l(), l()})))}
				}},
				{"attributes of a literal and the literal in it", func(s *Scen) []*Val {
					_, q := s.tRec("Struct", "Q-id", []string{"p", "q"}, i32(s), i8(s))
					_, d := s.tRec("Struct", "R-id", []string{"p", "q"}, s.tNamed("Q-id"), i8(s))
					in := s.structLit("Q-id", []string{"p", "q"}, s.e(i32(s)), s.e(i8(s)))
					return []*Val{q, d, s.inMain(s.xs(s.structLit("R-id", []string{"p", "q"}, in, s.e(i8(s)))))}
				}},
				{"a field of a struct and one of a literal of another", func(s *Scen) []*Val {
					_, q := s.tRec("Struct", "Q-id", []string{"q", "p"}, i32(s), i8(s))
					_, d := s.tRec("Struct", "R-id", []string{"p", "q"}, i32(s), i8(s))
					return []*Val{q, d, s.inMain(s.xs(s.structLit("R-id", []string{"q"}, s.e(i8(s)))), s.xs(s.structLit("Q-id", []string{"q"}, s.e(i32(s)))))}
				}},
			} {
				do("elsewhere", "the same names as "+u.name, true, u.build)
			}
			// cases
			sw := func(construct string, valid bool, build func(s *Scen) []*Val) {
				s := NewSem(w, a, sa)
				outs := s.verdicts(build(s)...)
				r.Analysed(s.in)
				if s.in.budgetHit {
					return
				}
				for _, o := range outs {
					v := s.verdict(o)
					if strings.HasPrefix(v, "crash") || valid && v != "accepted" {
						r.Ob(false, "cases", construct, lastPos(o), "the program is %s", v)
						continue
					}
					if v != "accepted" {
						r.Ob(true, "cases", construct, lastPos(o), "")
						continue
					}
					_, gen := s.compiled(ca, o)
					if s.in.budgetHit {
						return
					}
					if len(gen) == 0 {
						r.Ob(false, "cases", construct, lastPos(o), "the program is accepted, but no path through the code generator ends")
					}
					for _, g := range gen {
						switch {
						case g.Kind == OPanic:
							r.Ob(false, "cases", construct, g.Pos, "the code generator crashes: %s", g.Msg)
						case valid:
							r.Ob(g.Kind != OExit, "cases", construct, g.Pos, "the program is rejected by the code generator: %s", g.Msg)
						default:
							r.Ob(g.Kind == OExit, "cases", construct, g.Pos, "a switch with two equal cases is translated%s", traceStr(s.in, g.St))
						}
					}
				}
			}
			cases := func(s *Scen, id string, def bool, vs ...*Val) *Val {
				var cs [][2]*Val
				for _, v := range vs {
					cs = append(cs, [2]*Val{v, s.blk().inner()})
				}
				var d *Val
				if def {
					d = s.blk().inner()
				}
				return s.through(s.switchStmt(id, s.e(i32(s)), cs, d))
			}
			nums := []int64{1, 2, 3, 100}
			for _, def := range []bool{false, true} {
				def := def
				dn := ""
				if def {
					dn = " and a default"
				}
				for n := 1; n <= 4; n++ {
					n := n
					sw(fmt.Sprintf("%d different cases%s", n, dn), true, func(s *Scen) []*Val {
						var vs []*Val
						for _, v := range nums[:n] {
							vs = append(vs, s.intLit(v))
						}
						return []*Val{s.inMain(cases(s, "sw", def, vs...))}
					})
					for i := 0; i < n; i++ {
						for j := i + 1; j < n; j++ {
							i, j := i, j
							sw(fmt.Sprintf("%d cases, %d and %d equal%s", n, i+1, j+1, dn), false, func(s *Scen) []*Val {
								var vs []*Val
								for k, v := range nums[:n] {
									if k == j {
										v = nums[i]
									}
									vs = append(vs, s.intLit(v))
								}
								return []*Val{s.inMain(cases(s, "sw", def, vs...))}
							})
						}
					}
				}
				sw("equal cases of two switches"+dn, true, func(s *Scen) []*Val {
					return []*Val{s.inMain(cases(s, "sw1", def, s.intLit(1), s.intLit(2)), cases(s, "sw2", def, s.intLit(2), s.intLit(1)))}
				})
				sw("equal cases of a switch in another one"+dn, true, func(s *Scen) []*Val {
					in := cases(s, "sw2", def, s.intLit(2), s.intLit(1))
					out := s.through(s.switchStmt("sw1", s.e(i32(s)), [][2]*Val{{s.intLit(1), s.blk(in).inner()}, {s.intLit(2), s.blk().inner()}}, nil))
					return []*Val{s.inMain(out)}
				})
				sw("equal cases in the inner one of two switches"+dn, false, func(s *Scen) []*Val {
					in := cases(s, "sw2", def, s.intLit(2), s.intLit(2))
					out := s.through(s.switchStmt("sw1", s.e(i32(s)), [][2]*Val{{s.intLit(1), s.blk(in).inner()}, {s.intLit(2), s.blk().inner()}}, nil))
					return []*Val{s.inMain(out)}
				})
			}
		}})
}
