package main

import "fmt"

// C19: a name denotes the innermost declaration around it that comes before it.

type scopeForm struct {
	name   string
	shares bool // its part is no scope of its own
	second bool // it has a second part
	// build makes the construct around the statements of its parts; top are declarations next to main
	build func(s *Scen, part, other []*Val) (stmt *Val)
}

func scopeForms() []scopeForm {
	cond := func(s *Scen) *Val { return s.e(s.shared("I1")) }
	blk := func(s *Scen, l []*Val) *Val { return s.blk(l...).inner() }
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	sw := func(s *Scen, cs [][2]*Val, def *Val) *Val {
		return s.through(s.switchStmt(s.nextID("sw"), s.e(i32(s)), cs, def))
	}
	return []scopeForm{
		{"block", false, false, func(s *Scen, p, o []*Val) *Val { return s.blk(p...) }},
		{"block in a block", false, true, func(s *Scen, p, o []*Val) *Val { return s.blk(append([]*Val{s.blk(p...)}, o...)...) }},
		{"if", false, true, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.ifStmt(s.nextID("if"), cond(s), blk(s, p), nil, blk(s, o)))
		}},
		{"else-if", false, true, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.ifStmt(s.nextID("if"), cond(s), blk(s, nil), [][2]*Val{{cond(s), blk(s, p)}, {cond(s), blk(s, o)}}, nil))
		}},
		{"else", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.ifStmt(s.nextID("if"), cond(s), blk(s, nil), nil, blk(s, p)))
		}},
		{"if before an else-if", false, true, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.ifStmt(s.nextID("if"), cond(s), blk(s, p), [][2]*Val{{cond(s), blk(s, o)}}, nil))
		}},
		{"loop", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.forStmt(s.nextID("for"), s.st1(), cond(s), s.st1(), blk(s, p)))
		}},
		{"loop without parts", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.forStmt(s.nextID("for"), nil, cond(s), nil, blk(s, p)))
		}},
		{"case", false, true, func(s *Scen, p, o []*Val) *Val {
			return sw(s, [][2]*Val{{s.e(i32(s)), blk(s, p)}, {s.e(i32(s)), blk(s, o)}}, nil)
		}},
		{"case before a default", false, true, func(s *Scen, p, o []*Val) *Val {
			return sw(s, [][2]*Val{{s.e(i32(s)), blk(s, p)}}, blk(s, o))
		}},
		{"default", false, false, func(s *Scen, p, o []*Val) *Val { return sw(s, nil, blk(s, p)) }},
		{"block expression", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.xs(s.mk("ExpressionBlock", "Node.Type", i32(s), "Block", blk(s, append(p, s.ret(s.e(i32(s)))))))
		}},
		{"function expression", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.vdecl("l-id", nil, s.lambda(nil, nil, nil, p...), false)
		}},
		{"function expression with a result", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.vdecl("l-id", nil, s.lambda(i32(s), nil, nil, append(p, s.ret(s.e(i32(s))))...), false)
		}},
		{"block expression as an argument", false, false, func(s *Scen, p, o []*Val) *Val {
			b := s.mk("ExpressionBlock", "Node.Type", i32(s), "Block", blk(s, append(p, s.ret(s.e(i32(s))))))
			return s.xs(s.mk("Call", "Left", s.e(s.tFunc(s.shared("I8"), i32(s))), "Parameters", []*Val{b}))
		}},
		{"part that returns", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.ifStmt(s.nextID("if"), cond(s), blk(s, append(p, s.mk("ReturnStatement", "Expression", (*Val)(nil)))), nil, nil))
		}},
		{"part that ends a loop round", false, false, func(s *Scen, p, o []*Val) *Val {
			return s.through(s.forStmt(s.nextID("for"), nil, cond(s), nil, blk(s, append(p, s.through(s.node(s.nextID("brk"), "BreakStatement"))))))
		}},
		{"compile-time branch", true, false, func(s *Scen, p, o []*Val) *Val {
			m := s.node(s.nextID("macro"), "MacroBlock")
			s.in.setField(s.st, m, "Block", blk(s, p))
			return s.through(m)
		}},
	}
}

// declForms declare x-id of a type.
func declForms() []struct {
	name  string
	build func(s *Scen, t *CT) *Val
} {
	type d = struct {
		name  string
		build func(s *Scen, t *CT) *Val
	}
	return []d{
		{"declared with a type", func(s *Scen, t *CT) *Val { return s.vdecl("x-id", t, s.e(t), false) }},
		{"declared without a type", func(s *Scen, t *CT) *Val { return s.vdecl("x-id", nil, s.e(t), false) }},
		{"declared constant", func(s *Scen, t *CT) *Val { return s.vdecl("x-id", t, s.e(t), true) }},
		{"declared in a list", func(s *Scen, t *CT) *Val {
			return s.mk("MultipleDeclarationStatement", "Names", s.strs([]string{"y-id", "x-id"}), "Type", s.todo(), "Expression", s.e(s.tList(s.shared("I64"), t)), "Constant", false)
		}},
	}
}

func init() {
	register(&Prop{id: "C19",
		explanation: "Programs that declare one name with different types in and around every construct are followed through the analyzer on every path; probes with a declared type show which declaration a use denotes, or that it denotes none. The same for names of types, fields, functions and methods.",
		rules:       []string{"a use denotes the innermost declaration before it", "a scope ends with its construct", "undefined names are rejected"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			do := func(rule, construct string, valid bool, build func(s *Scen) []*Val) {
				s := NewSem(w, a, sa)
				r.judge(s, s.verdicts(build(s)...), rule, construct, valid, nil)
			}
			probe := func(s *Scen, t string) *Val { return s.vdecl("probe-id", s.shared(t), s.va("x-id"), false) }
			decls := declForms()
			n := 0
			for _, f := range scopeForms() {
				for _, d := range decls {
					f, d := f, d
					n++
					if !r.thorough && n%2 == 0 && d.name != "declared with a type" {
						continue
					}
					outer := []string{"none", "a local", "a global"}
					for _, o := range outer {
						o := o
						prog := func(s *Scen, in, other, after []*Val) []*Val {
							var g, l []*Val
							switch o {
							case "a local":
								l = append(l, d.build(s, s.shared("I8")))
							case "a global":
								g = append(g, s.vdecl("x-id", s.shared("I8"), s.e(s.shared("I8")), false))
							}
							l = append(l, f.build(s, in, other))
							return append(g, s.inMain(append(l, after...)...))
						}
						name := fmt.Sprintf("%s, %s, outer: %s", f.name, d.name, o)
						for _, t := range []string{"I8", "I16"} {
							t := t
							out := o != "none" && t == "I8"
							do("inner before", name+", as "+t, out, func(s *Scen) []*Val { return prog(s, []*Val{probe(s, t), d.build(s, s.shared("I16"))}, nil, nil) })
							do("inner", name+", as "+t, t == "I16", func(s *Scen) []*Val { return prog(s, []*Val{d.build(s, s.shared("I16")), probe(s, t)}, nil, nil) })
							do("after", name+", as "+t, (f.shares && t == "I16") || (!f.shares && out), func(s *Scen) []*Val { return prog(s, []*Val{d.build(s, s.shared("I16"))}, nil, []*Val{probe(s, t)}) })
							if f.second {
								do("sibling", name+", as "+t, out, func(s *Scen) []*Val { return prog(s, []*Val{d.build(s, s.shared("I16"))}, []*Val{probe(s, t)}, nil) })
							}
							do("own initialiser", name+", as "+t, out, func(s *Scen) []*Val {
								return prog(s, []*Val{s.vdecl("x-id", nil, s.va("x-id"), false), probe(s, t)}, nil, nil)
							})
						}
					}
				}
			}
			// loops declare a variable for themselves
			for _, t := range []string{"I8", "I16"} {
				t := t
				loop := func(s *Scen, cond, upd *Val, body ...*Val) *Val {
					if cond == nil {
						cond = s.e(s.shared("I1"))
					}
					return s.through(s.forStmt(s.nextID("for"), s.vdecl("x-id", nil, s.e(s.shared("I16")), false), cond, upd, s.blk(body...).inner()))
				}
				test := func(s *Scen) *Val { return s.bop("LessThan", s.va("x-id"), s.e(s.shared(t))) }
				out := func(s *Scen) *Val { return s.vdecl("x-id", nil, s.e(s.shared("I8")), false) }
				do("loop variable", "in the condition as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{s.inMain(out(s), loop(s, test(s), nil))} })
				do("loop variable", "in the update as "+t, t == "I16", func(s *Scen) []*Val {
					return []*Val{s.inMain(out(s), loop(s, nil, s.asg(s.va("x-id"), s.e(s.shared(t)))))}
				})
				do("loop variable", "in the body as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{s.inMain(out(s), loop(s, nil, nil, probe(s, t)))} })
				do("loop variable", "after the loop as "+t, t == "I8", func(s *Scen) []*Val { return []*Val{s.inMain(out(s), loop(s, nil, nil), probe(s, t))} })
				do("loop variable", "after the loop without an outer one as "+t, false, func(s *Scen) []*Val { return []*Val{s.inMain(loop(s, nil, nil), probe(s, t))} })
				do("loop variable", "in the update when the body hides it as "+t, t == "I16", func(s *Scen) []*Val {
					return []*Val{s.inMain(loop(s, nil, s.asg(s.va("x-id"), s.e(s.shared(t))), s.vdecl("x-id", nil, s.e(s.shared("I8")), false)))}
				})
				// parameters
				for _, v := range []struct {
					n    string
					want string
					b    func(s *Scen) []*Val
				}{
					{"parameter in its function", "I16", func(s *Scen) []*Val {
						f, _ := s.fnc("f-id", nil, []string{"w-id", "x-id"}, []*CT{s.shared("I64"), s.shared("I16")}, probe(s, t))
						return []*Val{f}
					}},
					{"parameter hiding a global", "I16", func(s *Scen) []*Val {
						f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.shared("I16")}, probe(s, t))
						return []*Val{s.vdecl("x-id", s.shared("I8"), s.e(s.shared("I8")), false), f}
					}},
					{"parameter in the next function", "", func(s *Scen) []*Val {
						f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.shared("I16")})
						return []*Val{f, s.inMain(probe(s, t))}
					}},
					{"global after a function with such a parameter", "I8", func(s *Scen) []*Val {
						f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.shared("I16")})
						return []*Val{s.vdecl("x-id", s.shared("I8"), s.e(s.shared("I8")), false), f, s.inMain(probe(s, t))}
					}},
					{"local in the next function", "", func(s *Scen) []*Val {
						f, _ := s.fnc("f-id", nil, nil, nil, s.vdecl("x-id", nil, s.e(s.shared("I16")), false))
						return []*Val{f, s.inMain(probe(s, t))}
					}},
					{"local of a function with a result in the next one", "", func(s *Scen) []*Val {
						f, _ := s.fnc("f-id", s.shared("I8"), nil, nil, s.vdecl("x-id", nil, s.e(s.shared("I16")), false), s.ret(s.e(s.shared("I8"))))
						return []*Val{f, s.inMain(probe(s, t))}
					}},
					{"parameter of a function expression in it", "I16", func(s *Scen) []*Val {
						return []*Val{s.inMain(out(s), s.vdecl("l-id", nil, s.lambda(nil, []string{"x-id"}, []*CT{s.shared("I16")}, probe(s, t)), false))}
					}},
					{"parameter of a function expression after it", "I8", func(s *Scen) []*Val {
						return []*Val{s.inMain(out(s), s.vdecl("l-id", nil, s.lambda(nil, []string{"x-id"}, []*CT{s.shared("I16")}), false), probe(s, t))}
					}},
					{"captured variable", "I8", func(s *Scen) []*Val {
						return []*Val{s.inMain(out(s), s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, t)), false))}
					}},
					{"captured variable after the function expression", "I8", func(s *Scen) []*Val {
						return []*Val{s.inMain(out(s), s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, "I8")), false), probe(s, t))}
					}},
					{"variable captured twice", "I8", func(s *Scen) []*Val {
						in := s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, "I8"), probe(s, t)), false)
						return []*Val{s.inMain(out(s), in)}
					}},
					{"hidden after being captured", "I16", func(s *Scen) []*Val {
						in := s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, "I8"), s.vdecl("x-id", nil, s.e(s.shared("I16")), false), probe(s, t)), false)
						return []*Val{s.inMain(out(s), in)}
					}},
					{"declared again", "I16", func(s *Scen) []*Val {
						return []*Val{s.inMain(out(s), s.vdecl("x-id", nil, s.e(s.shared("I16")), false), probe(s, t))}
					}},
					// functions declared in functions have none of their variables
					{"variable of the function around a declared function", "", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, probe(s, t))
						return []*Val{s.inMain(out(s), f)}
					}},
					{"variable of the function around a declared function that expects a result", "", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", s.shared(t), nil, nil, s.ret(s.va("x-id")))
						return []*Val{s.inMain(out(s), f)}
					}},
					{"parameter of the function around a declared function", "", func(s *Scen) []*Val {
						in, _ := s.fnc("h-id", nil, nil, nil, probe(s, t))
						f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.shared("I8")}, in)
						return []*Val{f}
					}},
					{"variable of the function around a declared function, in a function expression of it", "", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, t)), false))
						return []*Val{s.inMain(out(s), f)}
					}},
					{"variable of a function expression around a declared function", "", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, probe(s, t))
						return []*Val{s.inMain(s.vdecl("l-id", nil, s.lambda(nil, nil, nil, out(s), f), false))}
					}},
					{"variable of a block around a declared function", "", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, probe(s, t))
						return []*Val{s.inMain(s.mk("MacroBlock", "Block", s.blk(out(s), f).inner()))}
					}},
					{"own variable of a declared function in a function", "I16", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, s.vdecl("x-id", nil, s.e(s.shared("I16")), false), probe(s, t))
						return []*Val{s.inMain(out(s), f)}
					}},
					{"own parameter of a declared function in a function", "I16", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, []string{"x-id"}, []*CT{s.shared("I16")}, probe(s, t))
						return []*Val{s.inMain(out(s), f)}
					}},
					{"own variable of a declared function in a function, in a function expression of it", "I16", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, s.vdecl("x-id", nil, s.e(s.shared("I16")), false), s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, t)), false))
						return []*Val{s.inMain(out(s), f)}
					}},
					{"global in a declared function in a function", "I8", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, probe(s, t))
						return []*Val{out(s), s.inMain(f)}
					}},
					{"variable after a declared function that has such a variable", "I8", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, s.vdecl("x-id", nil, s.e(s.shared("I16")), false))
						return []*Val{s.inMain(out(s), f, probe(s, t))}
					}},
					{"captured variable after a declared function", "I8", func(s *Scen) []*Val {
						f, _ := s.fnc("h-id", nil, nil, nil, s.vdecl("x-id", nil, s.e(s.shared("I16")), false))
						return []*Val{s.inMain(out(s), f, s.vdecl("l-id", nil, s.lambda(nil, nil, nil, probe(s, t)), false))}
					}},
					{"global declared after its use", "", func(s *Scen) []*Val {
						return []*Val{s.inMain(probe(s, t)), s.vdecl("x-id", s.shared("I8"), s.e(s.shared("I8")), false)}
					}},
				} {
					v := v
					do("functions", v.n+" as "+t, v.want == t, v.b)
				}
				// functions and types do not depend on the order
				call := func(s *Scen) *Val {
					return s.vdecl("probe-id", s.shared(t), s.mk("Call", "Left", s.va("f-id"), "Parameters", []*Val{}), false)
				}
				fn := func(s *Scen, l ...*Val) *Val {
					f, _ := s.fnc("f-id", s.shared("I16"), nil, nil, append(l, s.ret(s.e(s.shared("I16"))))...)
					return f
				}
				do("order", "function declared before as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{fn(s), s.inMain(call(s))} })
				do("order", "function declared after as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{s.inMain(call(s)), fn(s)} })
				do("order", "recursive function as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{fn(s, call(s))} })
				do("order", "function in a function expression as "+t, t == "I16", func(s *Scen) []*Val {
					return []*Val{s.inMain(s.vdecl("l-id", nil, s.lambda(nil, nil, nil, call(s)), false)), fn(s)}
				})
				do("order", "undeclared function as "+t, false, func(s *Scen) []*Val { return []*Val{s.inMain(call(s))} })
				field := func(s *Scen) *Val {
					return s.vdecl("probe-id", s.shared(t), s.dot(s.e(s.tNamed("R-id")), "q-id"), false)
				}
				rec := func(s *Scen, kind string) *Val {
					_, d := s.tRec(kind, "R-id", []string{"p", "q"}, s.shared("I64"), s.shared("I16"))
					return d
				}
				for _, kind := range []string{"Struct", "Union"} {
					kind := kind
					do("order", kind+" declared before as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{rec(s, kind), s.inMain(field(s))} })
					do("order", kind+" declared after as "+t, t == "I16", func(s *Scen) []*Val { return []*Val{s.inMain(field(s)), rec(s, kind)} })
				}
			}
			// names of types
			for _, tf := range typeUses() {
				for _, defined := range []bool{true, false} {
					tf, defined := tf, defined
					do("type names", fmt.Sprintf("%s, defined: %v", tf.name, defined), defined, func(s *Scen) []*Val {
						var d []*Val
						if defined {
							_, x := s.tRec("Struct", "R-id", []string{"p"}, s.shared("I16"))
							d = append(d, x)
						}
						return append(d, tf.build(s, s.tNamed("R-id"))...)
					})
				}
			}
			// fields and attributes
			for _, nm := range []string{"p", "q", "x"} {
				nm := nm
				ok := nm != "x"
				for _, kind := range []string{"Struct", "Union"} {
					rec := func(s *Scen) *Val {
						_, d := s.tRec(kind, "R-id", []string{"p", "q"}, s.shared("I16"), s.shared("I16"))
						return d
					}
					do("fields", kind+" field "+nm, ok, func(s *Scen) []*Val {
						return []*Val{rec(s), s.inMain(s.xs(s.dot(s.e(s.tNamed("R-id")), nm+"-id")))}
					})
					do("fields", kind+" field "+nm+" behind a pointer", ok, func(s *Scen) []*Val {
						return []*Val{rec(s), s.inMain(s.xs(s.dot(s.e(s.tPtr(s.tNamed("R-id"))), nm+"-id")))}
					})
				}
				do("fields", "struct literal with "+nm, ok, func(s *Scen) []*Val {
					_, d := s.tRec("Struct", "R-id", []string{"p", "q"}, s.shared("I16"), s.shared("I16"))
					return []*Val{d, s.inMain(s.xs(s.structLit("R-id", []string{nm}, s.e(s.shared("I16")))))}
				})
			}
			for _, defined := range []bool{true, false} {
				defined := defined
				do("type names", fmt.Sprintf("struct literal, defined: %v", defined), defined, func(s *Scen) []*Val {
					var d []*Val
					if defined {
						_, x := s.tRec("Struct", "R-id", []string{"p"}, s.shared("I16"))
						d = append(d, x)
					}
					return append(d, s.inMain(s.xs(s.structLit("R-id", []string{"p"}, s.e(s.shared("I16"))))))
				})
			}
		}})
}

type typeUse struct {
	name  string
	build func(s *Scen, t *CT) []*Val
}

func typeUses() []typeUse {
	in := func(s *Scen, l ...*Val) []*Val { return []*Val{s.inMain(l...)} }
	return []typeUse{
		{"declaration", func(s *Scen, t *CT) []*Val { return in(s, s.vdecl("x-id", t, s.e(s.tNamed("R-id")), false)) }},
		{"pointer declaration", func(s *Scen, t *CT) []*Val {
			return in(s, s.vdecl("x-id", s.tPtr(t), s.e(s.tPtr(s.tNamed("R-id"))), false))
		}},
		{"array declaration", func(s *Scen, t *CT) []*Val {
			return in(s, s.vdecl("x-id", s.tArr(2, t), s.e(s.tArr(2, s.tNamed("R-id"))), false))
		}},
		{"parameter", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{t})
			return []*Val{f}
		}},
		{"pointer parameter", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.tPtr(t)})
			return []*Val{f}
		}},
		{"result", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", t, nil, nil, s.ret(s.e(s.tNamed("R-id"))))
			return []*Val{f}
		}},
		{"parameter of a function expression", func(s *Scen, t *CT) []*Val {
			return in(s, s.vdecl("l-id", nil, s.lambda(nil, []string{"x-id"}, []*CT{t}), false))
		}},
		{"global", func(s *Scen, t *CT) []*Val { return []*Val{s.vdecl("x-id", t, s.e(s.tNamed("R-id")), false)} }},
		{"pointer global", func(s *Scen, t *CT) []*Val {
			return []*Val{s.vdecl("x-id", s.tPtr(t), s.e(s.tPtr(s.tNamed("R-id"))), false)}
		}},
		{"list declaration", func(s *Scen, t *CT) []*Val {
			return in(s, s.mk("MultipleDeclarationStatement", "Names", s.strs([]string{"y-id", "x-id"}), "Type", t, "Expression", s.e(s.tList(s.tNamed("R-id"), s.tNamed("R-id"))), "Constant", false))
		}},
		{"array of pointers parameter", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"y-id", "x-id"}, []*CT{s.shared("I8"), s.tArr(2, s.tPtr(t))})
			return []*Val{f}
		}},
		{"pointer result", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", s.tPtr(t), nil, nil, s.ret(s.e(s.tPtr(s.tNamed("R-id")))))
			return []*Val{f}
		}},
		{"pointer result of a function expression", func(s *Scen, t *CT) []*Val {
			return in(s, s.vdecl("l-id", nil, s.lambda(s.tPtr(t), nil, nil, s.ret(s.e(s.tPtr(s.tNamed("R-id"))))), false))
		}},
		{"parameter of a function parameter", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.tFunc(s.shared("I8"), t)})
			return []*Val{f}
		}},
		{"result of a function parameter", func(s *Scen, t *CT) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{s.tFunc(t, s.shared("I8"))})
			return []*Val{f}
		}},
		{"pointer parameter of a function variable", func(s *Scen, t *CT) []*Val {
			return in(s, s.vdecl("x-id", s.tFunc(s.shared("I8"), s.tPtr(t)), s.e(s.tFunc(s.shared("I8"), s.tPtr(s.tNamed("R-id")))), false))
		}},
		{"parameter of a function field", func(s *Scen, t *CT) []*Val {
			_, d := s.tRec("Struct", "Q-id", []string{"a"}, s.tFunc(s.shared("I8"), t))
			return []*Val{d}
		}},
		{"array field of a struct", func(s *Scen, t *CT) []*Val {
			_, d := s.tRec("Struct", "Q-id", []string{"b", "a"}, s.shared("I8"), s.tArr(3, t))
			return []*Val{d}
		}},
		{"array of pointers field of a union", func(s *Scen, t *CT) []*Val {
			_, d := s.tRec("Union", "Q-id", []string{"b", "a"}, s.shared("I8"), s.tArr(3, s.tPtr(t)))
			return []*Val{d}
		}},
		{"array literal", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(2, t), "Values", []*Val{s.e(s.tNamed("R-id"))})))
		}},
		{"empty array literal", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(2, t), "Values", []*Val{})))
		}},
		{"empty array literal of pointers", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(2, s.tPtr(t)), "Values", []*Val{})))
		}},
		{"type of a block expression", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("ExpressionBlock", "Node.Type", t, "Block", s.blk(s.ret(s.e(s.tNamed("R-id")))).inner())))
		}},
		{"pointer type of a block expression", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("ExpressionBlock", "Node.Type", s.tPtr(t), "Block", s.blk(s.ret(s.e(s.tPtr(s.tNamed("R-id"))))).inner())))
		}},
		{"allocation of pointers", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "alloc", "TypeParameters", s.cts([]*CT{s.tPtr(t)}), "Parameters", []*Val{s.e(s.shared("I32"))})))
		}},
		{"result of assembly", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "asm", "TypeParameters", s.cts([]*CT{s.tPtr(t)}), "Parameters", []*Val{s.mk("StringLiteral", "Value", vStr("nop"), "Node.Type", s.tPtr(s.shared("I8")))})))
		}},
		{"pointer to a pointer as the result of assembly with an operand", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "asm", "TypeParameters", s.cts([]*CT{s.tPtr(s.tPtr(t))}), "Parameters", []*Val{s.mk("StringLiteral", "Value", vStr("nop"), "Node.Type", s.tPtr(s.shared("I8"))), s.e(s.shared("I32"))})))
		}},
		{"size of an array", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "sizeof", "TypeParameters", s.cts([]*CT{s.tArr(2, t)}), "Parameters", []*Val{})))
		}},
		{"cast to a pointer to a pointer", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "cast", "TypeParameters", s.cts([]*CT{s.tPtr(s.tPtr(t))}), "Parameters", []*Val{s.e(s.tPtr(s.shared("I8")))})))
		}},
		{"extern function", func(s *Scen, t *CT) []*Val {
			ft := s.tFunc(s.shared("I8"), s.tPtr(t))
			s.in.setField(s.st, ft.ct.inner(), "Name", vStr("g-id"))
			s.in.setField(s.st, ft.ct.inner(), "ExternalName", vStr("g"))
			s.in.setField(s.st, ft.ct.inner(), "Names", s.strs([]string{"a-id"}))
			return []*Val{s.mk("ExternStatement", "Type", ft)}
		}},
		{"cast", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "cast", "TypeParameters", s.cts([]*CT{s.tPtr(t)}), "Parameters", []*Val{s.e(s.tPtr(s.shared("I8")))})))
		}},
		{"allocation", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "alloc", "TypeParameters", s.cts([]*CT{t}), "Parameters", []*Val{s.e(s.shared("I32"))})))
		}},
		{"size", func(s *Scen, t *CT) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "sizeof", "TypeParameters", s.cts([]*CT{t}), "Parameters", []*Val{})))
		}},
		{"field of a struct", func(s *Scen, t *CT) []*Val {
			_, d := s.tRec("Struct", "Q-id", []string{"a"}, t)
			return []*Val{d}
		}},
		{"pointer field of a struct", func(s *Scen, t *CT) []*Val {
			_, d := s.tRec("Struct", "Q-id", []string{"b", "a"}, s.shared("I8"), s.tPtr(t))
			return []*Val{d}
		}},
		{"field of a union", func(s *Scen, t *CT) []*Val {
			_, d := s.tRec("Union", "Q-id", []string{"a"}, t)
			return []*Val{d}
		}},
	}
}
