package main

import "fmt"

// C48: there are no values of the type void; pointers to it are pointers like others.

// voidForm is a type made with void. result: it may be the type of what a function yields. value: it may be the type of a value.
type voidForm struct {
	name          string
	result, value bool
	mk            func(s *Scen) *CT
}

func voidForms() []voidForm {
	v := func(s *Scen) *CT { return s.voidCT() }
	i8 := func(s *Scen) *CT { return s.shared("I8") }
	return []voidForm{
		{"void", true, false, v},
		{"[2]void", false, false, func(s *Scen) *CT { return s.tArr(2, v(s)) }},
		{"[2][3]void", false, false, func(s *Scen) *CT { return s.tArr(2, s.tArr(3, v(s))) }},
		{"*[2]void", false, false, func(s *Scen) *CT { return s.tPtr(s.tArr(2, v(s))) }},
		{"func(void) i8", false, false, func(s *Scen) *CT { return s.tFunc(i8(s), v(s)) }},
		{"func(i8, [1]void) void", false, false, func(s *Scen) *CT { return s.tFunc(v(s), i8(s), s.tArr(1, v(s))) }},
		{"*func(i8, void) i8", false, false, func(s *Scen) *CT { return s.tPtr(s.tFunc(i8(s), i8(s), v(s))) }},
		{"func() [1]void", false, false, func(s *Scen) *CT { return s.tFunc(s.tArr(1, v(s))) }},
		{"*void", true, true, func(s *Scen) *CT { return s.tPtr(v(s)) }},
		{"**void", true, true, func(s *Scen) *CT { return s.tPtr(s.tPtr(v(s))) }},
		{"func(*void) *void", true, true, func(s *Scen) *CT { return s.tFunc(s.tPtr(v(s)), s.tPtr(v(s))) }},
		{"func(i8) void", true, true, func(s *Scen) *CT { return s.tFunc(v(s), i8(s)) }},
		{"func(func() void) void", true, true, func(s *Scen) *CT { return s.tFunc(v(s), s.tFunc(v(s))) }},
		{"[2]*void", true, true, func(s *Scen) *CT { return s.tArr(2, s.tPtr(v(s))) }},
		{"[2]func(*void) void", true, true, func(s *Scen) *CT { return s.tArr(2, s.tFunc(v(s), s.tPtr(v(s)))) }},
		{"*[2]*void", true, true, func(s *Scen) *CT { return s.tPtr(s.tArr(2, s.tPtr(v(s)))) }},
	}
}

// voidPos is a position of a type. result: it is the type of what something yields, reg: of something in a register.
type voidPos struct {
	name        string
	result, reg bool
	build       func(s *Scen, t func(s *Scen) *CT) []*Val
}

func voidPositions() []voidPos {
	in := func(s *Scen, st ...*Val) []*Val { return []*Val{s.inMain(st...)} }
	text := func(s *Scen) *Val {
		return s.mk("StringLiteral", "Value", vStr("nop"), "Node.Type", s.tPtr(s.shared("I8")))
	}
	type tf = func(s *Scen) *CT
	isVoid := func(t *CT) bool { return t.name == "void" }
	body := func(s *Scen, t tf) []*Val {
		if isVoid(t(s)) {
			return nil
		}
		return []*Val{s.ret(s.e(t(s)))}
	}
	return []voidPos{
		{"a parameter", false, false, func(s *Scen, t tf) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{t(s)})
			return []*Val{f}
		}},
		{"a second parameter", false, false, func(s *Scen, t tf) []*Val {
			f, _ := s.fnc("f-id", s.shared("I8"), []string{"y-id", "x-id"}, []*CT{s.shared("I8"), t(s)}, s.ret(s.va("y-id")))
			return []*Val{f}
		}},
		{"a parameter of a function expression", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.vdecl("l-id", nil, s.lambda(nil, []string{"y-id", "x-id"}, []*CT{s.shared("I8"), t(s)}), false))
		}},
		{"a parameter of a function declared in a function", false, false, func(s *Scen, t tf) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{t(s)})
			return in(s, f)
		}},
		{"a parameter of an extern function", false, false, func(s *Scen, t tf) []*Val {
			ft := s.tFunc(s.shared("I8"), t(s))
			s.in.setField(s.st, ft.ct.inner(), "Name", vStr("g-id"))
			s.in.setField(s.st, ft.ct.inner(), "ExternalName", vStr("g"))
			s.in.setField(s.st, ft.ct.inner(), "Names", s.strs([]string{"a-id"}))
			return []*Val{s.mk("ExternStatement", "Type", ft)}
		}},
		{"a result", true, false, func(s *Scen, t tf) []*Val {
			f, _ := s.fnc("f-id", t(s), nil, nil, body(s, t)...)
			return []*Val{f}
		}},
		{"a result of a function expression", true, false, func(s *Scen, t tf) []*Val {
			return in(s, s.vdecl("l-id", nil, s.lambda(t(s), nil, nil, body(s, t)...), false))
		}},
		{"a variable", false, false, func(s *Scen, t tf) []*Val { return in(s, s.vdecl("x-id", t(s), s.e(t(s)), false)) }},
		{"a global variable", false, false, func(s *Scen, t tf) []*Val { return []*Val{s.vdecl("x-id", t(s), s.e(t(s)), false)} }},
		{"a declared list", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.mk("MultipleDeclarationStatement", "Names", s.strs([]string{"y-id", "x-id"}), "Type", t(s), "Expression", s.e(s.tList(t(s), t(s))), "Constant", false))
		}},
		{"a field of a struct", false, false, func(s *Scen, t tf) []*Val {
			_, d := s.tRec("Struct", "Q-id", []string{"b", "a"}, s.shared("I8"), t(s))
			return []*Val{d}
		}},
		{"the first field of a struct", false, false, func(s *Scen, t tf) []*Val {
			_, d := s.tRec("Struct", "Q-id", []string{"a", "b"}, t(s), s.shared("I8"))
			return []*Val{d}
		}},
		{"a field of a union", false, false, func(s *Scen, t tf) []*Val {
			_, d := s.tRec("Union", "Q-id", []string{"b", "a"}, s.shared("I8"), t(s))
			return []*Val{d}
		}},
		{"what is allocated", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "alloc", "TypeParameters", s.cts([]*CT{t(s)}), "Parameters", []*Val{s.e(s.shared("I32"))})))
		}},
		{"the elements of an array", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(2, t(s)), "Values", []*Val{})))
		}},
		{"what a pointer that is cast to points to", true, false, func(s *Scen, t tf) []*Val {
			return in(s, s.vdecl("x-id", nil, s.mk("BuiltinCall", "Name", "cast", "TypeParameters", s.cts([]*CT{s.tPtr(t(s))}), "Parameters", []*Val{s.e(s.tPtr(s.shared("I8")))}), false))
		}},
		{"the result of assembly", true, true, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "asm", "TypeParameters", s.cts([]*CT{t(s)}), "Parameters", []*Val{text(s), s.e(s.shared("I8"))})))
		}},
		{"an operand of assembly", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.mk("BuiltinCall", "Name", "asm", "TypeParameters", s.cts([]*CT{s.shared("I8")}), "Parameters", []*Val{text(s), s.e(s.shared("I8")), s.vcall(t(s))})))
		}},
		{"a reference", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.pop("BinaryAND", s.vcall(t(s)))))
		}},
		{"what a dereferenced pointer points to", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.pop("Multiply", s.e(s.tPtr(t(s))))))
		}},
		{"what an indexed pointer points to", false, false, func(s *Scen, t tf) []*Val {
			return in(s, s.xs(s.idx(s.e(s.tPtr(t(s))), s.e(s.shared("I32")))))
		}},
	}
}

// vcall is a call whose result has the type.
func (s *Scen) vcall(t *CT) *Val {
	return s.mk("Call", "Left", s.e(s.tFunc(t)), "Parameters", []*Val{})
}

func init() {
	register(&Prop{id: "C48",
		explanation: "Abstract interpretation of the analysis of programs that write types made with void in every position a type can stand in, and programs that use what a call without a result yields in every position a value can stand in.",
		rules:       []string{"void is a type of results and what pointers point to, and nothing else", "nothing is made of the result of a function without one", "pointers to void are values"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			do := func(rule, construct string, valid bool, build func(s *Scen) []*Val) {
				s := NewSem(w, a, sa)
				r.judge(s, s.verdicts(build(s)...), rule, construct, valid, nil)
			}
			for _, p := range voidPositions() {
				for _, f := range voidForms() {
					p, f := p, f
					ok := f.value || p.result && f.result
					if p.reg && len(f.name) > 0 && f.name[0] == '[' {
						ok = false
					}
					if !ok && !p.result && f.name != "void" && (p.name == "an operand of assembly" || p.name == "a reference" || p.name == "a variable" || p.name == "a global variable" || p.name == "a declared list" || len(p.name) > 5 && p.name[:5] == "what ") && p.name != "what is allocated" {
						// what has such a type is rejected before
						continue
					}
					do("types with void", f.name+" as the type of "+p.name, ok, func(s *Scen) []*Val { return p.build(s, f.mk) })
				}
			}
			// what a function without a result yields
			nothing := func(s *Scen) *Val { return s.vcall(s.voidCT()) }
			i32 := func(s *Scen) *Val { return s.e(s.shared("I32")) }
			bc := func(s *Scen, n string, ts []*CT, ps ...*Val) *Val {
				return s.mk("BuiltinCall", "Name", n, "TypeParameters", s.cts(ts), "Parameters", ps)
			}
			uses := []struct {
				name  string
				ok    bool
				build func(s *Scen) []*Val
			}{
				{"a statement", true, func(s *Scen) []*Val { return []*Val{s.xs(nothing(s))} }},
				{"two statements", true, func(s *Scen) []*Val { return []*Val{s.xs(nothing(s)), s.xs(nothing(s))} }},
				{"a returned value of a function without a result", true, func(s *Scen) []*Val { return []*Val{s.ret(nothing(s))} }},
				{"a declared value", false, func(s *Scen) []*Val { return []*Val{s.vdecl("x-id", nil, nothing(s), false)} }},
				{"a declared value of a type", false, func(s *Scen) []*Val { return []*Val{s.vdecl("x-id", s.shared("I32"), nothing(s), false)} }},
				{"the first of two values", false, func(s *Scen) []*Val {
					return []*Val{s.mk("MultipleDeclarationStatement", "Names", s.strs([]string{"y-id", "x-id"}), "Type", s.todo(), "Expression", s.mk("CommaExpressions", "Expressions", []*Val{nothing(s), i32(s)}), "Constant", false)}
				}},
				{"the second of two values", false, func(s *Scen) []*Val {
					return []*Val{s.mk("MultipleDeclarationStatement", "Names", s.strs([]string{"y-id", "x-id"}), "Type", s.todo(), "Expression", s.mk("CommaExpressions", "Expressions", []*Val{i32(s), nothing(s)}), "Constant", false)}
				}},
				{"what is assigned", false, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", nil, i32(s), false), s.asg(s.va("x-id"), nothing(s))}
				}},
				{"what is assigned behind a pointer to void", false, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", nil, s.e(s.tPtr(s.voidCT())), false), s.asg(s.pop("Multiply", s.va("x-id")), nothing(s))}
				}},
				{"a condition", false, func(s *Scen) []*Val { return []*Val{s.iff(nothing(s), s.blk(), nil)} }},
				{"a condition of a loop", false, func(s *Scen) []*Val {
					return []*Val{s.through(s.forStmt(s.nextID("for"), nil, nothing(s), nil, s.blk().inner()))}
				}},
				{"what a switch looks at", false, func(s *Scen) []*Val {
					return []*Val{s.through(s.switchStmt(s.nextID("sw"), nothing(s), [][2]*Val{{s.intLit(1), s.blk().inner()}}, nil))}
				}},
				{"an argument", false, func(s *Scen) []*Val {
					return []*Val{s.xs(s.mk("Call", "Left", s.e(s.tFunc(s.shared("I32"), s.shared("I32"))), "Parameters", []*Val{nothing(s)}))}
				}},
				{"what is called", false, func(s *Scen) []*Val { return []*Val{s.xs(s.mk("Call", "Left", nothing(s), "Parameters", []*Val{}))} }},
				{"an indexed value", false, func(s *Scen) []*Val { return []*Val{s.xs(s.idx(nothing(s), i32(s)))} }},
				{"an index", false, func(s *Scen) []*Val {
					return []*Val{s.xs(s.idx(s.e(s.tPtr(s.shared("I32"))), nothing(s)))}
				}},
				{"an element", false, func(s *Scen) []*Val {
					return []*Val{s.xs(s.mk("ArrayLiteral", "Node.Type", s.tArr(1, s.shared("I32")), "Values", []*Val{nothing(s)}))}
				}},
				{"what is printed", false, func(s *Scen) []*Val { return []*Val{s.xs(bc(s, "print", nil, nothing(s)))} }},
				{"the second thing that is printed", false, func(s *Scen) []*Val { return []*Val{s.xs(bc(s, "print", nil, i32(s), nothing(s)))} }},
				{"what is freed", false, func(s *Scen) []*Val { return []*Val{s.xs(bc(s, "free", nil, nothing(s)))} }},
				{"how much is allocated", false, func(s *Scen) []*Val {
					return []*Val{s.xs(bc(s, "alloc", []*CT{s.shared("I32")}, nothing(s)))}
				}},
				{"what is allocated again", false, func(s *Scen) []*Val { return []*Val{s.xs(bc(s, "realloc", nil, nothing(s), i32(s)))} }},
				{"how much is allocated again", false, func(s *Scen) []*Val {
					return []*Val{s.xs(bc(s, "realloc", nil, s.e(s.tPtr(s.shared("I32"))), nothing(s)))}
				}},
				{"what is cast", false, func(s *Scen) []*Val {
					return []*Val{s.xs(bc(s, "cast", []*CT{s.shared("I32")}, nothing(s)))}
				}},
				{"what is cast to a pointer", false, func(s *Scen) []*Val {
					return []*Val{s.xs(bc(s, "cast", []*CT{s.tPtr(s.voidCT())}, nothing(s)))}
				}},
				{"what is cast to void", false, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", nil, bc(s, "cast", []*CT{s.voidCT()}, i32(s)), false)}
				}},
			}
			for _, u := range uses {
				u := u
				do("values", "the result of a function without one as "+u.name, u.ok, func(s *Scen) []*Val { return []*Val{s.inMain(u.build(s)...)} })
				do("values", "the result of a function without one as "+u.name+" in a function expression", u.ok, func(s *Scen) []*Val {
					return []*Val{s.inMain(s.vdecl("l-id", nil, s.lambda(nil, nil, nil, u.build(s)...), false))}
				})
			}
			for _, op := range []string{"Add", "Subtract", "Multiply", "Divide", "Modulo", "BinaryAND", "BinaryOR", "BinaryXOR", "LeftShift", "RightShift", "Equals", "NotEquals", "LessThan", "GreaterThan", "LessThanEqual", "GreaterThanEqual", "AND", "OR"} {
				for k, n := range []string{"both operands", "the left operand", "the right operand"} {
					op, k := op, k
					do("values", fmt.Sprintf("the result of a function without one as %s of %s", n, op), false, func(s *Scen) []*Val {
						l, rr := nothing(s), nothing(s)
						other := "I32"
						if op == "AND" || op == "OR" {
							other = "I1"
						}
						if k == 1 {
							rr = s.e(s.shared(other))
						} else if k == 2 {
							l = s.e(s.shared(other))
						}
						return []*Val{s.inMain(s.xs(s.bop(op, l, rr)))}
					})
				}
			}
			for _, op := range []string{"Subtract", "Bang", "AddOne", "SubtractOne", "Multiply"} {
				op := op
				do("values", "the result of a function without one as the operand of "+op, false, func(s *Scen) []*Val {
					return []*Val{s.inMain(s.xs(s.pop(op, nothing(s))))}
				})
			}
			// pointers to void
			vp := func(s *Scen) *CT { return s.tPtr(s.voidCT()) }
			for _, u := range []struct {
				name  string
				ok    bool
				build func(s *Scen) []*Val
			}{
				{"a variable", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", nil, s.e(vp(s)), false), s.vdecl("y-id", vp(s), s.va("x-id"), false), s.asg(s.va("x-id"), s.va("y-id"))}
				}},
				{"a cast", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", vp(s), bc(s, "cast", []*CT{vp(s)}, s.e(s.tPtr(s.shared("I32")))), false), s.vdecl("y-id", s.tPtr(s.shared("I16")), bc(s, "cast", []*CT{s.tPtr(s.shared("I16"))}, s.va("x-id")), false)}
				}},
				{"a cast to and from a number", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", vp(s), bc(s, "cast", []*CT{vp(s)}, s.e(s.shared("I64"))), false), s.vdecl("y-id", s.shared("I64"), bc(s, "cast", []*CT{s.shared("I64")}, s.va("x-id")), false)}
				}},
				{"a comparison", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", nil, s.bop("Equals", s.e(vp(s)), s.e(vp(s))), false)}
				}},
				{"a sum", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", vp(s), s.bop("Add", s.e(vp(s)), i32(s)), false)}
				}},
				{"an argument and a result", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", vp(s), s.mk("Call", "Left", s.e(s.tFunc(vp(s), vp(s))), "Parameters", []*Val{s.e(vp(s))}), false)}
				}},
				{"a reference", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", nil, s.e(vp(s)), false), s.vdecl("y-id", s.tPtr(vp(s)), s.pop("BinaryAND", s.va("x-id")), false), s.asg(s.pop("Multiply", s.va("y-id")), s.va("x-id"))}
				}},
				{"what is freed", true, func(s *Scen) []*Val { return []*Val{s.xs(bc(s, "free", nil, s.e(vp(s))))} }},
				{"what is allocated", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", s.tPtr(vp(s)), bc(s, "alloc", []*CT{vp(s)}, i32(s)), false)}
				}},
				{"an element", true, func(s *Scen) []*Val {
					return []*Val{s.vdecl("x-id", s.tArr(2, vp(s)), s.mk("ArrayLiteral", "Node.Type", s.tArr(2, vp(s)), "Values", []*Val{s.e(vp(s)), s.e(vp(s))}), false), s.vdecl("y-id", vp(s), s.idx(s.va("x-id"), i32(s)), false)}
				}},
				{"another pointer", false, func(s *Scen) []*Val { return []*Val{s.vdecl("x-id", vp(s), s.e(s.tPtr(s.shared("I8"))), false)} }},
				{"the value of another pointer", false, func(s *Scen) []*Val { return []*Val{s.vdecl("x-id", s.tPtr(s.shared("I8")), s.e(vp(s)), false)} }},
				{"a field", false, func(s *Scen) []*Val { return []*Val{s.xs(s.dot(s.e(vp(s)), "a-id"))} }},
			} {
				u := u
				do("pointers to void", "a pointer to void as "+u.name, u.ok, func(s *Scen) []*Val { return []*Val{s.inMain(u.build(s)...)} })
			}
		}})
}
