package main

import (
	"fmt"
	"go/types"
)

// C16: constants keep their value, values are stored only in places, constant expressions are constant.

// holder declares the variable x-id of a type; use wraps the statement that works on it.
type holder struct {
	name     string
	constant bool // its value never changes
	known    bool // it can be part of a constant expression
	memory   bool // it lives in memory, a reference to it could be taken
	prog     func(s *Scen, t *CT, decls []*Val, use func() *Val) []*Val
}

func holders() []holder {
	num := func(s *Scen) *CT { return s.shared("I32") }
	list := func(s *Scen, t *CT, constant bool) *Val {
		return s.mk("MultipleDeclarationStatement", "Names", s.strs([]string{"y-id", "x-id"}), "Type", s.todo(), "Expression", s.e(s.tList(num(s), t)), "Constant", constant)
	}
	lam := func(s *Scen, st ...*Val) *Val { return s.vdecl("l-id", nil, s.lambda(nil, nil, nil, st...), false) }
	var r []holder
	for _, c := range []bool{false, true} {
		c := c
		n := "variable"
		if c {
			n = "constant"
		}
		r = append(r,
			holder{"a local " + n, c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.inMain(s.vdecl("x-id", t, s.e(t), c), use()))
			}},
			holder{"a global " + n, c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.vdecl("x-id", t, s.e(t), c), s.inMain(use()))
			}},
			holder{"a " + n + " declared in a list", c, false, true, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.inMain(list(s, t, c), use()))
			}},
			holder{"a captured " + n, c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.inMain(s.vdecl("x-id", t, s.e(t), c), lam(s, use())))
			}},
			holder{"a " + n + " captured through two functions", c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.inMain(s.vdecl("x-id", t, s.e(t), c), lam(s, lam(s, use()))))
			}},
			holder{"a captured " + n + " declared in a list", c, false, true, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.inMain(list(s, t, c), lam(s, use())))
			}},
			holder{"a global " + n + " in a function expression", c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.vdecl("x-id", t, s.e(t), c), s.inMain(lam(s, use())))
			}},
			holder{"a " + n + " shadowing the opposite", c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.vdecl("x-id", t, s.e(t), !c), s.inMain(s.vdecl("x-id", t, s.e(t), c), use()))
			}},
			holder{"a " + n + " shadowed in a block before", c, c, !c, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
				return append(d, s.inMain(s.vdecl("x-id", t, s.e(t), c), s.blk(s.vdecl("x-id", t, s.e(t), !c)), use()))
			}},
		)
	}
	r = append(r,
		holder{"a parameter", false, false, true, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{t}, use())
			return append(d, f)
		}},
		holder{"a parameter of a function expression", false, false, true, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
			l := s.lambda(nil, []string{"x-id"}, []*CT{t}, use())
			return append(d, s.inMain(s.vdecl("l-id", nil, l, false)))
		}},
		holder{"a parameter shadowing a constant", false, false, true, func(s *Scen, t *CT, d []*Val, use func() *Val) []*Val {
			f, _ := s.fnc("f-id", nil, []string{"x-id"}, []*CT{t}, use())
			return append(d, s.vdecl("x-id", t, s.e(t), true), f)
		}},
	)
	return r
}

func (s *Scen) intLit(n int64) *Val {
	return s.mk("Integer", "Value", vIntT(n, types.Typ[types.Int64]), "Node.Type", s.shared("I32"))
}
func (s *Scen) idx(l, i *Val) *Val { return s.mk("IndexAccess", "Left", l, "Access", i) }
func (s *Scen) dot(l *Val, f string) *Val {
	return s.bop("Dot", l, s.va(f))
}

// place is a part of the variable x-id that has the type i32.
type place struct {
	name    string
	through bool // it is behind a pointer, not in the variable itself
	build   func(s *Scen) (t *CT, decls []*Val, mk func() *Val)
}

func places() []place {
	x := func(s *Scen) *Val { return s.va("x-id") }
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	rec := func(s *Scen) (*CT, []*Val) {
		_, d := s.tRec("Struct", "R-id", []string{"p", "q"}, s.shared("I8"), i32(s))
		return s.tNamed("R-id"), []*Val{d}
	}
	return []place{
		{"x", false, func(s *Scen) (*CT, []*Val, func() *Val) { return i32(s), nil, func() *Val { return x(s) } }},
		{"x[e]", false, func(s *Scen) (*CT, []*Val, func() *Val) {
			return s.tArr(2, i32(s)), nil, func() *Val { return s.idx(x(s), s.e(i32(s))) }
		}},
		{"x.q", false, func(s *Scen) (*CT, []*Val, func() *Val) {
			t, d := rec(s)
			return t, d, func() *Val { return s.dot(x(s), "q-id") }
		}},
		{"x[e].q", false, func(s *Scen) (*CT, []*Val, func() *Val) {
			t, d := rec(s)
			return s.tArr(3, t), d, func() *Val { return s.dot(s.idx(x(s), s.e(i32(s))), "q-id") }
		}},
		{"x.p[e]", false, func(s *Scen) (*CT, []*Val, func() *Val) {
			_, d := s.tRec("Struct", "R-id", []string{"p"}, s.tArr(2, i32(s)))
			return s.tNamed("R-id"), []*Val{d}, func() *Val { return s.idx(s.dot(x(s), "p-id"), s.e(i32(s))) }
		}},
		{"*x", true, func(s *Scen) (*CT, []*Val, func() *Val) {
			return s.tPtr(i32(s)), nil, func() *Val { return s.pop("Multiply", x(s)) }
		}},
		{"x[e] of a pointer", true, func(s *Scen) (*CT, []*Val, func() *Val) {
			return s.tPtr(i32(s)), nil, func() *Val { return s.idx(x(s), s.e(i32(s))) }
		}},
		{"x.q of a pointer", true, func(s *Scen) (*CT, []*Val, func() *Val) {
			t, d := rec(s)
			return s.tPtr(t), d, func() *Val { return s.dot(x(s), "q-id") }
		}},
	}
}

type storing struct {
	name  string
	build func(s *Scen, place *Val) *Val
}

func storings() []storing {
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	return []storing{
		{"= e", func(s *Scen, p *Val) *Val { return s.asg(p, s.e(i32(s))) }},
		{"++", func(s *Scen, p *Val) *Val { return s.xs(s.pop("AddOne", p)) }},
		{"--", func(s *Scen, p *Val) *Val { return s.xs(s.pop("SubtractOne", p)) }},
		{"++ in a sum", func(s *Scen, p *Val) *Val {
			return s.vdecl("z-id", nil, s.bop("Add", s.e(i32(s)), s.pop("AddOne", p)), false)
		}},
		{"-- as an index of what is stored to", func(s *Scen, p *Val) *Val {
			return s.asg(s.idx(s.e(s.tPtr(i32(s))), s.pop("SubtractOne", p)), s.e(i32(s)))
		}},
		{"second in a list =", func(s *Scen, p *Val) *Val {
			l := s.mk("CommaExpressions", "Expressions", []*Val{s.pop("Multiply", s.e(s.tPtr(i32(s)))), p}, "IsAssignment", true)
			return s.asg(l, s.e(s.tList(i32(s), i32(s))))
		}},
		{"= in the body of a loop", func(s *Scen, p *Val) *Val {
			return s.through(s.forStmt(s.nextID("for"), nil, s.e(s.shared("I1")), nil, s.blk(s.asg(p, s.e(i32(s)))).inner()))
		}},
		{"++ as the update of a loop", func(s *Scen, p *Val) *Val {
			return s.through(s.forStmt(s.nextID("for"), nil, s.e(s.shared("I1")), s.xs(s.pop("AddOne", p)), s.blk().inner()))
		}},
		{"= in a block expression", func(s *Scen, p *Val) *Val {
			b := s.mk("ExpressionBlock", "Node.Type", i32(s), "Block", s.blk(s.asg(p, s.e(i32(s))), s.ret(s.e(i32(s)))).inner())
			return s.xs(b)
		}},
	}
}

// reading uses that never change the value, also on the left of an assignment.
func readings() []storing {
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	return []storing{
		{"read", func(s *Scen, p *Val) *Val { return s.vdecl("z-id", nil, p, false) }},
		{"index of what is stored to", func(s *Scen, p *Val) *Val { return s.asg(s.idx(s.e(s.tPtr(i32(s))), p), s.e(i32(s))) }},
		{"argument in what is stored to", func(s *Scen, p *Val) *Val {
			c := s.mk("Call", "Left", s.e(s.tFunc(s.tPtr(i32(s)), i32(s))), "Parameters", []*Val{p})
			return s.asg(s.pop("Multiply", c), s.e(i32(s)))
		}},
		{"index of what is incremented", func(s *Scen, p *Val) *Val { return s.xs(s.pop("AddOne", s.idx(s.e(s.tPtr(i32(s))), p))) }},
		{"block expression in what is stored to", func(s *Scen, p *Val) *Val {
			b := s.mk("ExpressionBlock", "Node.Type", i32(s), "Block", s.blk(s.ret(p)).inner())
			return s.asg(s.idx(s.e(s.tPtr(i32(s))), b), s.e(i32(s)))
		}},
		{"function expression in what is stored to", func(s *Scen, p *Val) *Val {
			c := s.mk("Call", "Left", s.lambda(i32(s), nil, nil, s.ret(p)), "Parameters", []*Val{})
			return s.asg(s.idx(s.e(s.tPtr(i32(s))), c), s.e(i32(s)))
		}},
		{"right side of an assignment", func(s *Scen, p *Val) *Val { return s.asg(s.pop("Multiply", s.e(s.tPtr(i32(s)))), p) }},
	}
}

func init() {
	register(&Prop{id: "C16",
		explanation: "Programs that store to, refer to and read every kind of variable and constant (local, global, captured, in lists, shadowed; whole, fields, elements) in every storing construct are followed through the analyzer on every path; so are constant expressions made of every kind of operand.",
		rules:       []string{"nothing stores to a constant or to what is not a place", "no reference to a constant that lives in memory", "variables can be stored to and constants read everywhere", "constant declarations and cases take constant expressions only, and only these"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			do := func(rule, construct string, valid bool, build func(s *Scen) []*Val) {
				s := NewSem(w, a, sa)
				r.judge(s, s.verdicts(build(s)...), rule, construct, valid, nil)
			}
			for hi, h := range holders() {
				for pi, p := range places() {
					h, p := h, p
					run := func(rule, construct string, valid bool, st storing) {
						do(rule, construct, valid, func(s *Scen) []*Val {
							t, d, mk := p.build(s)
							return h.prog(s, t, d, func() *Val { return st.build(s, mk()) })
						})
					}
					if !(h.constant && p.through) {
						for si, st := range storings() {
							if r.thorough || si == 0 || (hi+pi+si)%2 == 0 {
								run("storing", fmt.Sprintf("%s %s, x is %s", p.name, st.name, h.name), !h.constant, st)
							}
						}
					}
					for si, st := range readings() {
						if r.thorough || si < 2 || (hi+pi+si)%2 == 0 {
							run("reading", fmt.Sprintf("%s as %s, x is %s", p.name, st.name, h.name), true, st)
						}
					}
					if h.memory {
						// what is behind a pointer isn't part of the constant
						run("reference", fmt.Sprintf("&%s, x is %s", p.name, h.name), !h.constant || p.through, storing{"&", func(s *Scen, v *Val) *Val { return s.vdecl("z-id", nil, s.pop("BinaryAND", v), false) }})
					}
				}
				// as part of constant expressions
				for _, cx := range constContexts() {
					for _, ex := range constUses() {
						h, cx, ex := h, cx, ex
						do("constant expression", fmt.Sprintf("%s in %s, x is %s", ex.name, cx.name, h.name), h.known, func(s *Scen) []*Val {
							return h.prog(s, s.shared("I32"), nil, func() *Val { return cx.build(s, ex.build(s, s.va("x-id"))) })
						})
					}
				}
			}
			// what is not a place
			for _, np := range notPlaces() {
				for _, st := range storings() {
					np, st := np, st
					do("storing", np.name+" "+st.name, false, func(s *Scen) []*Val {
						d, v := np.build(s)
						return append(d, s.inMain(st.build(s, v)))
					})
				}
			}
			for _, cx := range constContexts() {
				for _, nc := range notConstant() {
					cx, nc := cx, nc
					do("constant expression", nc.name+" in "+cx.name, false, func(s *Scen) []*Val {
						d, v := nc.build(s)
						return append(d, s.inMain(cx.build(s, v)))
					})
				}
				cx := cx
				do("constant expression", "literals in "+cx.name, true, func(s *Scen) []*Val {
					return []*Val{s.inMain(cx.build(s, s.bop("Add", s.intLit(1), s.intLit(2))))}
				})
				// what follows is not restricted
				do("constant expression", "a variable after "+cx.name, true, func(s *Scen) []*Val {
					return []*Val{s.inMain(s.vdecl("v-id", nil, s.intLit(3), false), cx.build(s, s.intLit(1)), s.vdecl("y-id", nil, s.va("v-id"), false), s.asg(s.va("v-id"), s.va("y-id")))}
				})
				do("constant expression", "a call after "+cx.name, true, func(s *Scen) []*Val {
					return []*Val{s.inMain(cx.build(s, s.intLit(1)), s.xs(s.mk("Call", "Left", s.e(s.tFunc(s.shared("I32"))), "Parameters", []*Val{})))}
				})
			}
			// texts
			text := func(s *Scen, v string) *Val {
				return s.mk("StringLiteral", "Value", vStr(v), "Node.Type", s.tPtr(s.shared("I8")))
			}
			for _, cx := range textContexts() {
				cx := cx
				put := func(name string, ok bool, b func(s *Scen) *Val) {
					do("constant expression", name+" in "+cx.name, ok, func(s *Scen) []*Val { return []*Val{s.inMain(cx.build(s, b(s)))} })
				}
				put("a text", true, func(s *Scen) *Val { return text(s, "abc") })
				put("a sum of texts", false, func(s *Scen) *Val { return s.bop("Add", text(s, "a"), text(s, "b")) })
				put("a sum of a text and a number", false, func(s *Scen) *Val { return s.bop("Add", text(s, "a"), s.intLit(1)) })
				put("a difference of a text and a number", false, func(s *Scen) *Val { return s.bop("Subtract", text(s, "a"), s.intLit(1)) })
				for _, typed := range []bool{true, false} {
					typed := typed
					t := func(s *Scen) *CT {
						if typed {
							return s.tPtr(s.shared("I8"))
						}
						return nil
					}
					n := fmt.Sprintf("the name of a constant text in %s, typed=%v, ", cx.name, typed)
					do("constant expression", n+"declared outside", true, func(s *Scen) []*Val {
						return []*Val{s.vdecl("x-id", t(s), text(s, "abc"), true), s.inMain(cx.build(s, s.va("x-id")))}
					})
					do("constant expression", n+"declared in the function", true, func(s *Scen) []*Val {
						return []*Val{s.inMain(s.vdecl("x-id", t(s), text(s, "abc"), true), cx.build(s, s.va("x-id")))}
					})
					do("constant expression", n+"which stands for another", true, func(s *Scen) []*Val {
						return []*Val{s.vdecl("w-id", t(s), text(s, "abc"), true), s.inMain(s.vdecl("x-id", t(s), s.va("w-id"), true), cx.build(s, s.va("x-id")))}
					})
				}
				do("constant expression", "the name of a variable text in "+cx.name, false, func(s *Scen) []*Val {
					return []*Val{s.inMain(s.vdecl("x-id", nil, text(s, "abc"), false), cx.build(s, s.va("x-id")))}
				})
			}
			do("constant expression", "a variable in the body of a case", true, func(s *Scen) []*Val {
				c := [][2]*Val{{s.intLit(1), s.blk(s.vdecl("y-id", nil, s.va("v-id"), false)).inner()}, {s.intLit(2), s.blk(s.vdecl("y-id", nil, s.va("v-id"), false)).inner()}}
				return []*Val{s.inMain(s.vdecl("v-id", nil, s.intLit(3), false), s.through(s.switchStmt(s.nextID("sw"), s.va("v-id"), c, s.blk(s.vdecl("y-id", nil, s.va("v-id"), false)).inner())))}
			})
		}})
}

func constContexts() []storing {
	return []storing{
		{"a constant", func(s *Scen, v *Val) *Val { return s.vdecl("k-id", nil, v, true) }},
		{"a constant with a type", func(s *Scen, v *Val) *Val { return s.vdecl("k-id", s.shared("I32"), v, true) }},
		{"a case", func(s *Scen, v *Val) *Val {
			return s.through(s.switchStmt(s.nextID("sw"), s.e(s.shared("I32")), [][2]*Val{{v, s.blk().inner()}}, nil))
		}},
		{"a second case", func(s *Scen, v *Val) *Val {
			return s.through(s.switchStmt(s.nextID("sw"), s.e(s.shared("I32")), [][2]*Val{{s.intLit(7), s.blk().inner()}, {v, s.blk().inner()}}, s.blk().inner()))
		}},
	}
}

// textContexts hold constant texts.
func textContexts() []storing {
	flag := func(s *Scen, ps ...*Val) *Val {
		return s.xs(s.mk("BuiltinCall", "Name", "add_compiler_flag", "TypeParameters", s.cts(nil), "Parameters", ps))
	}
	return []storing{
		{"a constant", func(s *Scen, v *Val) *Val { return s.vdecl("k-id", nil, v, true) }},
		{"a constant with a type", func(s *Scen, v *Val) *Val { return s.vdecl("k-id", s.tPtr(s.shared("I8")), v, true) }},
		{"a flag for the compiler", func(s *Scen, v *Val) *Val { return flag(s, v) }},
		{"the second flag for the compiler", func(s *Scen, v *Val) *Val {
			return flag(s, s.mk("StringLiteral", "Value", vStr("-O1"), "Node.Type", s.tPtr(s.shared("I8"))), v)
		}},
	}
}

func constUses() []storing {
	return []storing{
		{"x", func(s *Scen, v *Val) *Val { return v }},
		{"1 + x", func(s *Scen, v *Val) *Val { return s.bop("Add", s.intLit(1), v) }},
		{"x * 2 - 1", func(s *Scen, v *Val) *Val { return s.bop("Subtract", s.bop("Multiply", v, s.intLit(2)), s.intLit(1)) }},
	}
}

type exprForm struct {
	name  string
	build func(s *Scen) (decls []*Val, v *Val)
}

// notConstant are i32 expressions that are only known when the program runs.
func notConstant() []exprForm {
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	f := func(n string, b func(s *Scen) *Val) exprForm {
		return exprForm{n, func(s *Scen) ([]*Val, *Val) { return nil, b(s) }}
	}
	return []exprForm{
		f("a call", func(s *Scen) *Val { return s.mk("Call", "Left", s.e(s.tFunc(i32(s))), "Parameters", []*Val{}) }),
		{"a call of a declared function", func(s *Scen) ([]*Val, *Val) {
			d, _ := s.fnc("f-id", i32(s), nil, nil, s.ret(s.e(i32(s))))
			return []*Val{d}, s.mk("Call", "Left", s.va("f-id"), "Parameters", []*Val{})
		}},
		f("a sum with a call", func(s *Scen) *Val {
			return s.bop("Add", s.intLit(1), s.mk("Call", "Left", s.e(s.tFunc(i32(s))), "Parameters", []*Val{}))
		}),
		f("a dereference", func(s *Scen) *Val { return s.pop("Multiply", s.e(s.tPtr(i32(s)))) }),
		f("an increment", func(s *Scen) *Val { return s.pop("AddOne", s.pop("Multiply", s.e(s.tPtr(i32(s))))) }),
		f("a block expression", func(s *Scen) *Val {
			return s.mk("ExpressionBlock", "Node.Type", i32(s), "Block", s.blk(s.ret(s.intLit(1))).inner())
		}),
		{"a field behind a pointer", func(s *Scen) ([]*Val, *Val) {
			_, d := s.tRec("Struct", "R-id", []string{"q"}, i32(s))
			return []*Val{d}, s.dot(s.e(s.tPtr(s.tNamed("R-id"))), "q-id")
		}},
	}
}

// notPlaces are i32 expressions whose value is in no place of the program.
func notPlaces() []exprForm {
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	f := func(n string, b func(s *Scen) *Val) exprForm {
		return exprForm{n, func(s *Scen) ([]*Val, *Val) { return nil, b(s) }}
	}
	r := []exprForm{
		f("a literal", func(s *Scen) *Val { return s.intLit(3) }),
		f("a sum", func(s *Scen) *Val { return s.bop("Add", s.e(i32(s)), s.e(i32(s))) }),
		f("a negation", func(s *Scen) *Val { return s.pop("Subtract", s.e(i32(s))) }),
		f("a call", func(s *Scen) *Val { return s.mk("Call", "Left", s.e(s.tFunc(i32(s))), "Parameters", []*Val{}) }),
		f("a cast", func(s *Scen) *Val {
			return s.mk("BuiltinCall", "Name", "cast", "TypeParameters", s.cts([]*CT{i32(s)}), "Parameters", []*Val{s.e(s.shared("I8"))})
		}),
		f("a block expression", func(s *Scen) *Val {
			return s.mk("ExpressionBlock", "Node.Type", i32(s), "Block", s.blk(s.ret(s.e(i32(s)))).inner())
		}),
		f("a comparison", func(s *Scen) *Val { return s.bop("Equals", s.e(i32(s)), s.e(i32(s))) }),
	}
	return r
}
