package main

import (
	"fmt"
	"strings"
)

// C22: calls: what can be called, with how many arguments of which types, and what a method call stands for.

// callee is a way to get at a function of type ret(ps...).
type callee struct {
	name  string
	build func(e *tyEnv, ret *ty, ps []*ty) (fn *Val, top, local []*Val)
}

func names(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("p%d-id", i))
	}
	return r
}

func (e *tyEnv) mks(ts []*ty) []*CT {
	var r []*CT
	for _, t := range ts {
		r = append(r, e.mk(t))
	}
	return r
}

// body returns a value of the type, or nothing.
func (e *tyEnv) body(ret *ty) (*CT, []*Val) {
	if ret == tyVoid {
		return nil, nil
	}
	return e.mk(ret), []*Val{e.s.ret(e.val(ret))}
}

func (e *tyEnv) declared(name string, ret *ty, ps []*ty) *Val {
	rt, b := e.body(ret)
	f, _ := e.s.fnc(name, rt, names(len(ps)), e.mks(ps), b...)
	return f
}

func callees() []callee {
	return []callee{
		{"a function", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.s.va("f-id"), []*Val{e.declared("f-id", ret, ps)}, nil
		}},
		{"a function expression", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			rt, b := e.body(ret)
			return e.s.lambda(rt, names(len(ps)), e.mks(ps), b...), nil, nil
		}},
		{"a variable with a function expression", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			rt, b := e.body(ret)
			return e.s.va("v-id"), nil, []*Val{e.s.vdecl("v-id", nil, e.s.lambda(rt, names(len(ps)), e.mks(ps), b...), false)}
		}},
		{"a variable of a function type", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.s.va("v-id"), nil, []*Val{e.s.vdecl("v-id", e.mk(fun(ret, ps...)), e.val(fun(ret, ps...)), false)}
		}},
		{"a variable hiding a function", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.s.va("f-id"), []*Val{e.declared("f-id", num("i64"), []*ty{num("f64"), num("f64"), num("f64"), num("f64")})},
				[]*Val{e.s.vdecl("f-id", e.mk(fun(ret, ps...)), e.val(fun(ret, ps...)), false)}
		}},
		{"an expression", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.val(fun(ret, ps...)), nil, nil
		}},
		{"a field", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			t, d := e.s.tRec("Struct", "R-id", []string{"g", "h"}, e.mk(num("i64")), e.mk(fun(ret, ps...)))
			return e.s.dot(e.s.e(t), "h-id"), []*Val{d}, nil
		}},
		{"a field of a pointed-to struct", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			t, d := e.s.tRec("Struct", "R-id", []string{"g", "h"}, e.mk(num("i64")), e.mk(fun(ret, ps...)))
			return e.s.dot(e.s.e(e.s.tPtr(t)), "h-id"), []*Val{d}, nil
		}},
		{"a field with the name of a function", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			t, d := e.s.tRec("Struct", "R-id", []string{"g", "h"}, e.mk(num("i64")), e.mk(fun(ret, ps...)))
			f, _ := e.s.fnc("h-id", nil, []string{"r-id"}, []*CT{t})
			return e.s.dot(e.s.e(t), "h-id"), []*Val{d, f}, nil
		}},
		{"an element", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.s.idx(e.val(arr(3, fun(ret, ps...))), e.val(num("i32"))), nil, nil
		}},
		{"a dereferenced pointer", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.s.pop("Multiply", e.val(ptr(fun(ret, ps...)))), nil, nil
		}},
		{"the result of a call", func(e *tyEnv, ret *ty, ps []*ty) (*Val, []*Val, []*Val) {
			return e.s.mk("Call", "Left", e.val(fun(fun(ret, ps...), num("i8"))), "Parameters", []*Val{e.val(num("i8"))}), nil, nil
		}},
	}
}

// callShape are the parameters of a called function and what to pass.
type callShape struct {
	name string
	ps   []*ty
	args []*ty
	ok   bool
}

func callShapes() []callShape {
	i8, i16, i32, f64 := num("i8"), num("i16"), num("i32"), num("f64")
	pi := ptr(i32)
	var r []callShape
	for _, ps := range [][]*ty{{}, {i32}, {i8, i16}, {i32, pi, tyS}} {
		ps := ps
		n := len(ps)
		r = append(r, callShape{fmt.Sprintf("%d parameters", n), ps, ps, true})
		r = append(r, callShape{fmt.Sprintf("%d parameters, one argument too many", n), ps, append(append([]*ty{}, ps...), f64), false})
		if n > 0 {
			r = append(r, callShape{fmt.Sprintf("%d parameters, the last argument missing", n), ps, ps[:n-1], false})
			r = append(r, callShape{fmt.Sprintf("%d parameters, the last argument twice", n), ps, append(append([]*ty{}, ps...), ps[n-1]), false})
			r = append(r, callShape{fmt.Sprintf("%d parameters, no argument", n), ps, nil, false})
		}
		if n > 1 {
			r = append(r, callShape{fmt.Sprintf("%d parameters, the first argument missing", n), ps, ps[1:], false})
			var rev []*ty
			for i := range ps {
				rev = append(rev, ps[n-1-i])
			}
			r = append(r, callShape{fmt.Sprintf("%d parameters in reverse", n), ps, rev, false})
		}
		for i := range ps {
			bad := append([]*ty{}, ps...)
			bad[i] = f64
			r = append(r, callShape{fmt.Sprintf("%d parameters, argument %d of another type", n, i+1), ps, bad, false})
		}
	}
	return r
}

// callTree tells how a call was left for the compiler: the name it calls and the arguments it passes.
func (s *Scen) callTree(o Outcome, call *Val) (name string, args []string) {
	l := o.St.norm(s.in.field(o.St, call, "Left"))
	if l.K == KIface {
		if n := l.inner(); n != nil && n.K == KPtr && strings.HasSuffix(n.O.T.String(), "ast.Identifier") {
			name, _ = o.St.norm(s.in.field(o.St, l, "Name")).strConst()
		}
	}
	es, _ := s.in.elems(o.St, s.in.field(o.St, call, "Parameters"))
	for _, e := range es {
		e = o.St.norm(e)
		if in := e.inner(); e.K == KIface && in != nil {
			e = in
		}
		args = append(args, e.Key())
	}
	return name, args
}

func (s *Scen) keys(vs []*Val) []string {
	var r []string
	for _, v := range vs {
		v = s.st.norm(v)
		if in := v.inner(); v.K == KIface && in != nil {
			v = in
		}
		r = append(r, v.Key())
	}
	return r
}

func init() {
	register(&Prop{id: "C22",
		explanation: "Programs that call functions given in every way with fitting and unfitting arguments, and methods on receivers of every type, are followed through the analyzer on every path; accepted calls must pass the receiver and the arguments, in order, to the function meant.",
		rules:       []string{"only functions are called, with one argument of the right type per parameter", "a method call is the call of the function with the receiver as its first argument", "methods are no values"},
		run: func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			type more = func(o Outcome) (bool, string)
			n := 0
			env := func() (*Scen, *tyEnv) {
				n++
				s := NewSem(w, a, sa)
				return s, newTyEnv(s, n%2 == 0)
			}
			vals := func(e *tyEnv, ts []*ty) []*Val {
				r := []*Val{}
				for _, t := range ts {
					r = append(r, e.val(t))
				}
				return r
			}
			// use puts the value of the call to a place of the type, in a function of its own
			use := func(e *tyEnv, local []*Val, call *Val, want *ty) *Val {
				if want == nil || want == tyVoid {
					f, _ := e.s.fnc("main", nil, nil, nil, append(local, e.s.xs(call))...)
					return f
				}
				f, _ := e.s.fnc("main", nil, nil, nil, append(local, e.s.vdecl("probe-id", e.mk(want), call, false))...)
				return f
			}
			for ci, c := range callees() {
				for hi, h := range callShapes() {
					for ri, ret := range []*ty{num("i16"), tyVoid, ptr(tyS)} {
						if !r.thorough && ri > 0 && (ci+hi)%3 != 0 {
							continue
						}
						wants := []*ty{ret}
						if h.ok {
							wants = []*ty{ret, num("u16")}
							if ret != tyVoid {
								wants = append(wants, nil)
							}
						}
						for _, want := range wants {
							s, e := env()
							fn, top, local := c.build(e, ret, h.ps)
							args := vals(e, h.args)
							call := s.mk("Call", "Left", fn, "Parameters", args)
							prog := append(append([]*Val{}, e.decls...), top...)
							prog = append(prog, use(e, local, call, want))
							before := s.keys(args)
							name := fmt.Sprintf("%s of type %s", c.name, fun(ret, h.ps...))
							what := " unused"
							if want != nil {
								what = " as " + want.String()
							}
							r.judge(s, s.verdicts(prog...), "calls", name+", "+h.name+what, h.ok && (want == nil || same(want, ret)), func(o Outcome) (bool, string) {
								_, got := s.callTree(o, call)
								if fmt.Sprint(got) != fmt.Sprint(before) {
									return false, fmt.Sprintf("the arguments are %v, but the call is left with %v", before, got)
								}
								return true, ""
							})
						}
					}
				}
			}
			// what is no function
			for _, t := range append(typePool(), tyVoid, arr(2, fun(num("i32")))) {
				if t.k == "func" {
					continue
				}
				s, e := env()
				call := s.mk("Call", "Left", e.val(t), "Parameters", []*Val{})
				r.judge(s, s.verdicts(append(e.decls, s.inMain(s.xs(call)))...), "no function", t.String(), false, nil)
				s, e = env()
				call = s.mk("Call", "Left", s.va("v-id"), "Parameters", []*Val{e.val(num("i32"))})
				if t != tyVoid {
					r.judge(s, s.verdicts(append(e.decls, s.inMain(s.vdecl("v-id", e.mk(t), e.val(t), false), s.xs(call)))...), "no function", "variable of type "+t.String(), false, nil)
				}
			}
			// extern functions
			for _, variadic := range []bool{false, true} {
				for _, h := range callShapes() {
					short := len(h.args) < len(h.ps)
					if variadic && len(h.ps) == 0 {
						continue
					}
					ok := h.ok
					if variadic {
						ok = !short
						for i := range h.ps {
							ok = ok && same(h.ps[i], h.args[i])
						}
					}
					for _, want := range []*ty{num("i16"), num("u16")} {
						s, e := env()
						ft := s.tFunc(e.mk(num("i16")), e.mks(h.ps)...)
						in := ft.ct.inner()
						s.in.setField(s.st, in, "Name", vStr("f-id"))
						s.in.setField(s.st, in, "ExternalName", vStr("f"))
						s.in.setField(s.st, in, "Names", s.strs(names(len(h.ps))))
						s.in.setField(s.st, in, "InfiniteParameters", vBool(variadic))
						args := vals(e, h.args)
						call := s.mk("Call", "Left", s.va("f-id"), "Parameters", args)
						before := s.keys(args)
						prog := append(append([]*Val{}, e.decls...), s.mk("ExternStatement", "Type", ft), use(e, nil, call, want))
						r.judge(s, s.verdicts(prog...), "extern functions", fmt.Sprintf("%s, variadic: %v, as %s", h.name, variadic, want), ok && want.name == "i16", func(o Outcome) (bool, string) {
							_, got := s.callTree(o, call)
							return fmt.Sprint(got) == fmt.Sprint(before), fmt.Sprintf("the arguments are %v, but the call is left with %v", before, got)
						})
					}
				}
			}
			// methods
			pool := []*ty{num("i32"), num("u8"), num("f64"), ptr(num("i8")), ptr(num("i32")), ptr(ptr(num("i32"))), tyS, tyT, ptr(tyS), ptr(tyT), ptr(ptr(tyS)), tyU, ptr(tyU), arr(3, num("i32")), fun(num("i32"), num("i32")), ptr(fun(tyVoid))}
			for ri, recv := range pool {
				for pi, first := range pool {
					if !r.thorough && !same(recv, first) && (ri+pi)%2 != 0 && recv.k != "struct" && first.k != "struct" {
						continue
					}
					for hi, h := range callShapes() {
						if !same(recv, first) && (!h.ok || len(h.ps) > 1) {
							continue
						}
						if !r.thorough && !h.ok && (ri+hi)%3 != 0 {
							continue
						}
						s, e := env()
						ret := num("i16")
						x := e.val(recv)
						args := vals(e, h.args)
						call := s.mk("Call", "Left", s.dot(x, "m-id"), "Parameters", args)
						before := s.keys(append([]*Val{x}, args...))
						decl := e.declared("m-id", ret, append([]*ty{first}, h.ps...))
						prog := append(append([]*Val{}, e.decls...), decl, use(e, nil, call, ret))
						r.judge(s, s.verdicts(prog...), "methods", fmt.Sprintf("%s on a receiver of type %s, first parameter %s", h.name, recv, first), same(recv, first) && h.ok, func(o Outcome) (bool, string) {
							name, got := s.callTree(o, call)
							if name != "m-id" {
								return false, fmt.Sprintf("the method call is left as a call of %q", name)
							}
							return fmt.Sprint(got) == fmt.Sprint(before), fmt.Sprintf("receiver and arguments are %v, but the call is left with %v", before, got)
						})
					}
				}
				// other uses of the method
				others := []struct {
					name  string
					valid bool
					build func(s *Scen, e *tyEnv, m *Val) *Val
				}{
					{"stored", false, func(s *Scen, e *tyEnv, m *Val) *Val { return s.vdecl("v-id", nil, m, false) }},
					{"as a statement", false, func(s *Scen, e *tyEnv, m *Val) *Val { return s.xs(m) }},
					{"as an argument", false, func(s *Scen, e *tyEnv, m *Val) *Val {
						return s.xs(s.mk("Call", "Left", e.val(fun(tyVoid, fun(num("i16"), recv))), "Parameters", []*Val{m}))
					}},
					{"as the argument of another method", false, func(s *Scen, e *tyEnv, m *Val) *Val {
						return s.xs(s.mk("Call", "Left", s.dot(e.val(num("u64")), "k-id"), "Parameters", []*Val{m}))
					}},
					{"in the expression that is called", false, func(s *Scen, e *tyEnv, m *Val) *Val {
						return s.xs(s.mk("Call", "Left", s.idx(e.val(arr(2, fun(num("i32")))), m), "Parameters", []*Val{}))
					}},
					{"in a block expression that is called", false, func(s *Scen, e *tyEnv, m *Val) *Val {
						b := s.mk("ExpressionBlock", "Node.Type", e.mk(fun(num("i16"), recv)), "Block", s.blk(s.ret(m)).inner())
						return s.xs(s.mk("Call", "Left", b, "Parameters", []*Val{e.val(recv)}))
					}},
					{"assigned to", false, func(s *Scen, e *tyEnv, m *Val) *Val { return s.asg(m, e.val(fun(num("i16"), recv))) }},
					{"called twice", false, func(s *Scen, e *tyEnv, m *Val) *Val {
						return s.xs(s.mk("Call", "Left", s.mk("Call", "Left", m, "Parameters", []*Val{}), "Parameters", []*Val{}))
					}},
					{"called in an argument", true, func(s *Scen, e *tyEnv, m *Val) *Val {
						c := s.mk("Call", "Left", m, "Parameters", []*Val{})
						return s.xs(s.mk("Call", "Left", e.val(fun(tyVoid, num("i8"), num("i16"))), "Parameters", []*Val{e.val(num("i8")), c}))
					}},
				}
				for _, ot := range others {
					s, e := env()
					k := func() *Val {
						f, _ := s.fnc("k-id", nil, names(2), []*CT{e.mk(num("u64")), e.mk(fun(num("i16"), recv))})
						return f
					}
					st := ot.build(s, e, s.dot(e.val(recv), "m-id"))
					prog := append(append([]*Val{}, e.decls...), e.declared("m-id", num("i16"), []*ty{recv}), k(), s.inMain(st))
					r.judge(s, s.verdicts(prog...), "methods are no values", fmt.Sprintf("of %s, %s", recv, ot.name), ot.valid, nil)
				}
				// names that are no methods
				for _, v := range []struct {
					name  string
					build func(s *Scen, e *tyEnv) (top, local []*Val)
				}{
					{"undeclared", func(s *Scen, e *tyEnv) ([]*Val, []*Val) { return nil, nil }},
					{"without parameters", func(s *Scen, e *tyEnv) ([]*Val, []*Val) {
						return []*Val{e.declared("m-id", num("i16"), nil)}, nil
					}},
					{"a global", func(s *Scen, e *tyEnv) ([]*Val, []*Val) {
						return []*Val{s.vdecl("m-id", s.shared("I32"), s.e(s.shared("I32")), false)}, nil
					}},
					{"a local", func(s *Scen, e *tyEnv) ([]*Val, []*Val) {
						return nil, []*Val{s.vdecl("m-id", s.shared("I32"), s.e(s.shared("I32")), false)}
					}},
					{"a local function value", func(s *Scen, e *tyEnv) ([]*Val, []*Val) {
						return nil, []*Val{s.vdecl("m-id", nil, e.val(fun(num("i16"), recv)), false)}
					}},
				} {
					s, e := env()
					top, local := v.build(s, e)
					call := s.mk("Call", "Left", s.dot(e.val(recv), "m-id"), "Parameters", []*Val{})
					prog := append(append([]*Val{}, e.decls...), top...)
					prog = append(prog, s.inMain(append(local, s.xs(call))...))
					r.judge(s, s.verdicts(prog...), "no methods", fmt.Sprintf("%s on %s", v.name, recv), false, nil)
				}
				// chains and nesting: the result of a method is the receiver of the next, arguments are method calls
				{
					s, e := env()
					x := e.val(recv)
					inner := s.mk("Call", "Left", s.dot(x, "m-id"), "Parameters", []*Val{})
					outer := s.mk("Call", "Left", s.dot(inner, "k-id"), "Parameters", []*Val{})
					prog := append(append([]*Val{}, e.decls...), e.declared("m-id", num("i16"), []*ty{recv}), e.declared("k-id", ptr(recv), []*ty{num("i16")}), use(e, nil, outer, ptr(recv)))
					wi, wo := s.keys([]*Val{x}), s.keys([]*Val{inner})
					r.judge(s, s.verdicts(prog...), "methods", "chain on "+recv.String(), true, func(o Outcome) (bool, string) {
						n1, g1 := s.callTree(o, inner)
						n2, g2 := s.callTree(o, outer)
						return n1 == "m-id" && n2 == "k-id" && fmt.Sprint(g1, g2) == fmt.Sprint(wi, wo), fmt.Sprintf("the chain is left as %s%v and %s%v", n1, g1, n2, g2)
					})
					s, e = env()
					x, y := e.val(recv), e.val(recv)
					arg := s.mk("Call", "Left", s.dot(y, "m-id"), "Parameters", []*Val{})
					mid := e.val(num("i64"))
					outer = s.mk("Call", "Left", s.dot(x, "k-id"), "Parameters", []*Val{mid, arg})
					prog = append(append([]*Val{}, e.decls...), e.declared("m-id", num("i16"), []*ty{recv}), e.declared("k-id", ptr(recv), []*ty{recv, num("i64"), num("i16")}), use(e, nil, outer, ptr(recv)))
					wi, wo = s.keys([]*Val{y}), s.keys([]*Val{x, mid, arg})
					r.judge(s, s.verdicts(prog...), "methods", "method call as an argument on "+recv.String(), true, func(o Outcome) (bool, string) {
						n1, g1 := s.callTree(o, arg)
						n2, g2 := s.callTree(o, outer)
						return n1 == "m-id" && n2 == "k-id" && fmt.Sprint(g1, g2) == fmt.Sprint(wi, wo), fmt.Sprintf("the calls are left as %s%v and %s%v", n1, g1, n2, g2)
					})
				}
			}
			// built-in functions
			for _, ok := range []bool{true, false} {
				s, e := env()
				name := "print"
				if !ok {
					name = "prinx"
				}
				r.judge(s, s.verdicts(append(e.decls, s.inMain(s.xs(s.mk("BuiltinCall", "Name", name, "Parameters", []*Val{e.val(num("i32"))}))))...), "built-in functions", "@"+name, ok, nil)
			}
		}})
}
