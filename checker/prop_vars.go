package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---- what memory holds along a route ---------------------------------------------------------------------------

// place normalises an address as it is after the first n steps of a route: the object it lies in and the constant path into it.
func (s *Scen) place(st *State, w *Walk, n int, p *Val, depth int) string {
	p, n = s.resolve(st, w, n, p, depth)
	p = st.norm(p)
	d := s.in.def(st, p)
	if d != nil {
		switch d.S {
		case "Alloca":
			return "slot:" + p.inner().O.ID
		case "global":
			if p.inner().K == KPtr {
				return "global:" + p.inner().O.ID
			}
		case "BitCast", "const.BitCast":
			return s.place(st, w, n, d.A[0], depth+1)
		case "GetElementPtr", "const.GetElementPtr":
			var x []string
			for _, i := range d.A[2:] {
				x = append(x, s.valueOn(st, w, n, i, depth+1))
			}
			b := s.place(st, w, n, d.A[1], depth+1)
			if len(x) > 0 && x[0] != "0" {
				b += "+" + x[0]
			}
			if len(x) < 2 {
				return b
			}
			return b + "." + strings.Join(x[1:], ".")
		}
	}
	return "at:" + s.term(st, p)
}

// resolve follows loads from memory the route has stored to: the term, as of which step, that was stored there last.
func (s *Scen) resolve(st *State, w *Walk, n int, v *Val, depth int) (*Val, int) {
	for ; depth < 14; depth++ {
		v = st.norm(v)
		d := s.in.def(st, v)
		if d == nil || d.S != "Load" {
			return v, n
		}
		at := s.loadedAt(st, w, n, v)
		if at < 0 {
			return v, n
		}
		p := s.place(st, w, at, d.A[1], depth+1)
		i := at - 1
		for ; i >= 0; i-- {
			e := w.steps[i].ev
			if e == nil || e.Op != "ir:Store" {
				continue
			}
			q := s.place(st, w, i, e.Args[1], depth+1)
			if q == p {
				break
			}
			if strings.HasPrefix(q, p+".") || strings.HasPrefix(p, q+".") {
				return v, n
			}
		}
		if i < 0 {
			return v, n
		}
		v, n = w.steps[i].ev.Args[0], i
	}
	return v, n
}

func (s *Scen) loadedAt(st *State, w *Walk, n int, v *Val) int {
	for i := n - 1; i >= 0; i-- {
		if e := w.steps[i].ev; e != nil && e.Op == "ir:Load" && e.Res != nil && st.norm(e.Res).inner().Key() == st.norm(v).inner().Key() {
			return i
		}
	}
	return -1
}

// valueOn renders the value a term has after the first n steps of the route.
func (s *Scen) valueOn(st *State, w *Walk, n int, v *Val, depth int) string {
	v, n = s.resolve(st, w, n, v, depth)
	d := s.in.def(st, v)
	if d == nil || depth > 14 {
		return s.term(st, v)
	}
	switch d.S {
	case "BitCast", "const.BitCast": // same bits
		return s.valueOn(st, w, n, d.A[0], depth+1)
	case "Alloca", "global", "GetElementPtr", "const.GetElementPtr":
		return "&" + s.place(st, w, n, v, depth+1)
	case "Load":
	default:
		return s.term(st, v)
	}
	at := s.loadedAt(st, w, n, v)
	if at < 0 {
		return "a load that is not executed"
	}
	p := s.place(st, w, at, d.A[1], depth+1)
	parts := map[string]string{}
	for i := at - 1; i >= 0; i-- {
		e := w.steps[i].ev
		if e == nil || e.Op != "ir:Store" {
			continue
		}
		q := s.place(st, w, i, e.Args[1], depth+1)
		if strings.HasPrefix(q, p+".") {
			k := strings.TrimPrefix(q, p)
			if _, later := parts[k]; !later {
				parts[k] = s.valueOn(st, w, i, e.Args[0], depth+1)
			}
		}
		if q == p || strings.HasPrefix(p, q+".") {
			r := strings.TrimPrefix(p, q)
			if r != "" {
				r += " of "
			}
			return r + s.valueOn(st, w, i, e.Args[0], depth+1) + withParts(parts)
		}
	}
	if len(parts) > 0 {
		return withParts(parts)
	}
	if strings.HasPrefix(p, "slot:") {
		return "uninitialised memory"
	}
	if strings.HasPrefix(p, "global:") {
		return "content of " + p
	}
	return "*" + strings.TrimPrefix(p, "at:")
}

func withParts(m map[string]string) string {
	if len(m) == 0 {
		return ""
	}
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

// ---- programs over variables ----------------------------------------------------------------------------------

func (s *Scen) decl(id, name string, t *CT, e *Val, constant bool) *Val {
	b := s.node(id, "DeclarationStatement")
	s.in.setField(s.st, b, "Name", vStr(name))
	s.in.setField(s.st, b, "Type", t.ct)
	s.in.setField(s.st, b, "Expression", e)
	s.in.setField(s.st, b, "Constant", vBool(constant))
	return s.through(b)
}

func (s *Scen) multiDecl(id string, names []string, ts []*CT, e *Val) *Val {
	b := s.node(id, "MultipleDeclarationStatement")
	var ns, cs []*Val
	for i, n := range names {
		ns = append(ns, vStr(n))
		cs = append(cs, ts[i].ct)
	}
	s.in.setField(s.st, b, "Names", s.in.list(s.st, id+".Names", types.Typ[types.String], ns...))
	s.in.setField(s.st, b, "Type", s.typeList(cs...).ct)
	s.in.setField(s.st, b, "Expression", e)
	s.in.setField(s.st, b, "Constant", vBool(false))
	return s.through(b)
}

func (s *Scen) assign(id string, l, r *Val) *Val {
	b := s.node(id, "AssignmentStatement")
	s.in.setField(s.st, b, "Left", l)
	s.in.setField(s.st, b, "Expression", r)
	return s.through(b)
}

func (s *Scen) comma(id string, assignment bool, ts []*CT, xs ...*Val) *Val {
	b := s.node(id, "CommaExpressions")
	s.in.setField(s.st, b, "Expressions", s.in.list(s.st, id+".xs", s.in.w.typ("internals/ast", "Expression"), xs...))
	s.in.setField(s.st, b, "IsAssignment", vBool(assignment))
	var cs []*Val
	for _, t := range ts {
		cs = append(cs, t.ct)
	}
	s.setType(b, s.typeList(cs...))
	return s.through(b)
}

func (s *Scen) use(name string, t *CT) *Val { return s.through(s.id(name, t)) }

// A vt is a type of variable under test, with the ways its values can be produced.
type vt struct {
	name  string
	mk    func(s *Scen) *CT
	modes []Mode
}

func varTypes() []vt {
	return []vt{
		{"i32", func(s *Scen) *CT { return s.shared("I32") }, []Mode{LV, RV, RVF}},
		{"f64", func(s *Scen) *CT { return s.shared("F64") }, []Mode{LV, RV, RVF}},
		{"*i32", func(s *Scen) *CT { return s.in.ptrTo(s.st, s.shared("I32")) }, []Mode{LV, RVF}},
		{"struct", structP, []Mode{LV, RVF, SLIT}},
		{"array", func(s *Scen) *CT { return s.in.arrayOf(s.st, s.shared("I32"), 3) }, []Mode{LV, RVF, SLIT}},
		{"union", unionU, []Mode{LV, RVF}},
	}
}

// ve builds programs over variables of one type; the values given to variables are abstract operands A, B, C …
type ve struct {
	s *Scen
	t *CT
	m Mode
	n int
	// strings are initialised by literals
	strs bool
}

func (b *ve) id(k string) string { b.n++; return fmt.Sprintf("%s%d", k, b.n) }
func (b *ve) v(n string) *Val    { return b.s.addChild(n, b.t, b.m) }
func (b *ve) val(n string) string {
	return valName(n, b.m)
}
func valName(n string, m Mode) string {
	if m == SLIT {
		return "*" + n
	}
	return operand(n, m)
}
func (b *ve) decl(x string, e *Val) *Val { return b.s.decl(b.id("decl"), x, b.t, e, false) }
func (b *ve) set(x string, e *Val) *Val  { return b.s.assign(b.id("set"), b.use(x), e) }
func (b *ve) use(x string) *Val          { return b.s.use(x, b.t) }
func (b *ve) ret(x string) *Val          { return b.s.retStmt(b.id("ret"), b.use(x), b.t) }
func (b *ve) cond(n string) *Val         { return b.s.addChild(n, b.s.shared("I1"), RV) }
func (b *ve) block(x ...*Val) *Val       { return b.s.block(b.id("block"), x...) }
func (b *ve) stm(x ...*Val) *Val         { return b.s.through(b.block(x...)) }

// pre is a prefix operation on a given operand.
func (s *Scen) pre(id, op string, res *CT, x *Val) *Val {
	b := s.node(id, "PrefixOperation")
	s.in.setField(s.st, b, "Right", x)
	s.in.setField(s.st, b, "Operation", s.op(op))
	s.setType(b, res)
	return s.through(b)
}

type varProg struct {
	name string
	only string // kinds of type it applies to ("" = all)
	body func(b *ve) []*Val
	want func(b *ve) map[string]string // observable steps of the route -> value returned
	par  bool                          // the function takes parameters p, q of the type
}

func varProgs() []varProg {
	one := func(k, v string) func(b *ve) map[string]string {
		return func(b *ve) map[string]string { return map[string]string{k: b.val(v)} }
	}
	var r []varProg
	add := func(name string, body func(b *ve) []*Val, want func(b *ve) map[string]string) {
		r = append(r, varProg{name: name, body: body, want: want})
	}
	add("x := A; return x", func(b *ve) []*Val { return []*Val{b.decl("x", b.v("A")), b.ret("x")} }, one("A", "A"))
	add("x := A; x = B; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.set("x", b.v("B")), b.ret("x")}
	}, one("A B", "B"))
	add("x := A; y := B; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")), b.ret("x")}
	}, one("A B", "A"))
	add("x := A; y := B; x = C; return y", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")), b.set("x", b.v("C")), b.ret("y")}
	}, one("A B C", "B"))
	add("x := A; y := x; x = B; return y", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.use("x")), b.set("x", b.v("B")), b.ret("y")}
	}, one("A B", "A"))
	add("x := A; y := x; y = B; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.use("x")), b.set("y", b.v("B")), b.ret("x")}
	}, one("A B", "A"))
	add("x := A; y := B; x = y; y = C; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")), b.set("x", b.use("y")), b.set("y", b.v("C")), b.ret("x")}
	}, one("A B C", "B"))
	add("x := A; x := B; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("x", b.v("B")), b.ret("x")}
	}, one("A B", "B"))
	// scopes
	type sc struct {
		name string
		wrap func(b *ve, body ...*Val) *Val
		in   []string // routes through the body: prefix of steps
		out  []string // routes around it
	}
	scopes := []sc{
		{"{ … }", func(b *ve, x ...*Val) *Val { return b.stm(x...) }, []string{""}, nil},
		{"if c { … }", func(b *ve, x ...*Val) *Val { return b.s.ifStmt(b.id("if"), b.cond("c"), b.block(x...), nil, nil) }, []string{"c [c]T"}, []string{"c [c]F"}},
		{"if c { } else { … }", func(b *ve, x ...*Val) *Val {
			return b.s.ifStmt(b.id("if"), b.cond("c"), b.block(), nil, b.block(x...))
		}, []string{"c [c]F"}, []string{"c [c]T"}},
		{"if c { } else if d { … }", func(b *ve, x ...*Val) *Val {
			return b.s.ifStmt(b.id("if"), b.cond("c"), b.block(), [][2]*Val{{b.cond("d"), b.block(x...)}}, nil)
		}, []string{"c [c]F d [d]T"}, []string{"c [c]T", "c [c]F d [d]F"}},
		{"switch k { case 1 { … } }", func(b *ve, x ...*Val) *Val {
			return b.s.switchStmt(b.id("switch"), b.s.addChild("k", b.s.shared("I32"), RV), [][2]*Val{{b.s.addChild("k1", b.s.shared("I32"), RV), b.block(x...)}}, nil)
		}, []string{"k [k]case *k1", "k [k]case k1"}, []string{"k [k]default"}},
		{"switch k { default { … } }", func(b *ve, x ...*Val) *Val {
			return b.s.switchStmt(b.id("switch"), b.s.addChild("k", b.s.shared("I32"), RV), nil, b.block(x...))
		}, []string{"k [k]default"}, nil},
	}
	for _, c := range scopes {
		c := c
		routes := func(inside, outside func(b *ve) string, bodySteps string) func(b *ve) map[string]string {
			return func(b *ve) map[string]string {
				m := map[string]string{}
				for _, k := range c.in {
					m[strings.Join(strings.Fields("A "+k+" "+bodySteps), " ")] = inside(b)
				}
				for _, k := range c.out {
					m[strings.Join(strings.Fields("A "+k), " ")] = outside(b)
				}
				return m
			}
		}
		A := func(b *ve) string { return b.val("A") }
		B := func(b *ve) string { return b.val("B") }
		add("x := A; "+strings.Replace(c.name, "…", "x := B", 1)+" return x", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), c.wrap(b, b.decl("x", b.v("B"))), b.ret("x")}
		}, routes(A, A, "B"))
		add("x := A; "+strings.Replace(c.name, "…", "x = B", 1)+" return x", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), c.wrap(b, b.set("x", b.v("B"))), b.ret("x")}
		}, routes(B, A, "B"))
		add("x := A; "+strings.Replace(c.name, "…", "x := B; return x", 1)+" return x", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), c.wrap(b, b.decl("x", b.v("B")), b.ret("x")), b.ret("x")}
		}, routes(B, A, "B"))
		add("x := A; "+strings.Replace(c.name, "…", "x := B; { x := C } return x", 1)+" return x", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), c.wrap(b, b.decl("x", b.v("B")), b.stm(b.decl("x", b.v("C"))), b.ret("x")), b.ret("x")}
		}, routes(B, A, "B C"))
		add("x := A; "+strings.Replace(c.name, "…", "y := B; y = x; x = y", 1)+" return x", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), c.wrap(b, b.decl("y", b.v("B")), b.set("y", b.use("x")), b.set("x", b.use("y"))), b.ret("x")}
		}, routes(A, A, "B"))
	}
	// loops
	loop := func(b *ve, init, upd *Val, body ...*Val) *Val {
		return b.s.forStmt(b.id("for"), init, b.cond("c"), upd, b.block(body...))
	}
	add("x := A; for c { x := B } return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), loop(b, nil, nil, b.decl("x", b.v("B"))), b.ret("x")}
	}, func(b *ve) map[string]string {
		return map[string]string{"A c [c]F": b.val("A"), "A c [c]T B c [c]F": b.val("A")}
	})
	add("x := A; for c { x = B } return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), loop(b, nil, nil, b.set("x", b.v("B"))), b.ret("x")}
	}, func(b *ve) map[string]string {
		return map[string]string{"A c [c]F": b.val("A"), "A c [c]T B c [c]F": b.val("B")}
	})
	add("x := A; for x := B; c; { } return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), loop(b, b.decl("x", b.v("B")), nil), b.ret("x")}
	}, func(b *ve) map[string]string {
		return map[string]string{"A B c [c]F": b.val("A"), "A B c [c]T c [c]F": b.val("A")}
	})
	add("x := A; for x := B; c; x = C { return x } return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), loop(b, b.decl("x", b.v("B")), b.set("x", b.v("C")), b.ret("x")), b.ret("x")}
	}, func(b *ve) map[string]string {
		return map[string]string{"A B c [c]F": b.val("A"), "A B c [c]T": b.val("B")}
	})
	add("x := A; for x := B; c; x = C { if d { return x } } return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), loop(b, b.decl("x", b.v("B")), b.set("x", b.v("C")), b.s.ifStmt(b.id("if"), b.cond("d"), b.block(b.ret("x")), nil, nil)), b.ret("x")}
	}, func(b *ve) map[string]string {
		return map[string]string{"A B c [c]F": b.val("A"), "A B c [c]T d [d]T": b.val("B"), "A B c [c]T d [d]F C c [c]F": b.val("A"), "A B c [c]T d [d]F C c [c]T d [d]T": b.val("C")}
	})
	add("x := A; for c { y := x; x = B; if d { return y } } return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), loop(b, nil, nil, b.decl("y", b.use("x")), b.set("x", b.v("B")), b.s.ifStmt(b.id("if"), b.cond("d"), b.block(b.ret("y")), nil, nil)), b.ret("x")}
	}, func(b *ve) map[string]string {
		return map[string]string{"A c [c]F": b.val("A"), "A c [c]T B d [d]T": b.val("A"), "A c [c]T B d [d]F c [c]T B d [d]T": b.val("B")}
	})
	// block expressions
	add("x := A; y := :T { x := B; return x }; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.s.exprBlock(b.id("eb"), b.t, b.decl("x", b.v("B")), b.ret("x"))), b.ret("x")}
	}, one("A B", "A"))
	add("x := A; y := :T { x := B; return x }; return y", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.s.exprBlock(b.id("eb"), b.t, b.decl("x", b.v("B")), b.ret("x"))), b.ret("y")}
	}, one("A B", "B"))
	add("x := A; y := :T { x = B; return x }; x = C; return y", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.s.exprBlock(b.id("eb"), b.t, b.set("x", b.v("B")), b.ret("x"))), b.set("x", b.v("C")), b.ret("y")}
	}, one("A B C", "B"))
	// functions in functions
	add("x := A; func(x) { x = B; return x }; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.s.exprStmt(b.id("es"), b.s.through(b.s.fn(b.id("fn"), "", true, b.t, []string{"x"}, []*CT{b.t}, b.set("x", b.v("B")), b.ret("x")))), b.ret("x")}
	}, one("A", "A"))
	add("x := A; func() { x := B; return x }; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.s.exprStmt(b.id("es"), b.s.through(b.s.fn(b.id("fn"), "", true, b.t, nil, nil, b.decl("x", b.v("B")), b.ret("x")))), b.ret("x")}
	}, one("A", "A"))
	// parameters
	par := func(name string, body func(b *ve) []*Val, k, v string) {
		r = append(r, varProg{name: name, par: true, body: body, want: func(b *ve) map[string]string {
			if v == "A" {
				return map[string]string{k: b.val(v)}
			}
			return map[string]string{k: "param:" + v}
		}})
	}
	par("func(p, q) return p", func(b *ve) []*Val { return []*Val{b.ret("p")} }, "", "p")
	par("func(p, q) return q", func(b *ve) []*Val { return []*Val{b.ret("q")} }, "", "q")
	par("func(p, q) p = A; return p", func(b *ve) []*Val { return []*Val{b.set("p", b.v("A")), b.ret("p")} }, "A", "A")
	par("func(p, q) p = A; return q", func(b *ve) []*Val { return []*Val{b.set("p", b.v("A")), b.ret("q")} }, "A", "q")
	par("func(p, q) p = q; q = A; return p", func(b *ve) []*Val {
		return []*Val{b.set("p", b.use("q")), b.set("q", b.v("A")), b.ret("p")}
	}, "A", "q")
	par("func(p, q) { p := A } return p", func(b *ve) []*Val { return []*Val{b.stm(b.decl("p", b.v("A"))), b.ret("p")} }, "A", "p")
	par("func(p, q) p := A; return p", func(b *ve) []*Val { return []*Val{b.decl("p", b.v("A")), b.ret("p")} }, "A", "A")
	// several at once
	for _, want := range []struct{ x, y string }{{"x", "B"}, {"y", "A"}} {
		want := want
		add("x := A; y := B; x, y = y, x; return "+want.x, func(b *ve) []*Val {
			ts := []*CT{b.t, b.t}
			return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")),
				b.s.assign(b.id("set"), b.s.comma(b.id("comma"), true, ts, b.use("x"), b.use("y")), b.s.comma(b.id("comma"), false, ts, b.use("y"), b.use("x"))), b.ret(want.x)}
		}, one("A B", want.y))
	}
	for i, x := range []string{"x", "y", "z"} {
		x, v := x, []string{"A", "B", "C"}[i]
		add("x, y, z := A, B, C; return "+x, func(b *ve) []*Val {
			ts := []*CT{b.t, b.t, b.t}
			return []*Val{b.s.multiDecl(b.id("decl"), []string{"x", "y", "z"}, ts, b.s.comma(b.id("comma"), false, ts, b.v("A"), b.v("B"), b.v("C"))), b.ret(x)}
		}, one("A B C", v))
	}
	add("x := A; y, z := x, B; x = C; return y", func(b *ve) []*Val {
		ts := []*CT{b.t, b.t}
		return []*Val{b.decl("x", b.v("A")), b.s.multiDecl(b.id("decl"), []string{"y", "z"}, ts, b.s.comma(b.id("comma"), false, ts, b.use("x"), b.v("B"))), b.set("x", b.v("C")), b.ret("y")}
	}, one("A B C", "A"))
	// pointers to variables
	pt := func(b *ve) *CT { return b.s.in.ptrTo(b.s.st, b.t) }
	addr := func(b *ve, x string) *Val { return b.s.pre(b.id("pre"), "BinaryAND", pt(b), b.use(x)) }
	deref := func(b *ve, p string) *Val { return b.s.pre(b.id("pre"), "Multiply", b.t, b.s.use(p, pt(b))) }
	add("x := A; p := &x; x = B; return *p", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.s.decl(b.id("decl"), "p", pt(b), addr(b, "x"), false), b.set("x", b.v("B")), b.s.retStmt(b.id("ret"), deref(b, "p"), b.t)}
	}, one("A B", "B"))
	add("x := A; p := &x; *p = B; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.s.decl(b.id("decl"), "p", pt(b), addr(b, "x"), false), b.s.assign(b.id("set"), deref(b, "p"), b.v("B")), b.ret("x")}
	}, one("A B", "B"))
	add("x := A; y := B; p := &x; p = &y; *p = C; return x", func(b *ve) []*Val {
		return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")), b.s.decl(b.id("decl"), "p", pt(b), addr(b, "x"), false), b.s.assign(b.id("set"), b.s.use("p", pt(b)), addr(b, "y")), b.s.assign(b.id("set"), deref(b, "p"), b.v("C")), b.ret("x")}
	}, one("A B C", "A"))
	return r
}

// lastEntry is the entry block of the function with the given name.
func (s *Scen) entryOf(st *State, name string) (*Obj, string) {
	var f *Val
	for _, e := range st.events() {
		if e.Op == "newfunc" && len(e.Args) > 0 && st.norm(e.Args[0]).Key() == vStr(name).Key() {
			f = e.Res
		}
	}
	if f == nil {
		return nil, "the function " + name + " is not generated"
	}
	m := s.members(st, st.norm(f))
	if len(m) == 0 {
		return nil, "the function " + name + " has no block"
	}
	return m[0], ""
}

// returned lists, for every complete route through a function, the value it returns there.
func (s *Scen) returned(o Outcome, start *Obj, max int) (map[string]string, string) {
	tr, bad := s.traces(o, start, max)
	if bad != "" {
		return nil, bad
	}
	r := map[string]string{}
	for k, w := range tr {
		i := strings.Index(" "+k, " ret")
		if w.end == "…" || i < 0 {
			if w.end != "…" {
				r[k] = "(" + w.end + ")"
			}
			continue
		}
		v := "nothing"
		if w.retV != nil {
			v = reRound.ReplaceAllString(s.valueOn(o.St, w, len(w.steps), w.retV, 0), "")
		}
		r[strings.TrimSpace(k[:max0(i-1)])] = v
	}
	return r, ""
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

func (r *Report) varProgram(w *World, a *Anchors, t vt, m Mode, p varProg) {
	s := NewScen(w, a)
	s.clearTargets()
	s.withVars()
	s.global()
	s.emptyMap("globalVariables")
	b := &ve{s: s, t: t.mk(s), m: m}
	var pn []string
	var pts []*CT
	if p.par {
		pn, pts = []string{"p", "q"}, []*CT{b.t, b.t}
	}
	fn := s.fn("fn", "foo", false, b.t, pn, pts, p.body(b)...)
	want := p.want(b)
	r.outcomes(s, s.run(a.compileStmt, fn), "variables", p.name+" ("+t.name+", "+modeName(m)+")", func(o Outcome) (bool, string) {
		e, bad := s.entryOf(o.St, "foo")
		if bad != "" {
			return false, bad
		}
		if ok, d := s.hygiene(o); !ok {
			return false, d
		}
		got, bad := s.returned(o, e, 9)
		if bad != "" {
			return false, bad
		}
		return sameReturns(want, got)
	})
}

func sameReturns(want, got map[string]string) (bool, string) {
	n := 0
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			continue
		}
		n++
		if g != v {
			return false, fmt.Sprintf("on the route \"%s\" the function returns %s instead of %s", k, g, v)
		}
	}
	if n == 0 {
		return false, fmt.Sprintf("no route behaves like the program; the routes are %v", got)
	}
	return true, ""
}

// globalOf finds the global variable a rendered value is the content of, and its initial value.
func (s *Scen) globalOf(st *State, v string) (string, *Val) {
	if !strings.HasPrefix(v, "content of global:") {
		return "", nil
	}
	id := strings.TrimPrefix(v, "content of global:")
	for _, e := range st.events() {
		if e.Op == "newglobal" && e.Res != nil && st.norm(e.Res).inner().O.ID == id && len(e.Args) > 1 {
			return id, e.Args[1]
		}
	}
	return id, nil
}

// inits renders the initial value of memory: numbers as they are, addresses of text as the text.
func (s *Scen) initText(st *State, v *Val) string {
	v = st.norm(v)
	d := s.in.def(st, v)
	if d == nil {
		return reRound.ReplaceAllString(s.term(st, v), "")
	}
	switch d.S {
	case "const.BitCast":
		return s.initText(st, d.A[0])
	case "const.GetElementPtr":
		for _, i := range d.A[2:] {
			if s.term(st, i) != "0" {
				return "an address inside " + s.initText(st, d.A[1])
			}
		}
		return s.initText(st, d.A[1])
	case "global":
		return "address of " + s.initText(st, d.A[1])
	case "const.CharArrayFromString":
		t, ok := st.norm(d.A[0]).strConst()
		if ok {
			return fmt.Sprintf("%q", t)
		}
	}
	return reRound.ReplaceAllString(s.term(st, v), "")
}

func (b *ve) constant(x string, e *Val) *Val { return b.s.decl(b.id("const"), x, b.t, e, true) }
func (b *ve) text(t string) *Val {
	n := b.s.node(b.id("text"), "StringLiteral")
	b.s.in.setField(b.s.st, n, "Value", vStr(t))
	b.s.setType(n, b.t)
	return b.s.through(n)
}
func (b *ve) fn(name string, pn []string, body ...*Val) *Val {
	var pts []*CT
	for range pn {
		pts = append(pts, b.t)
	}
	return b.s.through(b.s.fn(b.id("fn"), name, false, b.t, pn, pts, body...))
}

// A globProg is a list of top-level declarations; want says what each function returns: "@g" is the content of global g,
// initially as inits says.
type globProg struct {
	name  string
	items []func(b *ve) *Val
	want  map[string]string // function -> value
	inits map[string]string // global -> initial value
}

func globProgs() []globProg {
	g := func(x, e string) func(b *ve) *Val { return func(b *ve) *Val { return b.decl(x, b.init(e)) } }
	c := func(x, e string) func(b *ve) *Val { return func(b *ve) *Val { return b.constant(x, b.init(e)) } }
	f := func(name string, body func(b *ve) []*Val, pn ...string) func(b *ve) *Val {
		return func(b *ve) *Val { return b.fn(name, pn, body(b)...) }
	}
	ret := func(x string) func(b *ve) []*Val { return func(b *ve) []*Val { return []*Val{b.ret(x)} } }
	type items = []func(b *ve) *Val
	type m = map[string]string
	addr := func(b *ve, x string) (*CT, *Val) {
		pt := b.s.in.ptrTo(b.s.st, b.t)
		return pt, b.s.pre(b.id("pre"), "BinaryAND", pt, b.use(x))
	}
	return []globProg{
		{"g := A; func f { return g }", items{g("g", "A"), f("f", ret("g"))}, m{"f": "@g"}, m{"g": "A"}},
		{"g := A; func f { return g }; func h { return g }", items{g("g", "A"), f("f", ret("g")), f("h", ret("g"))}, m{"f": "@g", "h": "@g"}, m{"g": "A"}},
		{"g := A; h := B; func f { return h }; func k { return g }", items{g("g", "A"), g("h", "B"), f("f", ret("h")), f("k", ret("g"))}, m{"f": "@h", "k": "@g"}, m{"g": "A", "h": "B"}},
		{"g := A; func f { g = C; return g }; func h { return g }", items{g("g", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.set("g", b.v("C")), b.ret("g")}
		}), f("h", ret("g"))}, m{"f": "C", "h": "@g"}, m{"g": "A"}},
		{"g := A; h := B; func f { g = C; return h }", items{g("g", "A"), g("h", "B"), f("f", func(b *ve) []*Val {
			return []*Val{b.set("g", b.v("C")), b.ret("h")}
		})}, m{"f": "@h"}, m{"h": "B"}},
		{"g := A; func f { g := C; return g }; func h { return g }", items{g("g", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.decl("g", b.v("C")), b.ret("g")}
		}), f("h", ret("g"))}, m{"f": "C", "h": "@g"}, m{"g": "A"}},
		{"g := A; func f { { g := C } return g }", items{g("g", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.stm(b.decl("g", b.v("C"))), b.ret("g")}
		})}, m{"f": "@g"}, m{"g": "A"}},
		{"g := A; func f { x := g; g = C; return x }", items{g("g", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.use("g")), b.set("g", b.v("C")), b.ret("x")}
		})}, m{"f": "@g"}, m{"g": "A"}},
		{"g := A; func f { x := g; x = C; return g }", items{g("g", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.use("g")), b.set("x", b.v("C")), b.ret("g")}
		})}, m{"f": "@g"}, m{"g": "A"}},
		{"g := A; func f(g) { return g }; func h { return g }", items{g("g", "A"), f("f", ret("g"), "g"), f("h", ret("g"))}, m{"f": "param:g", "h": "@g"}, m{"g": "A"}},
		{"g := A; func f { p := &g; *p = C; return g }", items{g("g", "A"), f("f", func(b *ve) []*Val {
			pt, e := addr(b, "g")
			return []*Val{b.s.decl(b.id("decl"), "p", pt, e, false), b.s.assign(b.id("set"), b.s.pre(b.id("pre"), "Multiply", b.t, b.s.use("p", pt)), b.v("C")), b.ret("g")}
		})}, m{"f": "C"}, nil},
		{"func f { x := C; return x }; x := A; func h { return x }", items{f("f", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("C")), b.ret("x")}
		}), g("x", "A"), f("h", ret("x"))}, m{"f": "C", "h": "@x"}, m{"x": "A"}},
		{"const k = A; func f { return k }; func h { return k }", items{c("k", "A"), f("f", ret("k")), f("h", ret("k"))}, m{"f": "=A", "h": "=A"}, nil},
		{"const k = A; func f { k := C; return k }; func h { return k }", items{c("k", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.decl("k", b.v("C")), b.ret("k")}
		}), f("h", ret("k"))}, m{"f": "C", "h": "=A"}, nil},
		{"const k = A; g := k; func f { return g }; func h { return k }", items{c("k", "A"), func(b *ve) *Val { return b.decl("g", b.use("k")) }, f("f", ret("g")), f("h", ret("k"))}, m{"f": "@g", "h": "=A"}, m{"g": "A"}},
		{"const k = A; const l = k; func f { return l }", items{c("k", "A"), func(b *ve) *Val { return b.constant("l", b.use("k")) }, f("f", ret("l"))}, m{"f": "=A"}, nil},
		{"const k = A; func f { k2 := k; k2 = C; return k }", items{c("k", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.decl("x", b.use("k")), b.set("x", b.v("C")), b.ret("k")}
		})}, m{"f": "=A"}, nil},
		{"func f { const k = A; return k }", items{f("f", func(b *ve) []*Val {
			return []*Val{b.constant("k", b.init("A")), b.ret("k")}
		})}, m{"f": "=A"}, nil},
		{"func f { const k = A; { const k = B; x := k } return k }", items{f("f", func(b *ve) []*Val {
			return []*Val{b.constant("k", b.init("A")), b.stm(b.constant("k", b.init("B")), b.decl("x", b.use("k"))), b.ret("k")}
		})}, m{"f": "=A"}, nil},
		{"func f { const k = A; { x := k } x := k; return x }", items{f("f", func(b *ve) []*Val {
			return []*Val{b.constant("k", b.init("A")), b.stm(b.decl("x", b.use("k"))), b.decl("x", b.use("k")), b.ret("x")}
		})}, m{"f": "=A"}, nil},
		{"const k = A; func f { const k = B; return k }; func h { return k }", items{c("k", "A"), f("f", func(b *ve) []*Val {
			return []*Val{b.constant("k", b.init("B")), b.ret("k")}
		}), f("h", ret("k"))}, m{"f": "=B", "h": "=A"}, nil},
		{"func f { const k = A; const l = k; return l }", items{f("f", func(b *ve) []*Val {
			return []*Val{b.constant("k", b.init("A")), b.constant("l", b.use("k")), b.ret("l")}
		})}, m{"f": "=A"}, nil},
	}
}

// init is the initial value of a global: a constant expression or, for strings, a literal.
func (b *ve) init(n string) *Val {
	if b.strs {
		return b.text("text " + n)
	}
	return b.s.addChild(n, b.t, RV)
}

func (b *ve) initVal(n string) string {
	if b.strs {
		return fmt.Sprintf("address of %q", "text "+n+"\x00")
	}
	return n
}

func (r *Report) globProgram(w *World, a *Anchors, rule string, t vt, m Mode, p globProg) {
	s := NewScen(w, a)
	s.clearTargets()
	s.withVars()
	s.global()
	s.emptyMap("globalVariables")
	b := &ve{s: s, t: t.mk(s), m: m, strs: t.name == "*i8"}
	outs := s.run(a.compileStmt, p.items[0](b))
	for i, it := range p.items[1:] {
		it := it
		outs = s.then(outs, a.compileStmt, fmt.Sprintf("item%d", i), func(st *State) *Val { return it(b) })
	}
	r.outcomes(s, outs, rule, p.name+" ("+t.name+", "+modeName(m)+")", func(o Outcome) (bool, string) {
		if ok, d := s.hygiene(o); !ok {
			return false, d
		}
		where := map[string]string{}
		for _, f := range sortedK(p.want) {
			want := p.want[f]
			e, bad := s.entryOf(o.St, f)
			if bad != "" {
				return false, bad
			}
			got, bad := s.returned(o, e, 9)
			if bad != "" {
				return false, bad
			}
			if len(got) != 1 {
				return false, fmt.Sprintf("%s has %d routes", f, len(got))
			}
			for _, g := range got {
				switch {
				case want[0] == '@':
					id, init := s.globalOf(o.St, g)
					if id == "" {
						return false, fmt.Sprintf("%s returns %s instead of the content of the global %s", f, g, want[1:])
					}
					if init == nil {
						return false, fmt.Sprintf("the global %s has no initial value", want[1:])
					}
					if x := s.initText(o.St, init); x != b.initVal(p.inits[want[1:]]) {
						return false, fmt.Sprintf("the global %s starts as %s instead of %s", want[1:], x, b.initVal(p.inits[want[1:]]))
					}
					for k, v := range where {
						if (k == want[1:]) != (v == id) {
							return false, fmt.Sprintf("%s: the globals %s and %s are mixed up or kept twice", f, k, want[1:])
						}
					}
					where[want[1:]] = id
				case want[0] == '=':
					id, init := s.globalOf(o.St, g)
					if id != "" && init != nil { // a constant may be kept in memory nothing else writes to
						for _, e := range o.St.events() {
							if e.Op == "ir:Store" {
								if q := o.St.norm(e.Args[1]).inner(); q.K == KPtr && q.O.ID == id {
									return false, "a constant is written to"
								}
							}
						}
						g = s.initText(o.St, init)
					}
					if g != b.initVal(want[1:]) {
						return false, fmt.Sprintf("%s returns %s instead of the constant %s", f, g, b.initVal(want[1:]))
					}
				case strings.HasPrefix(want, "param:"):
					if g != want {
						return false, fmt.Sprintf("%s returns %s instead of its parameter", f, g)
					}
				default:
					if g != b.val(want) {
						return false, fmt.Sprintf("%s returns %s instead of %s", f, g, b.val(want))
					}
				}
			}
		}
		return true, ""
	})
}

func sortedK(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// lam is a function expression, used as a statement, that captures the given variables.
func (b *ve) lam(captured []string, body ...*Val) *Val {
	b.s.captured = captured
	f := b.s.through(b.s.fn(b.id("lam"), "", true, b.t, nil, nil, body...))
	b.s.captured = nil
	return b.s.exprStmt(b.id("es"), f)
}

// What the n-th function (0 is the outermost) returns: a value, or "@" and the variable of the function around it (by number)
// whose captured value it returns: the value that variable has at the creation.
type capWant struct {
	ret     string
	creator int
	at      string // value captured ("@": the creator's own captured value)
}

type capProg struct {
	name string
	par  bool
	body func(b *ve) []*Val
	want []capWant
}

func capProgs() []capProg {
	x := []string{"x"}
	return []capProg{
		{"x := A; func { return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(x, b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "A"}, {ret: "@", at: "A"}}},
		{"x := A; func { return x }; x = B; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(x, b.ret("x")), b.set("x", b.v("B")), b.ret("x")}
		}, []capWant{{ret: "B"}, {ret: "@", at: "A"}}},
		{"x := A; x = B; func { return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.set("x", b.v("B")), b.lam(x, b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "B"}, {ret: "@", at: "B"}}},
		{"x := A; func { x = C; return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(x, b.set("x", b.v("C")), b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "A"}, {ret: "C"}}},
		{"x := A; func { { x := C } return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(x, b.stm(b.decl("x", b.v("C"))), b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "A"}, {ret: "@", at: "A"}}},
		{"x := A; y := B; func { return x }; return y", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")), b.lam([]string{"x", "y"}, b.ret("x")), b.ret("y")}
		}, []capWant{{ret: "B"}, {ret: "@", at: "A"}}},
		{"x := A; y := B; func { return y }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.decl("y", b.v("B")), b.lam([]string{"x", "y"}, b.ret("y")), b.ret("x")}
		}, []capWant{{ret: "A"}, {ret: "@", at: "B"}}},
		{"func(p, q) func { return p }; return q", true, func(b *ve) []*Val {
			return []*Val{b.lam([]string{"p"}, b.ret("p")), b.ret("q")}
		}, []capWant{{ret: "param:q"}, {ret: "@", at: "param:p"}}},
		{"func(p, q) func { return q }; q = A; return q", true, func(b *ve) []*Val {
			return []*Val{b.lam([]string{"q"}, b.ret("q")), b.set("q", b.v("A")), b.ret("q")}
		}, []capWant{{ret: "A"}, {ret: "@", at: "param:q"}}},
		{"x := A; func { return x }; x = B; func { return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(x, b.ret("x")), b.set("x", b.v("B")), b.lam(x, b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "B"}, {ret: "@", at: "A"}, {ret: "@", at: "B"}}},
		{"x := A; func { func { return x }; return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(x, b.lam(x, b.ret("x")), b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "A"}, {ret: "@", at: "A"}, {ret: "@", creator: 1, at: "@"}}},
		{"x := A; func { x := C; func { return x }; return x }; return x", false, func(b *ve) []*Val {
			return []*Val{b.decl("x", b.v("A")), b.lam(nil, b.decl("x", b.v("C")), b.lam(x, b.ret("x")), b.ret("x")), b.ret("x")}
		}, []capWant{{ret: "A"}, {ret: "C"}, {ret: "@", creator: 1, at: "C"}}},
		{"{ x := A; func { return x } } x := B; return x", false, func(b *ve) []*Val {
			return []*Val{b.stm(b.decl("x", b.v("A")), b.lam(x, b.ret("x"))), b.decl("x", b.v("B")), b.ret("x")}
		}, []capWant{{ret: "B"}, {ret: "@", at: "A"}}},
	}
}

// heldAt is what a place holds after a route.
func (s *Scen) heldAt(st *State, w *Walk, p string) string {
	for i := len(w.steps) - 1; i >= 0; i-- {
		e := w.steps[i].ev
		if e != nil && e.Op == "ir:Store" && s.place(st, w, i, e.Args[1], 0) == p {
			return reRound.ReplaceAllString(s.valueOn(st, w, i, e.Args[0], 0), "")
		}
	}
	return "nothing"
}

func (r *Report) capProgram(w *World, a *Anchors, t vt, m Mode, p capProg) {
	s := NewScen(w, a)
	s.clearTargets()
	s.withVars()
	s.global()
	s.emptyMap("globalVariables")
	b := &ve{s: s, t: t.mk(s), m: m}
	var pn []string
	var pts []*CT
	if p.par {
		pn, pts = []string{"p", "q"}, []*CT{b.t, b.t}
	}
	fn := s.fn("fn", "foo", false, b.t, pn, pts, p.body(b)...)
	name := func(v string) string {
		if strings.HasPrefix(v, "param:") {
			return v
		}
		return b.val(v)
	}
	static := token.NoPos
	r.outcomes(s, s.run(a.compileStmt, fn), "captures", p.name+" ("+t.name+", "+modeName(m)+")", func(o Outcome) (bool, string) {
		if ok, d := s.hygiene(o); !ok {
			return false, d
		}
		var walks []*Walk
		var rets []string
		for _, e := range o.St.events() {
			if e.Op != "newfunc" {
				continue
			}
			mem := s.members(o.St, o.St.norm(e.Res))
			if len(mem) == 0 {
				return false, "a function has no block"
			}
			tr, bad := s.traces(o, mem[0], 9)
			if bad != "" {
				return false, bad
			}
			if len(tr) != 1 {
				return false, fmt.Sprintf("a function has %d routes", len(tr))
			}
			for _, wk := range tr {
				v := "nothing"
				if wk.retV != nil {
					v = reRound.ReplaceAllString(s.valueOn(o.St, wk, len(wk.steps), wk.retV, 0), "")
				}
				walks, rets = append(walks, wk), append(rets, v)
			}
		}
		if len(rets) != len(p.want) {
			return false, fmt.Sprintf("%d functions are generated instead of %d", len(rets), len(p.want))
		}
		cells := map[string]bool{}
		for i, c := range p.want {
			if c.ret != "@" {
				if rets[i] != name(c.ret) {
					return false, fmt.Sprintf("function %d returns %s instead of %s", i, rets[i], name(c.ret))
				}
				continue
			}
			cell := strings.TrimPrefix(rets[i], "content of ")
			if cell == rets[i] || strings.HasPrefix(cell, "slot:") {
				return false, fmt.Sprintf("function %d returns %s instead of the value it captured", i, rets[i])
			}
			if cells[cell] {
				return false, fmt.Sprintf("function %d shares its captured value with another function", i)
			}
			cells[cell] = true
			for _, e := range o.St.events() {
				if e.Op == "newglobal" && "global:"+o.St.norm(e.Res).inner().O.ID == cell {
					static = e.Pos
				}
			}
			want := c.at
			if want == "@" {
				want = rets[c.creator]
			} else {
				want = name(want)
			}
			if g := s.heldAt(o.St, walks[c.creator], cell); g != want {
				return false, fmt.Sprintf("function %d captures %s instead of %s", i, g, want)
			}
		}
		return true, ""
	})
	if t.name == "i32" && m == LV && strings.HasPrefix(p.name, "x := A; func { return x }; return") {
		r.Ob(!static.IsValid(), "captured-storage", "closures created by the same expression", static, "the values a function expression captures are kept in global variables of the module, one set per expression: a later evaluation of the expression (in a loop, or in another call of the function around it) changes what the earlier closure sees")
	}
}

func init() {
	register(&Prop{id: "C13",
		explanation: "Small programs over variables (every type and form of value; scopes, loops, block expressions, function expressions, parameters, pointers, simultaneous assignment) are generated by abstract interpretation; on every route of the generated function the loads are resolved against the stores that precede them and the value returned is compared with the one the program means.",
		rules:       []string{"a variable holds the value it was last given", "a variable has storage of its own", "a declaration in an inner scope hides the outer variable only there", "parameters hold the arguments, in order", "a simultaneous assignment reads all values before it stores one", "a pointer to a variable denotes that variable"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, t := range varTypes() {
				for _, m := range t.modes {
					for _, p := range varProgs() {
						r.varProgram(w, a, t, m, p)
					}
				}
			}
		}})
	register(&Prop{id: "C43",
		explanation: "Small programs with global variables and constants and the functions that use them are generated by abstract interpretation; the value each function returns is resolved to the content of a global (whose initial value and identity are compared), a constant or a local.",
		rules:       []string{"a global starts as its initialiser", "all functions share one global", "a local of the same name hides it only in its scope", "a constant is its initialiser everywhere, and outlives the function that declares it"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			ts := append(varTypes()[:2:2], vt{"i1", func(s *Scen) *CT { return s.shared("I1") }, []Mode{LV, RV, RVF}}, vt{"*i8", func(s *Scen) *CT { return s.in.ptrTo(s.st, s.shared("I8")) }, []Mode{LV, RVF}})
			for _, t := range ts {
				for _, m := range t.modes {
					for _, p := range globProgs() {
						r.globProgram(w, a, "globals", t, m, p)
					}
				}
			}
		}})
	register(&Prop{id: "C40",
		explanation: "Function expressions that capture variables, alone, side by side and nested, are generated by abstract interpretation; the value each function returns is resolved to the memory it is captured in and that memory's content to the variable's value when the function expression is evaluated.",
		rules:       []string{"a captured variable has the value it had when the function expression was evaluated", "assignments inside do not reach the variable outside, nor the reverse", "captures pass through enclosing function expressions", "every closure has captured values of its own"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, t := range varTypes() {
				for _, m := range t.modes {
					for _, p := range capProgs() {
						r.capProgram(w, a, t, m, p)
					}
				}
			}
		}})
}
