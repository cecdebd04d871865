package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- building statements -------------------------------------------------------------------------------------

func (s *Scen) block(id string, stmts ...*Val) *Val {
	b := s.node(id, "Block")
	s.in.setField(s.st, b, "Statements", s.in.list(s.st, id+".Statements", s.in.w.typ("internals/ast", "Statement"), stmts...))
	return b
}

// leaf is a statement left abstract; kind "" falls through, "term" leaves the block for good.
func (s *Scen) leaf(name, kind string) *Val {
	if s.stmtTerm == nil {
		s.stmtTerm = map[string]string{}
	}
	s.stmtTerm[name] = kind
	return s.stmt(name)
}

func (s *Scen) ifStmt(id string, cond, then *Val, elseIfs [][2]*Val, els *Val) *Val {
	b := s.node(id, "IfStatement")
	s.in.setField(s.st, b, "Condition", cond)
	s.in.setField(s.st, b, "Block", then)
	ct := s.in.w.typ("internals/ast", "ConditionPlusBlock")
	var l []*Val
	for i, e := range elseIfs {
		c := s.in.newObj(s.st, fmt.Sprintf("%s.elif%d", id, i), ct)
		s.in.setField(s.st, c, "Condition", e[0])
		s.in.setField(s.st, c, "Block", e[1])
		l = append(l, c)
	}
	s.in.setField(s.st, b, "ElseIfs", s.in.list(s.st, id+".ElseIfs", types.NewPointer(ct), l...))
	if els != nil {
		s.in.setField(s.st, b, "Else", els)
	} else {
		s.in.setField(s.st, b, "Else", vNilT(s.in.fieldType2("internals/ast", "IfStatement", "Else")))
	}
	return s.through(b)
}

func (s *Scen) forStmt(id string, init, cond, op, body *Val) *Val {
	b := s.node(id, "ForStatement")
	if init != nil {
		s.in.setField(s.st, b, "InitializerStatement", init)
	} else {
		s.in.setField(s.st, b, "InitializerStatement", vNilT(s.in.fieldType2("internals/ast", "ForStatement", "InitializerStatement")))
	}
	s.in.setField(s.st, b, "Condition", cond)
	if op != nil {
		s.in.setField(s.st, b, "Operation", op)
	} else {
		s.in.setField(s.st, b, "Operation", vNilT(s.in.fieldType2("internals/ast", "ForStatement", "Operation")))
	}
	s.in.setField(s.st, b, "Block", body)
	return s.through(b)
}

func (s *Scen) switchStmt(id string, cond *Val, cases [][2]*Val, def *Val) *Val {
	b := s.node(id, "SwitchStatement")
	s.in.setField(s.st, b, "Condition", cond)
	ft := s.in.fieldType2("internals/ast", "SwitchStatement", "Cases").Underlying().(*types.Slice).Elem()
	ct := ft
	if p, ok := ft.Underlying().(*types.Pointer); ok {
		ct = p.Elem()
	}
	var l []*Val
	for i, e := range cases {
		c := s.in.newObj(s.st, fmt.Sprintf("%s.case%d", id, i), ct)
		s.in.setField(s.st, c, "Case", e[0])
		s.in.setField(s.st, c, "Block", e[1])
		if ct == ft {
			l = append(l, s.st.content(c.O))
		} else {
			l = append(l, c)
		}
	}
	s.in.setField(s.st, b, "Cases", s.in.list(s.st, id+".Cases", ft, l...))
	if def != nil {
		s.in.setField(s.st, b, "Default", def)
	} else {
		s.in.setField(s.st, b, "Default", vNilT(s.in.fieldType2("internals/ast", "SwitchStatement", "Default")))
	}
	return s.through(b)
}

func (s *Scen) simple(id, typ string) *Val { return s.through(s.node(id, typ)) }

func (s *Scen) retStmt(id string, e *Val, t *CT) *Val {
	b := s.node(id, "ReturnStatement")
	if e != nil {
		s.in.setField(s.st, b, "Expression", e)
	} else {
		s.in.setField(s.st, b, "Expression", vNilT(s.in.w.typ("internals/ast", "Expression")))
	}
	if t != nil {
		s.in.setField(s.st, b, "Type", t.ct)
	}
	return s.through(b)
}

func (s *Scen) exprStmt(id string, e *Val) *Val {
	b := s.node(id, "ExpressionStatement")
	s.in.setField(s.st, b, "Expression", e)
	return s.through(b)
}

func (s *Scen) exprBlock(id string, t *CT, stmts ...*Val) *Val {
	b := s.node(id, "ExpressionBlock")
	s.in.setField(s.st, b, "Block", s.block(id+".Block", stmts...))
	s.setType(b, t)
	return s.through(b)
}

// fn builds a function declaration; anonymous selects a function expression.
func (s *Scen) fn(id, name string, anonymous bool, ret *CT, pnames []string, params []*CT, stmts ...*Val) *Val {
	kind := "FunctionDeclarationStatement"
	if anonymous {
		kind = "AnonymousFunction"
	}
	b := s.node(id, kind)
	t := s.in.w.typ("internals/ctypes", "Function")
	p := s.in.newObj(s.st, id+".type", t)
	s.st.heap[p.O] = zeroVal(t)
	var ns, ts []*Val
	for i := range params {
		ns = append(ns, vStr(pnames[i]))
		ts = append(ts, params[i].ct)
	}
	s.in.setField(s.st, p, "Name", vStr(name))
	s.in.setField(s.st, p, "ExternalName", vStr(name))
	s.in.setField(s.st, p, "Names", s.in.list(s.st, id+".names", types.Typ[types.String], ns...))
	s.in.setField(s.st, p, "Parameters", s.in.list(s.st, id+".params", s.in.w.typ("internals/ctypes", "Type"), ts...))
	if ret != nil {
		s.in.setField(s.st, p, "Return", ret.ct)
	} else {
		s.in.setField(s.st, p, "Return", s.voidCT().ct)
	}
	s.in.setField(s.st, b, "FunctionType", p)
	s.in.setField(s.st, b, "Block", s.block(id+".Block", stmts...))
	if anonymous {
		var cs []*Val
		for _, c := range s.captured {
			cs = append(cs, vStr(c))
		}
		s.in.setField(s.st, b, "CapturedVariables", s.in.list(s.st, id+".captured", types.Typ[types.String], cs...))
	}
	return s.through(b)
}

func (s *Scen) voidCT() *CT {
	v := s.in.ctGlobal("VoidType")
	return &CT{name: "void", ct: v, ll: s.in.lltGlobal("Void")}
}

func vNilT(t types.Type) *Val { return &Val{K: KNil, T: t} }

func (in *Interp) fieldType2(pkg, typ, field string) types.Type {
	st, _ := in.w.typ(pkg, typ).Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	return nil
}

// global leaves the compiler outside of any function.
func (s *Scen) global() {
	ft := s.in.fieldType2("internals/compiler", "Compiler", "currentFunction")
	s.in.setField(s.st, s.c, "currentFunction", vNilT(ft))
	lt := s.in.fieldType2("internals/compiler", "Compiler", "blocks")
	s.in.setField(s.st, s.c, "blocks", s.in.list(s.st, "c.blocks0", lt.Underlying().(*types.Slice).Elem()))
}

// emptyMap gives the compiler a known, empty map field.
func (s *Scen) emptyMap(field string) {
	if t := s.in.fieldType2("internals/compiler", "Compiler", field); t != nil {
		s.in.setField(s.st, s.c, field, s.in.newMap(s.st, "c."+field, t))
	}
}

// clearTargets: no loop and no block expression is open.
func (s *Scen) clearTargets() {
	t := elemOf(s.a.compT).Underlying().(*types.Struct)
	bp := types.NewPointer(s.in.w.typ(llir, "Block"))
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		if types.Identical(f.Type(), bp) || types.Identical(f.Type(), s.in.w.typ(llir+"/value", "Value")) {
			s.in.setField(s.st, s.c, f.Name(), vNilT(f.Type()))
		}
	}
}

// targets renders the compiler fields that steer break, continue and return.
func (s *Scen) targets(st *State) string {
	t := elemOf(s.a.compT).Underlying().(*types.Struct)
	bp := types.NewPointer(s.in.w.typ(llir, "Block"))
	var r []string
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		if types.Identical(f.Type(), bp) || types.Identical(f.Type(), s.in.w.typ(llir+"/value", "Value")) || types.Identical(f.Type(), types.NewPointer(s.in.w.typ(llir, "Func"))) {
			v := s.in.field(st, s.c, f.Name())
			r = append(r, f.Name()+"="+st.norm(v).Key())
		}
	}
	return strings.Join(r, " ")
}

func flowProgram(w *World, a *Anchors, r *Report, wr spWrap, p spProg) {
	s := NewScen(w, a)
	want, outs, start := wr.run(s, append(append([]*Sp{}, p.body...), leaf()))
	r.outcomes(s, outs, "routes", p.name+" "+wr.name, func(o Outcome) (bool, string) {
		b, bad := start(o)
		if bad != "" {
			return false, bad
		}
		return sameTraces(s, o, b, want)
	})
}

func init() {
	register(&Prop{id: "C07",
		explanation: "The control-flow graph the generator builds for every statement and for block expressions is extracted by abstract interpretation (sub-statements and conditions abstract, free to move to other blocks, falling through or leaving), and all its routes, with loops taken up to twice, are compared with the routes the statement means.",
		rules:       []string{"if: conditions are tested in order, exactly the part of the first true one runs", "for: initialiser once, condition before every pass, update after every pass and on continue", "break and continue act on the innermost loop of the same function", "switch: exactly the matching case or the default runs", "return in a block expression ends the block expression with its value; elsewhere it returns from the function"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, w1 := range spWraps() {
				for _, p := range level1(false, r.thorough) {
					flowProgram(w, a, r, w1, p)
				}
			}
			ws := spWraps()
			for i, p := range level2(r.thorough) {
				flowProgram(w, a, r, ws[i%len(ws)], p)
			}
			for i, p := range afterInner() {
				flowProgram(w, a, r, ws[i%len(ws)], p)
			}
			// block expressions
			for _, m := range []Mode{LV, RV, RVF} {
				x, y := operand("X", m), operand("Y", m)
				type ebCase struct {
					name string
					mk   func(s *Scen) []*Val
					want []string
				}
				i32 := func(s *Scen) *CT { return s.shared("I32") }
				ret := func(s *Scen, id, n string) *Val { return s.retStmt(id, s.addChild(n, i32(s), m), i32(s)) }
				for _, c := range []ebCase{
					{"return of an inner block expression", func(s *Scen) []*Val {
						return []*Val{s.retStmt("r1", s.exprBlock("inner", i32(s), ret(s, "r2", "X")), i32(s))}
					}, []string{"X out =" + x}},
					{"return after an inner block expression", func(s *Scen) []*Val {
						return []*Val{s.exprStmt("es", s.exprBlock("inner", i32(s), ret(s, "r2", "X"))), ret(s, "r1", "Y")}
					}, []string{"X Y out =" + y}},
					{"block expression in a loop in a block expression", func(s *Scen) []*Val {
						return []*Val{s.forStmt("f", nil, s.addChild("C", s.shared("I1"), LV), nil, s.block("B1", s.exprStmt("es", s.exprBlock("inner", i32(s), ret(s, "r2", "X"))), s.simple("br", "BreakStatement"))), ret(s, "r1", "Y")}
					}, []string{"C [*C]T X Y out =" + y, "C [*C]F Y out =" + y}},
					{"loop in a block expression in a loop", func(s *Scen) []*Val {
						inner := s.exprBlock("inner", i32(s), s.forStmt("g", nil, s.addChild("D", s.shared("I1"), LV), nil, s.block("B2", s.simple("br2", "BreakStatement"))), ret(s, "r2", "X"))
						return []*Val{s.forStmt("f", nil, s.addChild("C", s.shared("I1"), LV), nil, s.block("B1", s.exprStmt("es", inner), s.simple("br", "BreakStatement"))), ret(s, "r1", "Y")}
					}, []string{"C [*C]T D [*D]T X Y out =" + y, "C [*C]T D [*D]F X Y out =" + y, "C [*C]F Y out =" + y}},
				} {
					s := NewScen(w, a)
					s.clearTargets()
					s.withVars()
					root := s.exprBlock("root", i32(s), c.mk(s)...)
					before := s.targets(s.st)
					want := map[string]bool{}
					for _, q := range c.want {
						want[q] = true
					}
					r.outcomes(s, s.run(a.compileExpr, root), "block-expression", c.name+" ("+modeName(m)+")", func(o Outcome) (bool, string) {
						if t := s.targets(o.St); t != before {
							return false, "the targets of break, continue or return are not restored: " + t + " instead of " + before
						}
						return sameTraces(s, o, s.b0.O, want)
					})
				}
			}
		}})
}
