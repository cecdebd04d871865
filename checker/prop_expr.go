package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// A form is one way to write an expression or statement, with operands that are left abstract. It says in which order its operands
// are evaluated and what the result means.
type form struct {
	name  string
	build func(s *Scen) *Val
	order []string // operands in evaluation order
	check func(s *Scen, o Outcome) (bool, string)
	stmt  bool
	// fresh: the construct may hand its own fresh storage over to a declaration
	fresh bool
	// lazy: the first operand may be read after the second was evaluated (the address computation of an index access)
	lazy bool
}

func (s *Scen) undo(st *State, id string, t types.Type) *Val {
	// t is *undomap.UndoMap[...]
	var ctor, found = "New", (*Val)(nil)
	for _, f := range s.in.w.allFuncs {
		if f.Name() == ctor || strings.HasPrefix(f.Name(), ctor+"[") {
			if f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), t) && len(f.Blocks) > 0 {
				if outs := s.in.Call(f, nil, nil, st, "undo:"+id, 0); len(outs) == 1 && outs[0].Kind == ORet {
					s.st = outs[0].St
					found = outs[0].Res
				}
			}
		}
	}
	return found
}

// withVars gives the compiler a real, empty table of local variables.
func (s *Scen) withVars() {
	t := elemOf(s.a.compT).Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if strings.Contains(t.Field(i).Type().String(), "undomap.UndoMap") {
			if m := s.undo(s.st, t.Field(i).Name(), t.Field(i).Type()); m != nil {
				s.in.setField(s.st, s.c, t.Field(i).Name(), m)
			}
		}
	}
}

func (s *Scen) funcOf(ret *CT, params ...*CT) *CT {
	in := s.in
	t := in.w.typ("internals/ctypes", "Function")
	p := in.newObj(s.st, "ct:func"+fmt.Sprint(len(params)), t)
	var cs, ls []*Val
	for _, x := range params {
		cs = append(cs, x.ct)
		ls = append(ls, x.ll)
	}
	in.setField(s.st, p, "Parameters", in.list(s.st, "fnparams", in.w.typ("internals/ctypes", "Type"), cs...))
	in.setField(s.st, p, "Return", ret.ct)
	sig := in.llFunc(s.st, "ll:func"+fmt.Sprint(len(params)), ret.ll, in.list(s.st, "llfnparams", in.w.typ(llir+"/types", "Type"), ls...))
	return &CT{name: "func", ct: vIface(types.NewPointer(t), p), ll: in.llPtr(s.st, sig)}
}

func (s *Scen) id(name string, t *CT) *Val {
	b := s.node("id:"+name, "Identifier")
	s.in.setField(s.st, b, "Name", vStr(name))
	if t != nil {
		s.setType(b, t)
	}
	return s.iface(b)
}

func (s *Scen) anon(name string) *CT {
	t := s.in.w.typ("internals/ctypes", "Anonymous")
	p := s.in.newObj(s.st, "ct:anon "+name, t)
	s.in.setField(s.st, p, "Name", vStr(name))
	return &CT{name: name, ct: vIface(types.NewPointer(t), p)}
}

func (s *Scen) exprs(id string, vs ...*Val) *Val {
	return s.in.list(s.st, id, s.in.w.typ("internals/ast", "Expression"), vs...)
}

// valueIs: the result of the expression, as its consumer reads it.
func valueIs(want ...string) func(s *Scen, o Outcome) (bool, string) {
	return func(s *Scen, o Outcome) (bool, string) { return oneOf(s.rv(o), want) }
}

// placeIs: the result is a place in memory (assignable), with this address.
func placeIs(want ...string) func(s *Scen, o Outcome) (bool, string) {
	return func(s *Scen, o Outcome) (bool, string) {
		if f, known := s.in.field(o.St, s.c, "doNotLoadIntoMemory").boolConst(); !known || f {
			return false, "the result is not handed out as a place in memory"
		}
		return oneOf(s.term(o.St, o.Res), want)
	}
}

type fieldKind struct {
	n string
	m func(s *Scen) *CT
}

func structP(s *Scen) *CT {
	return s.structT("Struct", "P", []string{"a", "b", "c"}, s.shared("I32"), s.shared("I64"), s.shared("I8"))
}

func unionU(s *Scen) *CT {
	return s.structT("Union", "U", []string{"a", "b"}, s.shared("I32"), s.shared("I64"))
}

func access(s *Scen, t *CT, m Mode, field string, ft *CT) *Val {
	b := s.node("root", "BinaryOperation")
	s.in.setField(s.st, b, "Left", s.addChild("L", t, m))
	s.in.setField(s.st, b, "Right", s.id(field, nil))
	s.in.setField(s.st, b, "Operation", s.op("Dot"))
	s.setType(b, ft)
	return b
}

func modeName(m Mode) string { return []string{"variable", "call result", "value", "literal"}[m] }

// placeForms: expressions that denote a part of memory.
func placeForms() []form {
	var r []form
	add := func(f form) { r = append(r, f) }
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	for i, fn := range []string{"a", "b", "c"} {
		i, fn := i, fn
		ft := func(s *Scen) *CT { return s.shared([]string{"I32", "I64", "I8"}[i]) }
		for _, via := range []string{"defined", "named"} {
			via := via
			ty := func(s *Scen) *CT {
				p := structP(s)
				if via == "named" {
					n := s.anon("P")
					n.ll = p.ll
					return n
				}
				return p
			}
			tag := "field " + fn + " of a " + via + " struct, "
			add(form{name: tag + "variable", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, ty(s), LV, fn, ft(s)) }, check: placeIs(fmt.Sprintf("gep(L,0,%d)", i))})
			add(form{name: tag + "literal", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, ty(s), SLIT, fn, ft(s)) }, check: placeIs(fmt.Sprintf("gep(L,0,%d)", i))})
			add(form{name: tag + "call result", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, ty(s), RVF, fn, ft(s)) }, check: placeIs(fmt.Sprintf("gep(slot(L),0,%d)", i))})
			add(form{name: tag + "pointer variable", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, s.in.ptrTo(s.st, ty(s)), LV, fn, ft(s)) }, check: placeIs(fmt.Sprintf("gep(*L,0,%d)", i))})
			add(form{name: tag + "pointer call result", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, s.in.ptrTo(s.st, ty(s)), RVF, fn, ft(s)) }, check: placeIs(fmt.Sprintf("gep(L,0,%d)", i))})
		}
	}
	for i, fn := range []string{"a", "b"} {
		i, fn := i, fn
		ft := func(s *Scen) *CT { return s.shared([]string{"I32", "I64"}[i]) }
		ll := []string{"i32*", "i64*"}[i]
		tag := "field " + fn + " of a union, "
		add(form{name: tag + "variable", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, unionU(s), LV, fn, ft(s)) }, check: placeIs("BitCast(L->" + ll + ")")})
		add(form{name: tag + "call result", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, unionU(s), RVF, fn, ft(s)) }, check: placeIs("BitCast(slot(L)->" + ll + ")")})
		add(form{name: tag + "pointer variable", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, s.in.ptrTo(s.st, unionU(s)), LV, fn, ft(s)) }, check: placeIs("BitCast(*L->" + ll + ")")})
		add(form{name: tag + "pointer call result", order: []string{"L"}, build: func(s *Scen) *Val { return access(s, s.in.ptrTo(s.st, unionU(s)), RVF, fn, ft(s)) }, check: placeIs("BitCast(L->" + ll + ")")})
	}
	for _, k := range numKinds() {
		k := k
		if k.kind == "F" || strings.Contains(k.name, "any width") {
			continue
		}
		for _, im := range []Mode{LV, RV, RVF} {
			im := im
			idx := func(s *Scen, t *CT, m Mode) *Val {
				b := s.node("root", "IndexAccess")
				s.in.setField(s.st, b, "Left", s.addChild("L", t, m))
				s.in.setField(s.st, b, "Access", s.addChild("I", k.mk(s), im))
				s.setType(b, s.shared("I32"))
				return b
			}
			offs := func(f string) []string {
				var w []string
				for _, x := range offsets(k, operand("I", im)) {
					w = append(w, fmt.Sprintf(f, x))
				}
				return w
			}
			tag := " indexed by a " + modeName(im) + " of type " + k.name
			o := []string{"L", "I"}
			add(form{name: "array variable" + tag, order: o, lazy: true, build: func(s *Scen) *Val { return idx(s, s.in.arrayOf(s.st, i32(s), 4), LV) }, check: placeIs(offs("gep(L,0,%s)")...)})
			add(form{name: "array literal" + tag, order: o, lazy: true, build: func(s *Scen) *Val { return idx(s, s.in.arrayOf(s.st, i32(s), 4), SLIT) }, check: placeIs(offs("gep(L,0,%s)")...)})
			add(form{name: "array call result" + tag, order: o, lazy: true, build: func(s *Scen) *Val { return idx(s, s.in.arrayOf(s.st, i32(s), 4), RVF) }, check: placeIs(offs("gep(slot(L),0,%s)")...)})
			add(form{name: "pointer variable" + tag, order: o, lazy: true, build: func(s *Scen) *Val { return idx(s, s.in.ptrTo(s.st, i32(s)), LV) }, check: placeIs(offs("gep(*L,%s)")...)})
			add(form{name: "pointer call result" + tag, order: o, lazy: true, build: func(s *Scen) *Val { return idx(s, s.in.ptrTo(s.st, i32(s)), RVF) }, check: placeIs(offs("gep(L,%s)")...)})
		}
	}
	add(form{name: "dereference of a variable", order: []string{"R"}, build: func(s *Scen) *Val { return s.prefix("Multiply", s.in.ptrTo(s.st, i32(s)), LV, i32(s)) }, check: placeIs("*R")})
	add(form{name: "dereference of a call result", order: []string{"R"}, build: func(s *Scen) *Val { return s.prefix("Multiply", s.in.ptrTo(s.st, i32(s)), RVF, i32(s)) }, check: placeIs("R")})
	return r
}

// valueForms: expressions that denote a value.
func valueForms() []form {
	var r []form
	add := func(f form) { r = append(r, f) }
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	add(form{name: "address of a variable", order: []string{"R"}, build: func(s *Scen) *Val { return s.prefix("BinaryAND", i32(s), LV, s.in.ptrTo(s.st, i32(s))) }, check: valueIs("R")})
	add(form{name: "address of a pointer variable", order: []string{"R"}, build: func(s *Scen) *Val {
		p := s.in.ptrTo(s.st, i32(s))
		return s.prefix("BinaryAND", p, LV, s.in.ptrTo(s.st, p))
	}, check: valueIs("R")})
	add(form{name: "address of a literal struct", order: []string{"R"}, build: func(s *Scen) *Val { return s.prefix("BinaryAND", structP(s), SLIT, s.in.ptrTo(s.st, structP(s))) }, check: valueIs("R")})
	for _, m := range []Mode{RV, RVF} {
		m := m
		add(form{name: "address of a " + modeName(m), order: []string{"R"}, build: func(s *Scen) *Val { return s.prefix("BinaryAND", i32(s), m, s.in.ptrTo(s.st, i32(s))) }, check: valueIs("slot(R)")})
	}
	add(form{name: "address of a pointer call result", order: []string{"R"}, build: func(s *Scen) *Val {
		p := s.in.ptrTo(s.st, i32(s))
		return s.prefix("BinaryAND", p, RVF, s.in.ptrTo(s.st, p))
	}, check: valueIs("slot(R)")})
	// calls
	for n := 0; n <= 3; n++ {
		for _, cm := range []Mode{LV, RVF} {
			for _, am := range []Mode{LV, RV, RVF} {
				n, cm, am := n, cm, am
				order := []string{"L"}
				args := []string{}
				for i := 0; i < n; i++ {
					order = append(order, fmt.Sprintf("P%d", i))
					args = append(args, operand(fmt.Sprintf("P%d", i), am))
				}
				add(form{name: fmt.Sprintf("call through a %s with %d arguments (%s)", modeName(cm), n, modeName(am)), order: order, build: func(s *Scen) *Val {
					b := s.node("root", "Call")
					var ps []*Val
					var ts []*CT
					for i := 0; i < n; i++ {
						ps = append(ps, s.addChild(fmt.Sprintf("P%d", i), i32(s), am))
						ts = append(ts, i32(s))
					}
					s.in.setField(s.st, b, "Left", s.addChild("L", s.funcOf(i32(s), ts...), cm))
					s.in.setField(s.st, b, "Parameters", s.exprs("root.Parameters", ps...))
					s.setType(b, i32(s))
					return b
				}, check: valueIs("call " + operand("L", cm) + "(" + strings.Join(args, ",") + ")")})
			}
		}
	}
	add(form{name: "call that returns a pointer", order: []string{"L"}, build: func(s *Scen) *Val {
		b := s.node("root", "Call")
		s.in.setField(s.st, b, "Left", s.addChild("L", s.funcOf(s.in.ptrTo(s.st, i32(s))), RVF))
		s.in.setField(s.st, b, "Parameters", s.exprs("root.Parameters"))
		s.setType(b, s.in.ptrTo(s.st, i32(s)))
		return b
	}, check: valueIs("call L()")})
	// struct literals: the members may be given in any order
	fields := []string{"a", "b", "c"}
	perms := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0}, {2, 0}, {}}
	for _, pm := range perms {
		for _, ms := range [][]Mode{{LV, LV, LV}, {RV, RVF, LV}, {RVF, LV, RV}} {
			pm, ms := pm, ms
			var order, names []string
			for k, i := range pm {
				order = append(order, fmt.Sprintf("V%d", k))
				names = append(names, fields[i])
			}
			add(form{name: fmt.Sprintf("struct literal with members %s", strings.Join(names, ",")), order: order, fresh: true, build: func(s *Scen) *Val {
				p := structP(s)
				b := s.node("root", "StructLiteral")
				s.in.setField(s.st, b, "Name", vStr("P"))
				s.in.setField(s.st, b, "Module", vStr(""))
				vt := s.in.w.typ("internals/ast", "StructValue")
				var vs []*Val
				for k, i := range pm {
					v := zeroVal(vt)
					o := s.in.newObj(s.st, fmt.Sprintf("sv%d", k), vt)
					s.st.heap[o.O] = v
					s.in.setField(s.st, o, "Name", vStr(fields[i]))
					s.in.setField(s.st, o, "Expression", s.addChild(fmt.Sprintf("V%d", k), []*CT{s.shared("I32"), s.shared("I64"), s.shared("I8")}[i], ms[k]))
					vs = append(vs, s.st.content(o.O))
				}
				s.in.setField(s.st, b, "Values", s.in.list(s.st, "root.Values", vt, vs...))
				s.setType(b, p)
				return b
			}, check: func(s *Scen, o Outcome) (bool, string) {
				want := map[string]string{}
				for k, i := range pm {
					want[fmt.Sprintf("0,%d", i)] = operand(fmt.Sprintf("V%d", k), ms[k])
				}
				return aggregate(s, o, want)
			}})
		}
	}
	for _, uv := range []struct {
		n string
		m Mode
		u bool
	}{{"number variable", LV, false}, {"number", RV, false}, {"number call result", RVF, false}, {"union variable", LV, true}, {"union call result", RVF, true}} {
		uv := uv
		add(form{name: "struct literal with a union member given a " + uv.n, order: []string{"V"}, fresh: true, build: func(s *Scen) *Val {
			u := unionU(s)
			q := s.structT("Struct", "Q", []string{"k", "u"}, s.shared("I32"), u)
			b := s.node("root", "StructLiteral")
			s.in.setField(s.st, b, "Name", vStr("Q"))
			s.in.setField(s.st, b, "Module", vStr(""))
			vt := s.in.w.typ("internals/ast", "StructValue")
			o := s.in.newObj(s.st, "sv", vt)
			s.in.setField(s.st, o, "Name", vStr("u"))
			t := i32(s)
			if uv.u {
				t = u
			}
			s.in.setField(s.st, o, "Expression", s.addChild("V", t, uv.m))
			s.in.setField(s.st, b, "Values", s.in.list(s.st, "root.Values", vt, s.st.content(o.O)))
			s.setType(b, q)
			return b
		}, check: func(s *Scen, o Outcome) (bool, string) {
			return aggregate(s, o, map[string]string{"0,1": operand("V", uv.m)})
		}})
	}
	for n := 0; n <= 3; n++ {
		for _, m := range []Mode{LV, RV, RVF, SLIT} {
			n, m := n, m
			var order []string
			want := map[string]string{}
			for k := 0; k < n; k++ {
				order = append(order, fmt.Sprintf("V%d", k))
				x := operand(fmt.Sprintf("V%d", k), m)
				if m == SLIT {
					x = "*" + fmt.Sprintf("V%d", k)
				}
				want[fmt.Sprintf("0,%d", k)] = x
			}
			add(form{name: fmt.Sprintf("array literal of %d elements (%s)", n, modeName(m)), order: order, fresh: true, build: func(s *Scen) *Val {
				el := i32(s)
				if m == SLIT {
					el = structP(s)
				}
				b := s.node("root", "ArrayLiteral")
				var vs []*Val
				for k := 0; k < n; k++ {
					vs = append(vs, s.addChild(fmt.Sprintf("V%d", k), el, m))
				}
				s.in.setField(s.st, b, "Values", s.exprs("root.Values", vs...))
				s.setType(b, s.in.arrayOf(s.st, el, int64(n)))
				return b
			}, check: func(s *Scen, o Outcome) (bool, string) { return aggregate(s, o, want) }})
		}
	}
	for _, ms := range [][]Mode{{LV, LV}, {RV, RVF}, {RVF, LV}, {LV, RV, RVF}} {
		ms := ms
		var order []string
		want := map[string]string{}
		for k := range ms {
			order = append(order, fmt.Sprintf("E%d", k))
			want[fmt.Sprintf("0,%d", k)] = operand(fmt.Sprintf("E%d", k), ms[k])
		}
		add(form{name: fmt.Sprintf("list of %d values", len(ms)), order: order, build: func(s *Scen) *Val {
			b := s.node("root", "CommaExpressions")
			var vs, ts []*Val
			for k := range ms {
				vs = append(vs, s.addChild(fmt.Sprintf("E%d", k), i32(s), ms[k]))
				ts = append(ts, i32(s).ct)
			}
			s.in.setField(s.st, b, "Expressions", s.exprs("root.Expressions", vs...))
			s.in.setField(s.st, b, "IsAssignment", vBool(false))
			s.setType(b, s.typeList(ts...))
			return b
		}, check: func(s *Scen, o Outcome) (bool, string) { return aggregate(s, o, want) }})
	}
	// literals
	for _, n := range []string{"I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"} {
		n := n
		add(form{name: "integer literal of type " + strings.ToLower(n), build: func(s *Scen) *Val {
			b := s.node("root", "Integer")
			s.in.setField(s.st, b, "Value", vSym("literal", types.Typ[types.Int64]))
			s.setType(b, s.shared(n))
			return b
		}, check: func(s *Scen, o Outcome) (bool, string) {
			if t := llName(s.in, o.St, s.in.typeOf(o.St, o.Res)); t != "i"+n[1:] {
				return false, "the literal has type " + t
			}
			return oneOf(s.rv(o), []string{"literal"})
		}})
	}
	for _, n := range []string{"F32", "F64"} {
		n := n
		add(form{name: "float literal of type " + strings.ToLower(n), build: func(s *Scen) *Val {
			b := s.node("root", "Float")
			s.in.setField(s.st, b, "Value", vSym("literal", types.Typ[types.Float64]))
			s.setType(b, s.shared(n))
			return b
		}, check: func(s *Scen, o Outcome) (bool, string) {
			if t := llName(s.in, o.St, s.in.typeOf(o.St, o.Res)); t != map[string]string{"F32": "float", "F64": "double"}[n] {
				return false, "the literal has type " + t
			}
			return oneOf(s.rv(o), []string{"literal"})
		}})
	}
	for _, txt := range []string{"", "abc", "a\x00b", "printf"} {
		txt := txt
		add(form{name: fmt.Sprintf("string literal %q", txt), build: func(s *Scen) *Val {
			b := s.node("root", "StringLiteral")
			s.in.setField(s.st, b, "Value", vStr(txt))
			s.setType(b, s.in.ptrTo(s.st, s.shared("I8")))
			return b
		}, check: func(s *Scen, o Outcome) (bool, string) {
			g := s.rv(o)
			if !strings.HasPrefix(g, "gep(global(") || !strings.HasSuffix(g, fmt.Sprintf(",const.CharArrayFromString(%s)),0,0)", vStr(txt+"\x00").Key())) {
				return false, "the literal is " + g + ", expected the address of its terminated text"
			}
			return true, ""
		}})
	}
	return r
}

func (s *Scen) typeList(ts ...*Val) *CT {
	t := s.in.w.typ("internals/ctypes", "TypeList")
	p := s.in.newObj(s.st, "ct:list", t)
	s.in.setField(s.st, p, "Types", s.in.list(s.st, "typelist", s.in.w.typ("internals/ctypes", "Type"), ts...))
	return &CT{name: "list", ct: vIface(types.NewPointer(t), p)}
}

// aggregate: the result is a fresh stack slot whose parts (and nothing else) were stored to as listed.
func aggregate(s *Scen, o Outcome, want map[string]string) (bool, string) {
	st := o.St
	if f, known := s.in.field(st, s.c, "doNotLoadIntoMemory").boolConst(); !known || f {
		return false, "the literal is handed out as a value instead of the place it was built in"
	}
	base := st.norm(o.Res).inner()
	if base.K != KPtr {
		return false, "the result is not a fresh stack slot: " + s.term(st, o.Res)
	}
	if d := s.in.def(st, base); d == nil || d.S != "Alloca" {
		return false, "the result is not a fresh stack slot: " + s.term(st, o.Res)
	}
	got := map[string]string{}
	for _, e := range st.events() {
		if e.Op != "ir:Store" {
			continue
		}
		ptr := st.norm(e.Args[1])
		d := s.in.def(st, ptr)
		for d != nil && d.S == "BitCast" {
			d = s.in.def(st, st.norm(d.A[0]))
		}
		if d == nil || d.S != "GetElementPtr" || len(d.A) < 3 {
			if q := ptr.inner(); q.K == KPtr && q.O != base.O {
				if dd := s.in.def(st, q); dd != nil && dd.S == "Alloca" {
					continue // a temporary of its own
				}
			}
			return false, "a store goes to " + s.term(st, ptr)
		}
		if q := st.norm(d.A[1]).inner(); q.K != KPtr || q.O != base.O {
			return false, "a store goes to " + s.term(st, ptr)
		}
		var ix []string
		for _, x := range d.A[2:] {
			ix = append(ix, s.term(st, x))
		}
		k := strings.Join(ix, ",")
		if _, twice := got[k]; twice {
			return false, "part " + k + " is stored twice"
		}
		got[k] = s.term(st, e.Args[0])
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] != want[k] {
			return false, fmt.Sprintf("part %s receives %q, expected %s", k, got[k], want[k])
		}
		delete(got, k)
	}
	for k, v := range got {
		return false, fmt.Sprintf("part %s receives %s although nothing belongs there", k, v)
	}
	return true, ""
}

// otherForms: constructs whose value is covered by other properties; only order and bookkeeping is checked here.
func otherForms() []form {
	var r []form
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	for _, row := range opTable {
		row := row
		for _, mc := range modeCombos {
			mc := mc
			r = append(r, form{name: row.op, order: []string{"L", "R"}, build: func(s *Scen) *Val { return s.binary(row.op, i32(s), mc[0], i32(s), mc[1], i32(s)) }})
		}
	}
	for _, row := range cmpOps {
		row := row
		for _, mc := range modeCombos {
			mc := mc
			r = append(r, form{name: row.op, order: []string{"L", "R"}, build: func(s *Scen) *Val { return s.binary(row.op, i32(s), mc[0], i32(s), mc[1], s.shared("I1")) }})
		}
		r = append(r, form{name: row.op + " of strings", order: []string{"L", "R"}, build: func(s *Scen) *Val {
			t := s.in.ptrTo(s.st, s.shared("I8"))
			return s.binary(row.op, t, LV, t, RVF, s.shared("I1"))
		}})
	}
	for _, op := range []string{"Add", "Subtract"} {
		op := op
		for _, mc := range modeCombos {
			mc := mc
			if mc[0] == RV {
				continue
			}
			r = append(r, form{name: op + " on a pointer", order: []string{"L", "R"}, build: func(s *Scen) *Val {
				p := s.in.ptrTo(s.st, i32(s))
				return s.binary(op, p, mc[0], i32(s), mc[1], p)
			}})
		}
	}
	for _, mc := range [][2]Mode{{LV, LV}, {RVF, LV}, {LV, RVF}, {RVF, RVF}} {
		mc := mc
		r = append(r, form{name: "concatenation", order: []string{"L", "R"}, build: func(s *Scen) *Val {
			t := s.in.ptrTo(s.st, s.shared("I8"))
			return s.binary("Add", t, mc[0], t, mc[1], t)
		}})
	}
	for _, op := range []string{"Subtract", "Bang", "AddOne", "SubtractOne"} {
		op := op
		for _, m := range []Mode{LV, RV, RVF} {
			m := m
			if strings.HasSuffix(op, "One") && m != LV {
				continue
			}
			r = append(r, form{name: "prefix " + op, order: []string{"R"}, build: func(s *Scen) *Val { return s.prefix(op, i32(s), m, i32(s)) }})
		}
	}
	for _, m := range []Mode{LV, RV, RVF} {
		m := m
		b := func(n string, order []string, f func(s *Scen) *Val) {
			r = append(r, form{name: "@" + n, order: order, build: f})
		}
		b("print", []string{"P0", "P1", "P2"}, func(s *Scen) *Val {
			return s.builtin("print", nil, i32(s), s.addChild("P0", i32(s), m), s.addChild("P1", s.shared("F32"), m), s.addChild("P2", i32(s), LV))
		})
		b("alloc", []string{"P0"}, func(s *Scen) *Val {
			return s.builtin("alloc", []*CT{i32(s)}, s.in.ptrTo(s.st, i32(s)), s.addChild("P0", i32(s), m))
		})
		b("cast", []string{"P0"}, func(s *Scen) *Val {
			return s.builtin("cast", []*CT{s.shared("I64")}, s.shared("I64"), s.addChild("P0", i32(s), m))
		})
		b("realloc", []string{"P0", "P1"}, func(s *Scen) *Val {
			p := s.in.ptrTo(s.st, i32(s))
			pm := LV
			if m == RVF {
				pm = RVF
			}
			return s.builtin("realloc", nil, p, s.addChild("P0", p, pm), s.addChild("P1", i32(s), m))
		})
		if m != RV {
			b("free", []string{"P0"}, func(s *Scen) *Val {
				p := s.in.ptrTo(s.st, i32(s))
				return s.builtin("free", nil, p, s.addChild("P0", p, m))
			})
		}
		b("asm", []string{"P1", "P2"}, func(s *Scen) *Val {
			lit := s.node("P0", "StringLiteral")
			s.in.setField(s.st, lit, "Value", vStr("nop"))
			return s.builtin("asm", []*CT{i32(s)}, i32(s), s.iface(lit), s.addChild("P1", i32(s), m), s.addChild("P2", i32(s), LV))
		})
	}
	r = append(r, form{name: "@sizeof", build: func(s *Scen) *Val { return s.builtin("sizeof", []*CT{i32(s)}, i32(s)) }})
	r = append(r, form{name: "@cast of an array", order: []string{"P0"}, build: func(s *Scen) *Val {
		p := s.in.ptrTo(s.st, i32(s))
		return s.builtin("cast", []*CT{p}, p, s.addChild("P0", s.in.arrayOf(s.st, i32(s), 3), SLIT))
	}})
	return r
}

func evalOrder(o Outcome) []string {
	var r []string
	for _, e := range o.St.events() {
		if e.Op == "eval" || e.Op == "evalconst" {
			r = append(r, e.Args[0].Key())
		}
	}
	return r
}

// straightOrder: the operands are evaluated exactly once, in order, and code generation continues where the last one left off.
func straightOrder(s *Scen, o Outcome, f form) (bool, string) {
	if ok, d := s.hygiene(o); !ok {
		return false, d
	}
	got := evalOrder(o)
	if strings.Join(got, " ") != strings.Join(f.order, " ") {
		return false, fmt.Sprintf("operands are evaluated as [%s], expected [%s]", strings.Join(got, " "), strings.Join(f.order, " "))
	}
	if !f.lazy {
		if ok, d := readInTime(s, o, f.order); !ok {
			return false, d
		}
	}
	cur, _ := s.curBlock(o.St, s.c)
	ws := s.flow(o).from(s.b0.O)
	if len(ws) != 1 || cur == nil || ws[0].end != "open:"+cur.O.ID {
		return false, "the construct does not leave one open block behind in which generation continues"
	}
	if sh := ws[0].shape(); strings.Join(append(append([]string{}, f.order...), "out"), " ") != sh {
		return false, "at run time the operands run as [" + sh + "]"
	}
	if na, known := s.in.field(o.St, s.c, "doNotAllocate").boolConst(); !known || na {
		fresh := false
		if v := o.St.norm(o.Res); f.fresh && v != nil && v.inner().K == KPtr {
			d := s.in.def(o.St, v)
			fresh = d != nil && d.S == "Alloca"
		}
		if !fresh && !f.stmt {
			return false, "the result is marked as fresh storage although it is not: a declaration would alias it"
		}
	}
	return true, ""
}

// readInTime: an operand that is a variable is read before the next operand can change it.
func readInTime(s *Scen, o Outcome, order []string) (bool, string) {
	for i := 0; i+1 < len(order); i++ {
		next, first := -1, -1
		for k, e := range o.St.events() {
			switch {
			case e.Op == "eval" && e.Args[0].Key() == order[i+1] && next < 0:
				next = k
			case e.Op == "ir:Load" && s.term(o.St, e.Args[1]) == order[i] && first < 0:
				first = k
			}
		}
		if first >= 0 && next >= 0 && first > next {
			return false, fmt.Sprintf("%s is read only after %s was evaluated", order[i], order[i+1])
		}
	}
	return true, ""
}

func init() {
	register(&Prop{id: "C04",
		explanation: "Abstract interpretation of the generator of every expression form with abstract operands that move to other blocks and leave their result behind in every possible way; the sequence of operand evaluations is read off the generated control flow.",
		rules:       []string{"each operand is evaluated exactly once, in source order", "an operand's pending load state does not leak into the next operand", "generation continues in the block the last operand ended in", "a result is marked as fresh storage only when it is"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, f := range append(append(placeForms(), valueForms()...), otherForms()...) {
				s := NewScen(w, a)
				root := f.build(s)
				r.outcomes(s, s.run(a.compileExpr, root), "evaluation-order", f.name, func(o Outcome) (bool, string) { return straightOrder(s, o, f) })
			}
		}})
	register(&Prop{id: "C12",
		explanation: "Abstract interpretation of the generators of places, literals, calls, assignments and declarations; the address or value computed on every path is compared with the meaning of the construct.",
		rules:       []string{"a field, element or dereference denotes its own part of memory (of a copy only when the base is a value)", "the address-of operator yields the operand's own address", "calls pass all arguments in order", "literals store every member or element to its own part", "assignment and declaration store the value once, to the place on the left"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, f := range append(placeForms(), valueForms()...) {
				s := NewScen(w, a)
				root := f.build(s)
				r.outcomes(s, s.run(a.compileExpr, root), "meaning", f.name, func(o Outcome) (bool, string) { return f.check(s, o) })
			}
		}})
}
