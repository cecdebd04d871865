package main

import (
	"fmt"
	"go/token"
	"strings"
)

func (s *Scen) op(name string) *Val {
	c, ok := s.in.w.constInt("internals/ops", name)
	if !ok {
		return vSym("missing-op:"+name, s.in.w.typ("internals/ops", "Operation"))
	}
	return vIntT(c, s.in.w.typ("internals/ops", "Operation"))
}

func (s *Scen) shared(n string) *CT { return s.in.shared(s.st, n) }

func (s *Scen) setType(root *Val, t *CT) { s.in.set(s.st, root, "Node.Type", t.ct) }

func (s *Scen) binary(op string, lt *CT, lm Mode, rt *CT, rm Mode, res *CT) *Val {
	b := s.node("root", "BinaryOperation")
	s.in.setField(s.st, b, "Left", s.addChild("L", lt, lm))
	s.in.setField(s.st, b, "Right", s.addChild("R", rt, rm))
	s.in.setField(s.st, b, "Operation", s.op(op))
	s.setType(b, res)
	return b
}

func (s *Scen) prefix(op string, t *CT, m Mode, res *CT) *Val {
	b := s.node("root", "PrefixOperation")
	s.in.setField(s.st, b, "Right", s.addChild("R", t, m))
	s.in.setField(s.st, b, "Operation", s.op(op))
	s.setType(b, res)
	return b
}

// numKinds are the numeric types every rule about operators is checked for: the predeclared ones and integers of arbitrary width.
type numKind struct {
	name, kind string // kind: S, U, F
	mk         func(s *Scen) *CT
}

func numKinds() []numKind {
	r := []numKind{
		{"signed integer of any width", "S", func(s *Scen) *CT { return s.in.num(s.st, "Integer", 0, "iN") }},
		{"unsigned integer of any width", "U", func(s *Scen) *CT { return s.in.num(s.st, "UInteger", 0, "uN") }},
	}
	for _, n := range []string{"I8", "I16", "I32", "I64"} {
		n := n
		r = append(r, numKind{strings.ToLower(n), "S", func(s *Scen) *CT { return s.shared(n) }})
	}
	for _, n := range []string{"U8", "U16", "U32", "U64"} {
		n := n
		r = append(r, numKind{strings.ToLower(n), "U", func(s *Scen) *CT { return s.shared(n) }})
	}
	for _, n := range []string{"F32", "F64"} {
		n := n
		r = append(r, numKind{strings.ToLower(n), "F", func(s *Scen) *CT { return s.shared(n) }})
	}
	return r
}

var modeCombos = [][2]Mode{{LV, LV}, {LV, RV}, {RV, LV}, {RVF, LV}, {LV, RVF}, {RVF, RVF}}

// offsets: the forms an integer of kind k may take as an element offset (the addressing instruction reads its offset as signed).
func offsets(k numKind, x string) []string {
	switch {
	case strings.Contains(k.name, "any width"):
		ext := "SExt"
		if k.kind == "U" {
			ext = "ZExt"
		}
		return []string{x, "Trunc(" + x + "->i64)", ext + "(" + x + "->i64)"}
	case k.name == "i64" || k.name == "u64":
		return []string{x}
	case k.kind == "U":
		return []string{"ZExt(" + x + "->i64)"}
	}
	return []string{x, "SExt(" + x + "->i64)"}
}

func operand(n string, m Mode) string {
	if m == LV {
		return "*" + n
	}
	return n
}

func lastPos(o Outcome) token.Pos {
	p := o.Pos
	for _, e := range o.St.events() {
		if strings.HasPrefix(e.Op, "ir:") && e.Pos.IsValid() && e.Op != "ir:Load" {
			p = e.Pos
		}
	}
	return p
}

// outcomes checks one property of every way the construct can be generated; a crash or exit of the generator on an accepted
// program is itself a violation.
func (r *Report) outcomes(s *Scen, outs []Outcome, rule, construct string, check func(o Outcome) (bool, string)) {
	r.Analysed(s.in)
	if r.override != nil {
		for _, o := range outs {
			if o.Kind == ORet {
				ok, d := r.override(s, o)
				if !ok {
					d += "\n    path:" + traceStr(s.in, o.St)
				}
				r.parent.Ob(ok, r.overrideRule, r.prop+" "+rule+": "+construct, lastPos(o), "%s", d)
			}
		}
		return
	}
	if len(outs) == 0 {
		r.Ob(false, rule, construct, token.NoPos, "no path generates this construct")
	}
	for _, o := range outs {
		switch o.Kind {
		case ORet:
			ok, d := check(o)
			if !ok {
				d += "\n    path:" + traceStr(s.in, o.St)
			}
			r.Ob(ok, rule, construct, lastPos(o), "%s", d)
		case OPanic:
			r.Ob(false, rule, construct, o.Pos, "the generator panics: %s\n    path:%s", o.Msg, traceStr(s.in, o.St))
		case OExit:
			r.Ob(false, rule, construct, o.Pos, "the generator gives up: %s\n    path:%s", o.Msg, traceStr(s.in, o.St))
		}
	}
}

func oneOf(got string, want []string) (bool, string) {
	for _, w := range want {
		if got == w {
			return true, ""
		}
	}
	return false, fmt.Sprintf("computes %s, expected %s", got, strings.Join(want, " or "))
}

func bin(op, l, r string) string {
	switch op {
	case "Add", "Mul", "And", "Or", "Xor", "FAdd", "FMul":
		if l > r {
			l, r = r, l
		}
	}
	return op + "(" + l + "," + r + ")"
}

var opTable = []struct{ op, s, u, f string }{
	{"Add", "Add", "Add", "FAdd"},
	{"Subtract", "Sub", "Sub", "FSub"},
	{"Multiply", "Mul", "Mul", "FMul"},
	{"Divide", "SDiv", "UDiv", "FDiv"},
	{"Modulo", "SRem", "URem", "FRem"},
	{"BinaryAND", "And", "And", ""},
	{"BinaryOR", "Or", "Or", ""},
	{"BinaryXOR", "Xor", "Xor", ""},
	{"LeftShift", "Shl", "Shl", ""},
	{"RightShift", "AShr", "LShr", ""},
}

func pick(k string, s, u, f string) string {
	switch k {
	case "S":
		return s
	case "U":
		return u
	}
	return f
}

func (a *Anchors) guard(r *Report) bool {
	for _, p := range a.problems {
		r.Ob(false, "anchor", p, token.NoPos, "the code under analysis could not be located: %s", p)
	}
	return len(a.problems) == 0
}

func init() {
	register(&Prop{id: "C01",
		explanation: "Path-sensitive abstract interpretation of the SSA form of the expression code generator: for every arithmetic operator, numeric type (predeclared and of unknown width) and way an operand can be produced, the IR term computed on every path is compared with the operator table of the language.",
		rules: []string{"each binary arithmetic/bitwise operator emits the instruction of its row, left operand first, for signed, unsigned and floating operands",
			"unary minus negates, ++/-- add/subtract one of the operand's type and store the result back to the same address", "pointer plus/minus integer moves the pointer by that many elements"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, k := range numKinds() {
				for _, row := range opTable {
					ins := pick(k.kind, row.s, row.u, row.f)
					if ins == "" {
						continue
					}
					for _, mc := range modeCombos {
						s := NewScen(w, a)
						t := k.mk(s)
						root := s.binary(row.op, t, mc[0], t, mc[1], t)
						outs := s.run(a.compileExpr, root)
						want := bin(ins, operand("L", mc[0]), operand("R", mc[1]))
						r.outcomes(s, outs, "operator-instruction", row.op+" on "+k.name, func(o Outcome) (bool, string) {
							return oneOf(s.rv(o), []string{want})
						})
					}
				}
				for _, m := range []Mode{LV, RV, RVF} {
					s := NewScen(w, a)
					t := k.mk(s)
					root := s.prefix("Subtract", t, m, t)
					x := operand("R", m)
					want := []string{bin("Mul", x, "-1"), "Sub(0," + x + ")"}
					if k.kind == "F" {
						want = []string{bin("FMul", x, "-1"), "FNeg(" + x + ")", "FSub(-0," + x + ")"}
					}
					r.outcomes(s, s.run(a.compileExpr, root), "negation", "unary minus on "+k.name, func(o Outcome) (bool, string) {
						return oneOf(s.rv(o), want)
					})
				}
				for _, op := range []string{"AddOne", "SubtractOne"} {
					s := NewScen(w, a)
					t := k.mk(s)
					root := s.prefix(op, t, LV, t)
					n, m := "1", "-1"
					ad, su := "Add", "Sub"
					if k.kind == "F" {
						ad, su = "FAdd", "FSub"
					}
					if op == "SubtractOne" {
						ad, su = su, ad
					}
					want := []string{bin(ad, "*R", n), bin(su, "*R", m)}
					r.outcomes(s, s.run(a.compileExpr, root), "increment", op+" on "+k.name, func(o Outcome) (bool, string) {
						stores := storesTo(s, o, "R")
						if len(stores) != 1 {
							return false, fmt.Sprintf("the operand is stored to %d times", len(stores))
						}
						if ok, d := oneOf(stores[0], want); !ok {
							return false, "stores a wrong value: " + d
						}
						g := s.rv(o)
						return oneOf(g, append([]string{"*R"}, want...))
					})
				}
			}
			for _, k := range numKinds() {
				if k.kind == "F" || strings.Contains(k.name, "any width") {
					continue
				}
				for _, op := range []string{"Add", "Subtract"} {
					for _, mc := range modeCombos {
						if mc[0] == RV { // a pointer is never produced as a bare value
							continue
						}
						s := NewScen(w, a)
						idx := k.mk(s)
						st := s.in.structOf(s.st, "Struct", "P", []string{"a"}, s.shared("I32"))
						pt := s.in.ptrTo(s.st, st)
						root := s.binary(op, pt, mc[0], idx, mc[1], pt)
						l, rr := operand("L", mc[0]), operand("R", mc[1])
						var want []string
						for _, off := range offsets(k, rr) {
							if op == "Add" {
								want = append(want, "gep("+l+","+off+")")
							} else {
								want = append(want, "gep("+l+","+bin("Mul", off, "-1")+")", "gep("+l+",Sub(0,"+off+"))")
							}
						}
						r.outcomes(s, s.run(a.compileExpr, root), "pointer-arithmetic", op+" pointer and "+k.name, func(o Outcome) (bool, string) {
							return oneOf(s.rv(o), want)
						})
					}
				}
			}
		}})
}

// storesTo lists the values stored through the address a child yielded.
func storesTo(s *Scen, o Outcome, child string) []string {
	var r []string
	for _, e := range o.St.events() {
		if e.Op == "ir:Store" && s.term(o.St, e.Args[1]) == child {
			r = append(r, s.term(o.St, e.Args[0]))
		}
	}
	return r
}
