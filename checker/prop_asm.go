package main

import (
	"fmt"
	"strings"
)

// C47: inline assembly is the text that was written, applied to the operands that were written.

// asmCalls are the calls of inline assembly along a path.
func asmCalls(s *Scen, o Outcome) (r []*Event) {
	for _, e := range o.St.events() {
		if e.Op != "ir:Call" {
			continue
		}
		if d := s.in.def(o.St, e.Args[0]); d != nil && d.K == KTerm && d.S == "inlineasm" {
			r = append(r, e)
		}
	}
	return
}

// asmShape reads a list of constraints: the outputs come first, then the inputs, then what is clobbered.
func asmShape(c string) (outs, ins int, bad string) {
	stage := 0
	for _, x := range strings.Split(c, ",") {
		k := 1
		switch {
		case x == "":
			return 0, 0, "has an empty part"
		case strings.HasPrefix(x, "="):
			k = 0
			outs++
		case strings.HasPrefix(x, "~"):
			k = 2
		default:
			ins++
		}
		if k < stage {
			return 0, 0, "is out of order"
		}
		stage = k
		if k < 2 && strings.TrimLeft(x, "=&") != "r" {
			return 0, 0, "places " + x + " elsewhere than in a register"
		}
	}
	return
}

func asmOK(s *Scen, o Outcome, text string, res *CT, want []string) (bool, string) {
	if ok, d := s.hygiene(o); !ok {
		return false, d
	}
	cs := asmCalls(s, o)
	if len(cs) != 1 {
		return false, fmt.Sprintf("%d pieces of assembly are called instead of one", len(cs))
	}
	e := cs[0]
	d := s.in.def(o.St, e.Args[0])
	if t, ok := o.St.norm(d.A[1]).strConst(); !ok || t != text {
		return false, fmt.Sprintf("the assembly is %s instead of %q", o.St.norm(d.A[1]).Key(), text)
	}
	c, ok := o.St.norm(d.A[2]).strConst()
	if !ok {
		return false, "the constraints are not known: " + o.St.norm(d.A[2]).Key()
	}
	outs, ins, bad := asmShape(c)
	if bad != "" {
		return false, fmt.Sprintf("the list of constraints %q %s", c, bad)
	}
	wo := 1
	if res.name == "void" {
		wo = 0
	}
	if outs != wo || ins != len(want) {
		return false, fmt.Sprintf("the constraints %q describe %d results and %d operands instead of %d and %d", c, outs, ins, wo, len(want))
	}
	var got []string
	for _, a := range e.Args[1:] {
		got = append(got, s.term(o.St, a))
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		return false, fmt.Sprintf("the operands are [%s] instead of [%s]", strings.Join(got, ", "), strings.Join(want, ", "))
	}
	// the signature
	sig := ""
	for i := range want {
		if i > 0 {
			sig += ","
		}
		sig += llName(s.in, o.St, s.in.typeOf(o.St, e.Args[1+i]))
	}
	rt := llName(s.in, o.St, res.ll)
	ft := o.St.norm(d.A[0])
	fn := ft
	if fn.K == KIface && shortType(fn.T) == "*types.PointerType" {
		fn = o.St.norm(s.in.field(o.St, fn, "ElemType"))
	} else if fn.inner().K == KPtr && fieldIndex(elemOf(fn.T), "ElemType") >= 0 {
		fn = o.St.norm(s.in.field(o.St, fn, "ElemType"))
	}
	r := llName(s.in, o.St, s.in.field(o.St, fn, "RetType"))
	ps, ok := s.in.elems(o.St, s.in.field(o.St, fn, "Params"))
	if !ok {
		return false, "the types of the operands are not known"
	}
	var gs []string
	for _, p := range ps {
		gs = append(gs, llName(s.in, o.St, p))
	}
	if r != rt || strings.Join(gs, ",") != sig {
		return false, fmt.Sprintf("the assembly has the type %s(%s) instead of %s(%s)", r, strings.Join(gs, ","), rt, sig)
	}
	if wo == 1 && s.rv(o) != s.term(o.St, e.Res) {
		return false, "the result is " + s.rv(o) + " instead of what the assembly yields"
	}
	return true, ""
}

func init() {
	register(&Prop{id: "C47",
		explanation: "Abstract interpretation of the generator of inline assembly, for operands of every type and kind, in every number up to four, and results of every type: on every path one piece of assembly is called, with the text that was written, the operands in their order and constraints and types that fit them.",
		rules:       []string{"the assembly is the text that was written and is called once", "its operands are the values of the operands that were written, in their order", "the constraints describe one register for the result, if there is one, and one for each operand", "the expression is what the assembly yields"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			type tk struct {
				n string
				f func(s *Scen) *CT
			}
			num := func(n string) tk { return tk{n, func(s *Scen) *CT { return s.shared(n) }} }
			ts := []tk{num("I8"), num("I16"), num("I32"), num("I64"), num("U8"), num("U16"), num("U32"), num("U64"), num("F32"), num("F64"), num("I1"),
				{"*i32", func(s *Scen) *CT { return s.in.ptrTo(s.st, s.shared("I32")) }}, {"**i8", func(s *Scen) *CT { return s.in.ptrTo(s.st, s.in.ptrTo(s.st, s.shared("I8"))) }}}
			rs := append(append([]tk{}, ts...), tk{"void", func(s *Scen) *CT { return s.voidCT() }})
			one := func(text string, rt tk, ps []tk, ms []Mode) {
				s := NewScen(w, a)
				lit := s.node("text", "StringLiteral")
				s.in.setField(s.st, lit, "Value", vStr(text))
				args := []*Val{s.iface(lit)}
				var want []string
				n := "@asm(" + rt.n + ", " + text
				for i, p := range ps {
					k := fmt.Sprintf("P%d", i)
					t := p.f(s)
					if ms[i] == RV && strings.HasPrefix(p.n, "*") {
						ms[i] = RVF
					}
					args = append(args, s.addChild(k, t, ms[i]))
					if v := k; ms[i] == LV {
						want = append(want, "*"+v)
					} else {
						want = append(want, v)
					}
					n += fmt.Sprintf(", %s %s", p.n, []string{"in a variable", "called", "computed"}[ms[i]])
				}
				res := rt.f(s)
				root := s.builtin("asm", []*CT{res}, res, args...)
				r.outcomes(s, s.run(a.compileExpr, root), "inline assembly", n+")", func(o Outcome) (bool, string) {
					return asmOK(s, o, text, res, want)
				})
			}
			modes := []Mode{RV, LV, RVF}
			for _, text := range []string{"nop", "", "movl $1, $0\n\tadd \"x\" %r, \\ $$7"} {
				for ri, rt := range rs {
					one(text, rt, nil, nil)
					for pi, p := range ts {
						for mi, m := range modes {
							if (m == RVF) && !strings.HasPrefix(p.n, "*") || m == RV && strings.HasPrefix(p.n, "*") || text != "nop" && (pi+ri)%4 != mi {
								continue
							}
							one(text, rt, []tk{p}, []Mode{m})
						}
					}
				}
			}
			max := 3
			if r.thorough {
				max = 6
			}
			for n := 2; n <= max; n++ {
				for i := range ts {
					var ps []tk
					var ms []Mode
					for k := 0; k < n; k++ {
						ps = append(ps, ts[(i+k*(k+2))%len(ts)])
						m := modes[(i+k)%2]
						ms = append(ms, m)
					}
					one("nop", rs[(i*5+n)%len(rs)], ps, ms)
				}
				same := make([]tk, n)
				sm := make([]Mode, n)
				for k := range same {
					same[k] = ts[2]
					sm[k] = modes[k%2]
				}
				one("nop", rs[3], same, sm)
				one("nop", rs[len(rs)-1], same, sm)
			}
		}})
}
