package main

import (
	"fmt"
	"go/token"
	"strings"
)

func (s *Scen) builtin(name string, tps []*CT, res *CT, params ...*Val) *Val {
	b := s.node("root", "BuiltinCall")
	in := s.in
	in.setField(s.st, b, "Name", vStr(name))
	var ts []*Val
	for _, t := range tps {
		ts = append(ts, t.ct)
	}
	in.setField(s.st, b, "TypeParameters", in.list(s.st, "root.TypeParameters", in.w.typ("internals/ctypes", "Type"), ts...))
	in.setField(s.st, b, "Parameters", in.list(s.st, "root.Parameters", in.w.typ("internals/ast", "Expression"), params...))
	s.setType(b, res)
	return b
}

// sized is a type whose size in memory is fixed by the C rules the generated code follows.
type sized struct {
	name        string
	size, align int64
	mk          func(s *Scen) *CT
}

func scalars() []sized {
	var r []sized
	for _, n := range []string{"I1", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "F32", "F64"} {
		n := n
		var b int64
		fmt.Sscan(n[1:], &b)
		r = append(r, sized{strings.ToLower(n), (b + 7) / 8, (b + 7) / 8, func(s *Scen) *CT { return s.shared(n) }})
	}
	r = append(r, sized{"*i32", 8, 8, func(s *Scen) *CT { return s.in.ptrTo(s.st, s.shared("I32")) }})
	return r
}

func arrOf(t sized, n int64) sized {
	return sized{fmt.Sprintf("[%d]%s", n, t.name), t.size * n, t.align, func(s *Scen) *CT { return s.in.arrayOf(s.st, t.mk(s), n) }}
}

func structSized(fs ...sized) sized {
	var names, fn []string
	off, al := int64(0), int64(1)
	for i, f := range fs {
		if f.align > 0 {
			off = (off + f.align - 1) / f.align * f.align
			if f.align > al {
				al = f.align
			}
		}
		off += f.size
		names = append(names, f.name)
		fn = append(fn, fmt.Sprintf("f%d", i))
	}
	off = (off + al - 1) / al * al
	nm := "struct{" + strings.Join(names, ",") + "}"
	return sized{nm, off, al, func(s *Scen) *CT {
		var cs []*CT
		for _, f := range fs {
			cs = append(cs, f.mk(s))
		}
		return s.structT("Struct", nm, fn, cs...)
	}}
}

func unionSized(fs ...sized) sized {
	var names, fn []string
	m := int64(0)
	for i, f := range fs {
		if f.size > m {
			m = f.size
		}
		names = append(names, f.name)
		fn = append(fn, fmt.Sprintf("f%d", i))
	}
	nm := "union{" + strings.Join(names, ",") + "}"
	return sized{nm, m, 1, func(s *Scen) *CT {
		var cs []*CT
		for _, f := range fs {
			cs = append(cs, f.mk(s))
		}
		return s.structT("Union", nm, fn, cs...)
	}}
}

func memTypes() []sized {
	r := scalars()
	by := map[string]sized{}
	for _, t := range r {
		by[t.name] = t
	}
	r = append(r, arrOf(by["i32"], 3), arrOf(by["*i32"], 2), arrOf(arrOf(by["i16"], 3), 5))
	r = append(r, structSized(), unionSized(by["i8"], by["i64"], by["i16"]), unionSized(by["i64"], by["i8"]), unionSized(arrOf(by["i8"], 16), by["i64"]))
	base := []sized{by["i8"], by["i16"], by["i32"], by["i64"]}
	for _, a := range base {
		r = append(r, structSized(a))
		for _, b := range base {
			r = append(r, structSized(a, b))
			for _, c := range base {
				r = append(r, structSized(a, b, c))
			}
		}
	}
	r = append(r, structSized(by["i8"], by["f64"]), structSized(by["f32"], by["*i32"], by["i1"]), structSized(by["i8"], arrOf(by["i32"], 2)), structSized(by["i8"], structSized(by["i8"], by["i32"]), by["i8"]), arrOf(structSized(by["i32"], by["i8"]), 4))
	return r
}

func funcSig(s *Scen, st *State, e *Event) string {
	var ps []string
	es, ok := s.in.elems(st, e.Args[2])
	if !ok {
		return "?"
	}
	for _, p := range es {
		ps = append(ps, llName(s.in, st, s.in.typeOf(st, p)))
	}
	r := llName(s.in, st, e.Args[1]) + "(" + strings.Join(ps, ",") + ")"
	sig := s.in.field(st, e.Res, "Sig")
	if sig != nil {
		if v, ok := s.in.field(st, sig, "Variadic").boolConst(); ok && v {
			r += "..."
		}
	}
	return r
}

// cDecls are the accepted declarations of the C functions generated code calls.
var cDecls = map[string][]string{
	"malloc":  {"i8*(i64)"},
	"realloc": {"i8*(i8*,i64)", "i8*(i8*,i64)..."},
	"free":    {"void(i8*)"},
	"strlen":  {"i64(i8*)"},
	"strcmp":  {"i32(i8*,i8*)"},
	"memcpy":  {"void(i8*,i8*,i64)", "i8*(i8*,i8*,i64)"},
	"printf":  {"i32(i8*)..."},
}

// declsOf checks that every C function is declared at most once along the path, with its C signature.
func declsOf(s *Scen, st *State) (bool, string) {
	seen := map[string]int{}
	for _, e := range st.events() {
		if e.Op != "newfunc" {
			continue
		}
		n := strings.Trim(st.norm(e.Args[0]).Key(), "\"")
		seen[n]++
		if seen[n] > 1 {
			return false, n + " is declared a second time"
		}
		if want, ok := cDecls[n]; ok {
			if ok, d := oneOf(funcSig(s, st, e), want); !ok {
				return false, n + " is declared with a wrong signature: " + d
			}
		}
	}
	return true, ""
}

// twice generates the same construct a second time after the first and hands the final outcomes to check.
func (s *Scen) twice(root *Val, outs []Outcome) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.Kind != ORet {
			r = append(r, o)
			continue
		}
		st := o.St.clone()
		s.in.setField(st, s.c, "doNotLoadIntoMemory", vBool(false))
		s.in.setField(st, s.c, "doNotAllocate", vBool(false))
		s.st = st
		r = append(r, s.in.Call(s.a.compileExpr, []*Val{s.c, s.iface(root)}, nil, st, "again", 0)...)
	}
	return r
}

func printFormat(k castKind) string {
	switch {
	case k.kind == "F":
		return "%.3f"
	case k.bits == 64 && k.kind == "U":
		return "%llu"
	case k.bits == 64:
		return "%lld"
	case k.bits == 32 && k.kind == "U":
		return "%u"
	case k.bits == 32:
		return "%d"
	case k.bits == 16 && k.kind == "U":
		return "%hu"
	case k.bits == 16:
		return "%hd"
	case k.kind == "U":
		return "%hhu"
	}
	return "%hhd"
}

// printfArgs finds the single printf call of a path and renders its format (as text) and arguments.
func printfArgs(s *Scen, o Outcome) (string, []string, string) {
	var fm string
	var args []string
	n := 0
	for _, e := range o.St.events() {
		if e.Op != "ir:Call" || s.term(o.St, e.Args[0]) != "@printf" {
			continue
		}
		n++
		if len(e.Args) < 2 {
			return "", nil, "printf is called without a format"
		}
		fm = cText(s.term(o.St, e.Args[1]))
		for _, a := range e.Args[2:] {
			args = append(args, s.term(o.St, a))
		}
	}
	if n != 1 {
		return "", nil, fmt.Sprintf("printf is called %d times", n)
	}
	return fm, args, ""
}

// cText extracts the text of a global character array from the term that points to its first character.
func cText(t string) string {
	if !strings.HasPrefix(t, "gep(global(") || !strings.HasSuffix(t, ",0,0)") {
		return "?" + t
	}
	i := strings.Index(t, "const.CharArrayFromString(")
	if i < 0 {
		return "?" + t
	}
	t = t[i+len("const.CharArrayFromString("):]
	j := strings.LastIndex(t, "\\x00\"")
	if j < 0 || len(t) == 0 || t[0] != '"' {
		return "?not a terminated string: " + t
	}
	return t[1:j]
}

func init() {
	register(&Prop{id: "C09",
		explanation: "Abstract interpretation of the generators of the memory builtins: the calls of the C allocation functions on every path, their arguments and the type of the result are compared with the language's meaning for every kind of element type; the size the compiler gives a type is compared with the layout rules of the target for scalars, pointers, arrays, unions and all structs of up to three members of the four alignments.",
		rules:       []string{"@alloc(T, n) calls malloc once with n times the size of T and yields the block as a *T", "@realloc(p, n) calls realloc once with p and n times the size of p's element and yields a pointer of p's type", "@free(p) hands p to free once", "@sizeof(T) is the size the generated code gives T", "the C functions are declared once, with their C signature"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, t := range memTypes() {
				s := NewScen(w, a)
				root := s.builtin("sizeof", []*CT{t.mk(s)}, s.shared("I32"))
				r.outcomes(s, s.run(a.compileExpr, root), "sizeof", "@sizeof "+t.name, func(o Outcome) (bool, string) {
					return oneOf(s.rv(o), []string{fmt.Sprint(t.size)})
				})
				modes := []Mode{LV, RV, RVF}
				if strings.HasPrefix(t.name, "struct") && strings.Count(t.name, ",") > 0 {
					modes = modes[:1]
				}
				for _, m := range modes {
					s = NewScen(w, a)
					ct := t.mk(s)
					root = s.builtin("alloc", []*CT{ct}, s.in.ptrTo(s.st, ct), s.addChild("P0", s.shared("I64"), m))
					size := bin("Mul", operand("P0", m), fmt.Sprint(t.size))
					ll := llName(s.in, s.st, ct.ll) + "*"
					r.outcomes(s, s.run(a.compileExpr, root), "alloc", "@alloc "+t.name, func(o Outcome) (bool, string) {
						if ok, d := calls(s, o, "@malloc", []string{size}); !ok {
							return false, d
						}
						return oneOf(s.rv(o), []string{"BitCast(call @malloc(" + size + ")->" + ll + ")"})
					})
					s = NewScen(w, a)
					ct = t.mk(s)
					pt := s.in.ptrTo(s.st, ct)
					pm := LV
					if m == RVF {
						pm = RVF
					}
					root = s.builtin("realloc", nil, pt, s.addChild("P0", pt, pm), s.addChild("P1", s.shared("I64"), m))
					size1 := bin("Mul", operand("P1", m), fmt.Sprint(t.size))
					blk := "BitCast(" + operand("P0", pm) + "->i8*)"
					if t.name == "i8" || t.name == "u8" {
						blk = operand("P0", pm)
					}
					r.outcomes(s, s.run(a.compileExpr, root), "realloc", "@realloc *"+t.name, func(o Outcome) (bool, string) {
						if ok, d := calls(s, o, "@realloc", []string{blkOrCast(s, o, "@realloc", blk), size1}); !ok {
							return false, d
						}
						return oneOf(s.rv(o), []string{"BitCast(call @realloc(" + blkOrCast(s, o, "@realloc", blk) + "," + size1 + ")->" + ll + ")"})
					})
				}
				for _, m := range []Mode{LV, RVF} {
					s = NewScen(w, a)
					pt := s.in.ptrTo(s.st, t.mk(s))
					root = s.builtin("free", nil, pt, s.addChild("P0", pt, m))
					want := operand("P0", m)
					r.outcomes(s, s.run(a.compileExpr, root), "free", "@free *"+t.name, func(o Outcome) (bool, string) {
						g := "BitCast(" + want + "->i8*)"
						return calls(s, o, "@free", []string{blkOrCast(s, o, "@free", g)})
					})
				}
			}
			// C declarations: the second use finds the function the first one declared
			for _, b := range []string{"alloc", "realloc", "free", "print", "concat", "compare"} {
				s := NewScen(w, a)
				i32, i64 := s.shared("I32"), s.shared("I64")
				p := s.in.ptrTo(s.st, i32)
				str := s.in.ptrTo(s.st, s.shared("I8"))
				var root *Val
				switch b {
				case "alloc":
					root = s.builtin("alloc", []*CT{i32}, p, s.addChild("P0", i64, LV))
				case "realloc":
					root = s.builtin("realloc", nil, p, s.addChild("P0", p, LV), s.addChild("P1", i64, LV))
				case "free":
					root = s.builtin("free", nil, p, s.addChild("P0", p, LV))
				case "print":
					root = s.builtin("print", nil, i32, s.addChild("P0", i32, LV))
				case "concat":
					root = s.binary("Add", str, LV, str, LV, str)
				case "compare":
					root = s.binary("Equals", str, LV, str, LV, s.shared("I1"))
				}
				outs := s.twice(root, s.run(a.compileExpr, root))
				r.outcomes(s, outs, "c-declarations", b+" used twice", func(o Outcome) (bool, string) { return declsOf(s, o.St) })
			}
		}})

	register(&Prop{id: "C10",
		explanation: "Abstract interpretation of the generator of string concatenation: the allocation and the two copies on every path are compared with the layout of a terminated concatenation, for all ways the operands can be produced.",
		rules:       []string{"the buffer holds both lengths and a terminator", "the left string is copied to the start, the right one with its terminator right behind it", "the result is the fresh buffer; the operands are only read"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, mc := range [][2]Mode{{LV, LV}, {LV, RVF}, {RVF, LV}, {RVF, RVF}} {
				s := NewScen(w, a)
				t := s.in.ptrTo(s.st, s.shared("I8"))
				root := s.binary("Add", t, mc[0], t, mc[1], t)
				L, R := operand("L", mc[0]), operand("R", mc[1])
				ll, lr := "call @strlen("+L+")", "call @strlen("+R+")"
				r.outcomes(s, s.run(a.compileExpr, root), "concatenation", fmt.Sprintf("*i8 + *i8 (operand forms %d,%d)", mc[0], mc[1]), func(o Outcome) (bool, string) {
					st := o.St
					var size, res string
					n := 0
					var copies [][3]string
					for _, e := range st.events() {
						switch e.Op {
						case "ir:Store":
							if q := st.norm(e.Args[1]).inner(); q.K == KPtr {
								if d := s.in.def(st, q); d != nil && d.S == "Alloca" {
									continue
								}
							}
							return false, "memory other than the new buffer is stored to: " + s.term(st, e.Args[1])
						case "ir:Call":
							switch s.term(st, e.Args[0]) {
							case "@malloc":
								n++
								size = s.term(st, e.Args[1])
								res = s.term(st, e.Res)
							case "@memcpy":
								copies = append(copies, [3]string{s.term(st, e.Args[1]), s.term(st, e.Args[2]), s.term(st, e.Args[3])})
							case "@strlen":
							default:
								return false, "unexpected call of " + s.term(st, e.Args[0])
							}
						}
					}
					if n != 1 {
						return false, fmt.Sprintf("%d buffers are allocated", n)
					}
					want := flatSum(ll, lr, "1")
					if flatSumOf(size) != want {
						return false, "the buffer has " + size + " bytes, expected both lengths plus one"
					}
					if len(copies) != 2 {
						return false, fmt.Sprintf("%d copies are made, expected 2", len(copies))
					}
					end := []string{"IntToPtr(" + bin("Add", "PtrToInt("+res+"->i64)", ll) + "->i8*)", "gep(" + res + "," + ll + ")"}
					gotL, gotR := false, false
					for i, c := range copies {
						switch {
						case c[0] == res && c[1] == L && c[2] == ll:
							gotL = true
						case c[0] == res && c[1] == L && flatSumOf(c[2]) == flatSum(ll, "1") && i == 0:
							gotL = true
						case (c[0] == end[0] || c[0] == end[1]) && c[1] == R && flatSumOf(c[2]) == flatSum(lr, "1"):
							gotR = true
						default:
							return false, fmt.Sprintf("unexpected copy of %s bytes from %s to %s", c[2], c[1], c[0])
						}
					}
					if !gotL || !gotR {
						return false, "one of the strings is not copied"
					}
					return oneOf(s.rv(o), []string{res})
				})
			}
		}})

	register(&Prop{id: "C11",
		explanation: "Abstract interpretation of the generator of @print for every printable type, operand form and argument count: the format string and the argument list of the printf call on every path are compared with the table of conversions.",
		rules:       []string{"the conversion of each argument fits its type's width and sign", "32-bit floats are promoted to double", "arguments are passed in order, separated by single blanks, none dropped", "structs print their name, strings their text, other pointers their address"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			type arg struct {
				name string
				fm   string
				val  func(x string) string
				mk   func(s *Scen) *CT
				mode []Mode
			}
			id := func(x string) string { return x }
			var kinds []arg
			for _, k := range castKinds() {
				k := k
				f := id
				if k.kind == "F" && k.bits == 32 {
					f = func(x string) string { return "FPExt(" + x + "->double)" }
				}
				kinds = append(kinds, arg{k.name, printFormat(k), f, k.mk, []Mode{LV, RV, RVF}})
			}
			kinds = append(kinds,
				arg{"*i8", "%s", id, func(s *Scen) *CT { return s.in.ptrTo(s.st, s.shared("I8")) }, []Mode{LV, RVF}},
				arg{"*i32", "%p", id, func(s *Scen) *CT { return s.in.ptrTo(s.st, s.shared("I32")) }, []Mode{LV, RVF}},
				arg{"**i8", "%p", id, func(s *Scen) *CT { return s.in.ptrTo(s.st, s.in.ptrTo(s.st, s.shared("I8"))) }, []Mode{LV, RVF}},
				arg{"struct", "%s", nil, func(s *Scen) *CT { return s.structT("Struct", "Point", []string{"a"}, s.shared("I32")) }, []Mode{LV, RVF, SLIT}},
			)
			check := func(ks []arg, ms []Mode) {
				s := NewScen(w, a)
				var ps []*Val
				var fms, names []string
				var want []string
				for i, k := range ks {
					n := fmt.Sprintf("P%d", i)
					ps = append(ps, s.addChild(n, k.mk(s), ms[i]))
					fms = append(fms, k.fm)
					names = append(names, k.name)
					if k.val == nil {
						want = append(want, "text Point")
					} else {
						want = append(want, k.val(operand(n, ms[i])))
					}
				}
				root := s.builtin("print", nil, s.shared("I32"), ps...)
				r.outcomes(s, s.run(a.compileExpr, root), "print", "@print("+strings.Join(names, ", ")+")", func(o Outcome) (bool, string) {
					fm, args, bad := printfArgs(s, o)
					if bad != "" {
						return false, bad
					}
					if w := strings.Join(fms, " "); fm != w {
						return false, fmt.Sprintf("the format is %q, expected %q", fm, w)
					}
					if len(args) != len(want) {
						return false, fmt.Sprintf("%d arguments for %d conversions", len(args), len(want))
					}
					for i := range args {
						g := args[i]
						if want[i] == "text Point" {
							g = "text " + cText(g)
						}
						if g != want[i] {
							return false, fmt.Sprintf("argument %d is %s, expected %s", i+1, g, want[i])
						}
					}
					return declsOf(s, o.St)
				})
			}
			check(nil, nil)
			for i, k := range kinds {
				for j, m := range k.mode {
					check([]arg{k}, []Mode{m})
					for _, k2 := range kinds {
						check([]arg{k, k2}, []Mode{m, k2.mode[j%len(k2.mode)]})
					}
					k2, k3 := kinds[(i+3)%len(kinds)], kinds[(i+7)%len(kinds)]
					check([]arg{k, k2, k3, k}, []Mode{m, k2.mode[0], k3.mode[0], m})
				}
			}
		}})
}

// blkOrCast accepts an address with or without the conversion to *i8 when the address has that type already.
func blkOrCast(s *Scen, o Outcome, fn, cast string) string {
	for _, e := range o.St.events() {
		if e.Op == "ir:Call" && s.term(o.St, e.Args[0]) == fn && len(e.Args) > 1 {
			if g := s.term(o.St, e.Args[1]); "BitCast("+g+"->i8*)" == cast || g == cast || cast == strings.TrimSuffix(strings.TrimPrefix(g, "BitCast("), "->i8*)") {
				if "BitCast("+g+"->i8*)" == cast && llName(s.in, o.St, s.in.typeOf(o.St, e.Args[1])) != "i8*" {
					return cast
				}
				return g
			}
		}
	}
	return cast
}

func flatSum(xs ...string) string {
	m := map[string]int{}
	for _, x := range xs {
		m[x]++
	}
	return fmt.Sprint(m)
}

// flatSumOf flattens nested Add terms into a multiset.
func flatSumOf(t string) string {
	m := map[string]int{}
	var walk func(t string)
	walk = func(t string) {
		if strings.HasPrefix(t, "Add(") && strings.HasSuffix(t, ")") {
			d := 0
			b := t[4 : len(t)-1]
			for i := range b {
				switch b[i] {
				case '(':
					d++
				case ')':
					d--
				case ',':
					if d == 0 {
						walk(b[:i])
						walk(b[i+1:])
						return
					}
				}
			}
		}
		m[t]++
	}
	walk(t)
	return fmt.Sprint(m)
}

var _ = token.NoPos
