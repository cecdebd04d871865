package main

// The printed tree. Programs of every construct are printed by following the printer over the complete syntax tree; the drawing
// is read back as a tree and compared with the program: every part is there once, in order, below the construct it belongs to,
// and programs that differ are printed differently.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type treeAnchors struct {
	program *ssa.Function // the text of a program
	write   *ssa.Function // reads a text, prints its tree
}

func (w *World) treeAnchors() *treeAnchors {
	r := &treeAnchors{}
	sp := w.ssaPkg("internals/tree_printer")
	if sp == nil {
		return r
	}
	progT := w.ptrTyp("internals/ast", "Program")
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !token.IsExported(f.Name()) {
			continue
		}
		s := f.Signature
		switch {
		case s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), progT) && s.Results().At(0).Type() == types.Typ[types.String]:
			r.program = f
		case s.Params().Len() == 2 && s.Params().At(0).Type() == types.Typ[types.String] && isIface(s.Params().At(1).Type()) && s.Results().Len() == 1:
			r.write = f
		}
	}
	return r
}

// fmtHook gives the texts of fmt and strconv for known arguments.
func fmtHook(c *CallCtx) ([]Outcome, bool) {
	st, in := c.st, c.in
	switch c.name {
	case "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.Quote":
	case "strings.Join":
		l, ok := in.elems(st, st.norm(c.args[0]))
		sep, ok2 := st.norm(c.args[1]).strConst()
		if !ok || !ok2 {
			return nil, false
		}
		var r []string
		for _, x := range l {
			t, ok := st.norm(x).strConst()
			if !ok {
				return nil, false
			}
			r = append(r, t)
		}
		return single(st, vStr(strings.Join(r, sep))), true
	default:
		return nil, false
	}
	var l []any
	for _, a := range in.flatten(st, c.args, strings.HasPrefix(c.name, "fmt.")) {
		a = st.norm(a).inner()
		if a.K != KConst {
			return nil, false
		}
		switch a.C.Kind() {
		case constant.String:
			l = append(l, constant.StringVal(a.C))
		case constant.Int:
			n, ok := constant.Int64Val(a.C)
			if !ok {
				return nil, false
			}
			l = append(l, n)
		case constant.Float:
			f, _ := constant.Float64Val(a.C)
			l = append(l, f)
		case constant.Bool:
			l = append(l, constant.BoolVal(a.C))
		default:
			return nil, false
		}
	}
	if len(l) == 0 {
		return nil, false
	}
	f, isText := l[0].(string)
	switch {
	case c.name == "fmt.Sprint":
		return single(st, vStr(fmt.Sprint(l...))), true
	case c.name == "fmt.Sprintf" && isText:
		return single(st, vStr(fmt.Sprintf(f, l[1:]...))), true
	case c.name == "strconv.Quote" && isText:
		return single(st, vStr(fmt.Sprintf("%q", f))), true
	case c.name == "strconv.FormatFloat" && len(l) == 4:
		f, ok1 := l[0].(float64)
		how, ok2 := l[1].(int64)
		prec, ok3 := l[2].(int64)
		bits, ok4 := l[3].(int64)
		if ok1 && ok2 && ok3 && ok4 {
			return single(st, vStr(strconv.FormatFloat(f, byte(how), int(prec), int(bits)))), true
		}
		return nil, false
	case strings.HasPrefix(c.name, "strconv.Format") && len(l) == 2:
		n, ok1 := l[0].(int64)
		base, ok2 := l[1].(int64)
		if ok1 && ok2 {
			return single(st, vStr(strconv.FormatInt(n, int(base)))), true
		}
		return nil, false
	case strings.HasPrefix(c.name, "strconv."):
		return single(st, vStr(fmt.Sprint(l[0]))), true
	}
	return nil, false
}

// ---- reading the drawing ---------------------------------------------------------------------------------------

type drawn struct {
	label string
	kids  []*drawn
}

func readDrawing(lines []string) (*drawn, error) {
	if len(lines) == 0 {
		return &drawn{}, nil
	}
	first := lines[0]
	i := strings.IndexAny(first, "═╦")
	if i < 0 {
		for _, l := range lines[1:] {
			if strings.ContainsAny(l, "═╦╠╚║") {
				return nil, fmt.Errorf("a line %q below the leaf %q", l, first)
			}
		}
		return &drawn{label: strings.Join(lines, "\n")}, nil
	}
	n := &drawn{label: first[:i]}
	w := utf8.RuneCountInString(n.label)
	conn, sz := utf8.DecodeRuneInString(first[i:])
	var groups [][]string
	groups = append(groups, []string{first[i+sz:]})
	open := conn == '╦'
	for _, l := range lines[1:] {
		rs := []rune(l)
		for len(rs) <= w {
			rs = append(rs, ' ')
		}
		if strings.TrimSpace(string(rs[:w])) != "" {
			return nil, fmt.Errorf("the line %q starts left of the node %q it belongs to", l, n.label)
		}
		rest := string(rs[w+1:])
		switch rs[w] {
		case '╠', '╚':
			if !open {
				return nil, fmt.Errorf("the line %q continues the node %q, which has ended", l, n.label)
			}
			open = rs[w] == '╠'
			groups = append(groups, []string{rest})
		case '║', ' ':
			if (rs[w] == '║') != open {
				return nil, fmt.Errorf("the line %q does not continue the node %q as it was begun", l, n.label)
			}
			groups[len(groups)-1] = append(groups[len(groups)-1], rest)
		default:
			return nil, fmt.Errorf("the line %q has no connector below that of the node %q", l, n.label)
		}
	}
	if open {
		return nil, fmt.Errorf("the parts of the node %q do not end", n.label)
	}
	for _, g := range groups {
		k, err := readDrawing(g)
		if err != nil {
			return nil, err
		}
		n.kids = append(n.kids, k)
	}
	return n, nil
}

// ---- what the program is made of -------------------------------------------------------------------------------

// part of a program: an atom, or a construct with the parts below it.
type part struct {
	v    *Val
	atom string
	kids []*part
}

func (p *part) atoms(out []string) []string {
	if p == nil {
		return out
	}
	if p.atom != "" {
		out = append(out, p.atom)
	}
	for _, k := range p.kids {
		out = k.atoms(out)
	}
	return out
}

// treeB builds a program and remembers its parts.
type treeB struct {
	s *Scen
	n int
}

func (b *treeB) fresh() string {
	b.n++
	return fmt.Sprintf("q%c%c", 'a'+(b.n/26)%26, 'a'+b.n%26)
}
func at(s string) *part            { return &part{atom: s} }
func pv(v *Val, ks ...*part) *part { return &part{v: v, kids: ks} }
func (b *treeB) id() *part         { n := b.fresh(); return &part{v: b.s.va(n), atom: n} }
func (b *treeB) ty() (*CT, *part)  { n := "T" + b.fresh(); return b.s.tNamed(n), at(n) }
func vals(ps []*part) (r []*Val) {
	for _, p := range ps {
		r = append(r, p.v)
	}
	return
}
func (b *treeB) blk(ps ...*part) *part { return pv(b.s.blk(vals(ps)...), ps...) }
func (b *treeB) xs() *part             { p := b.id(); return pv(b.s.xs(p.v), p) }

// fields below the reflection of mk: an absent part is nil
func optV(p *part) *Val {
	if p == nil {
		return nil
	}
	return p.v
}
func some(ps ...*part) (r []*part) {
	for _, p := range ps {
		if p != nil {
			r = append(r, p)
		}
	}
	return
}

func (b *treeB) elemList(typ, field string, vs ...*Val) *Val {
	et := b.s.in.fieldType2("internals/ast", typ, field).Underlying().(*types.Slice).Elem()
	return b.s.in.list(b.s.st, b.s.nextID(typ+"."+field), et, vs...)
}

type treeCase struct {
	name string
	mk   func(b *treeB) *part
	expr func(b *treeB) *part // the expression, of a statement that is one
}

func treeCases() []treeCase {
	var cs []treeCase
	add := func(group, name string, mk func(b *treeB) *part) {
		cs = append(cs, treeCase{name: group + ": " + name, mk: mk})
	}
	expr := func(group, name string, mk func(b *treeB) *part) {
		add(group, name, func(b *treeB) *part { p := mk(b); return pv(b.s.xs(p.v), p) })
		cs[len(cs)-1].expr = mk
	}
	sdecl := func(b *treeB, typ string, names []string, t *CT, e *part, constant bool) *Val {
		if t == nil {
			t = b.s.todo()
		}
		if typ == "DeclarationStatement" {
			return b.s.mk(typ, "Name", names[0], "Type", t, "Expression", e.v, "Constant", constant)
		}
		return b.s.mk(typ, "Names", names, "Type", t, "Expression", e.v, "Constant", constant)
	}
	// expressions
	for _, op := range []string{"AND", "OR", "BinaryAND", "BinaryOR", "BinaryXOR", "LeftShift", "RightShift", "Equals", "NotEquals", "GreaterThan", "GreaterThanEqual", "LessThan", "LessThanEqual", "Add", "Subtract", "Multiply", "Divide", "Modulo", "Dot"} {
		op := op
		expr("binary operation", op, func(b *treeB) *part {
			l, r := b.id(), b.id()
			return pv(b.s.bop(op, l.v, r.v), l, r)
		})
	}
	for _, op := range []string{"Multiply", "BinaryAND", "Subtract", "Bang", "AddOne", "SubtractOne"} {
		op := op
		expr("prefix operation", op, func(b *treeB) *part { r := b.id(); return pv(b.s.pop(op, r.v), r) })
	}
	expr("nesting", "operation on the left", func(b *treeB) *part {
		x, y, z := b.id(), b.id(), b.id()
		in := pv(b.s.bop("Add", x.v, y.v), x, y)
		return pv(b.s.bop("Add", in.v, z.v), in, z)
	})
	expr("nesting", "operation on the right", func(b *treeB) *part {
		x, y, z := b.id(), b.id(), b.id()
		in := pv(b.s.bop("Add", y.v, z.v), y, z)
		return pv(b.s.bop("Add", x.v, in.v), x, in)
	})
	expr("nesting", "operations on both sides", func(b *treeB) *part {
		x, y, z, v := b.id(), b.id(), b.id(), b.id()
		l, r := pv(b.s.bop("Add", x.v, y.v), x, y), pv(b.s.bop("Add", z.v, v.v), z, v)
		return pv(b.s.bop("Add", l.v, r.v), l, r)
	})
	expr("nesting", "element of a call", func(b *treeB) *part {
		f, x, y := b.id(), b.id(), b.id()
		c := pv(b.s.mk("Call", "Left", f.v, "Parameters", []*Val{x.v}), f, x)
		return pv(b.s.mk("IndexAccess", "Left", c.v, "Access", y.v), c, y)
	})
	expr("nesting", "call of an element", func(b *treeB) *part {
		f, x, y := b.id(), b.id(), b.id()
		c := pv(b.s.mk("IndexAccess", "Left", f.v, "Access", x.v), f, x)
		return pv(b.s.mk("Call", "Left", c.v, "Parameters", []*Val{y.v}), c, y)
	})
	num := func(kind string, bits int64, text string) func(b *treeB) *part {
		return func(b *treeB) *part {
			kind, tok, atom := kind, "INT", text
			if kind == "Char" {
				kind, tok, atom = "Integer", "CHAR", ""
			}
			t := b.s.in.num(b.s.st, kind, bits, b.s.nextID("n"))
			v := b.s.mk(map[string]string{"Integer": "Integer", "UInteger": "Integer", "Float": "Float"}[kind])
			if kind == "Float" {
				b.s.in.setField(b.s.st, v.inner(), "Value", vConst(constant.MakeFromLiteral(text, token.FLOAT, 0), types.Typ[types.Float64]))
			} else {
				b.s.in.setField(b.s.st, v.inner(), "Value", vConst(constant.MakeFromLiteral(text, token.INT, 0), types.Typ[types.Int64]))
			}
			b.s.in.set(b.s.st, v.inner(), "Node.Type", t.ct)
			tk := b.s.in.newObj(b.s.st, b.s.nextID("token"), b.s.in.w.typ("internals/token", "Token"))
			if c, ok := b.s.in.w.pkgConst("internals/token", tok); ok {
				b.s.in.setField(b.s.st, tk, "Type", c)
			}
			b.s.in.set(b.s.st, v.inner(), "Node.Token", b.s.st.content(tk.O))
			return &part{v: v, atom: atom}
		}
	}
	expr("number", "107", num("Integer", 32, "107"))
	expr("number", "108", num("Integer", 32, "108"))
	expr("number", "107 of 64 bits", num("Integer", 64, "107"))
	expr("number", "2.5", num("Float", 64, "2.5"))
	expr("number", "2.75", num("Float", 64, "2.75"))
	expr("number", "99 as a character", num("Char", 8, "99"))
	expr("number", "98 as a character", num("Char", 8, "98"))
	expr("number", "99 of 8 bits", num("Integer", 8, "99"))
	expr("number", "-5", num("Integer", 32, "-5"))
	expr("number", "9223372036854775807", num("Integer", 64, "9223372036854775807"))
	str := func(text, atom string) func(b *treeB) *part {
		return func(b *treeB) *part { return &part{v: b.s.mk("StringLiteral", "Value", text), atom: atom} }
	}
	expr("text", "a word", str("wordy", "wordy"))
	expr("text", "another word", str("words", "words"))
	expr("text", "empty", str("", `""`))
	expr("text", "a blank after the word", str("wordy ", "wordy"))
	expr("text", "a blank before the word", str(" wordy", "wordy"))
	expr("text", "a name is no text", func(b *treeB) *part { return &part{v: b.s.va("wordy"), atom: "wordy"} })
	expr("text", "two lines", str("wordy\nwordz", "wordy"))
	for n := 0; n <= 3; n++ {
		n := n
		expr("call", fmt.Sprintf("%d arguments", n), func(b *treeB) *part {
			f := b.id()
			ks := []*part{f}
			for i := 0; i < n; i++ {
				ks = append(ks, b.id())
			}
			return pv(b.s.mk("Call", "Left", f.v, "Parameters", vals(ks[1:])), ks...)
		})
		expr("list of expressions", fmt.Sprintf("%d expressions", n+1), func(b *treeB) *part {
			ks := []*part{}
			for i := 0; i <= n; i++ {
				ks = append(ks, b.id())
			}
			return pv(b.s.mk("CommaExpressions", "Expressions", vals(ks)), ks...)
		})
		expr("array literal", fmt.Sprintf("%d elements", n), func(b *treeB) *part {
			t, tp := b.ty()
			ks := []*part{tp}
			for i := 0; i < n; i++ {
				ks = append(ks, b.id())
			}
			v := b.s.mk("ArrayLiteral", "Values", vals(ks[1:]))
			b.s.in.set(b.s.st, v.inner(), "Node.Type", b.s.tArr(int64(n), t).ct)
			return pv(v, ks...)
		})
		for m := 0; m <= 2; m++ {
			m := m
			expr("builtin call", fmt.Sprintf("%d types %d arguments", m, n), func(b *treeB) *part {
				ks := []*part{at("qbuiltin")}
				var ts []*CT
				for i := 0; i < m; i++ {
					t, p := b.ty()
					ts, ks = append(ts, t), append(ks, p)
				}
				for i := 0; i < n; i++ {
					ks = append(ks, b.id())
				}
				return pv(b.s.mk("BuiltinCall", "Name", "qbuiltin", "TypeParameters", ts, "Parameters", vals(ks[1+m:])), ks...)
			})
		}
		for _, mod := range []string{"", "Qmod"} {
			mod := mod
			expr("struct literal", fmt.Sprintf("%d fields %s", n, mod), func(b *treeB) *part {
				name := "S" + b.fresh()
				ks := []*part{at(name)}
				if mod != "" {
					ks = []*part{at(mod), at(name)}
				}
				var vs []*Val
				for i := 0; i < n; i++ {
					f, x := b.fresh(), b.id()
					e := b.s.in.newObj(b.s.st, b.s.nextID("structvalue"), b.s.in.w.typ("internals/ast", "StructValue"))
					b.s.in.setField(b.s.st, e, "Name", vStr(f))
					b.s.in.setField(b.s.st, e, "Expression", x.v)
					sv := b.s.st.content(e.O)
					vs = append(vs, sv)
					ks = append(ks, pv(nil, at(f), x))
				}
				v := b.s.mk("StructLiteral", "Name", name, "Module", mod, "Values", b.elemList("StructLiteral", "Values", vs...))
				return pv(v, ks...)
			})
		}
	}
	expr("element", "of a name", func(b *treeB) *part {
		x, y := b.id(), b.id()
		return pv(b.s.mk("IndexAccess", "Left", x.v, "Access", y.v), x, y)
	})
	fparts := func(b *treeB, n int, ret bool) (names []string, ts []*CT, rt *CT, ks []*part) {
		for i := 0; i < n; i++ {
			nm := b.fresh()
			t, p := b.ty()
			names, ts = append(names, nm), append(ts, t)
			ks = append(ks, pv(nil, at(nm), p))
		}
		if ret {
			t, p := b.ty()
			rt, ks = t, append(ks, p)
		}
		return
	}
	for n := 0; n <= 2; n++ {
		for _, ret := range []bool{false, true} {
			for st := 0; st <= 2; st++ {
				n, ret, st := n, ret, st
				body := func(b *treeB) *part {
					var ps []*part
					for i := 0; i < st; i++ {
						ps = append(ps, b.xs())
					}
					return b.blk(ps...)
				}
				nm := fmt.Sprintf("%d parameters result %v %d statements", n, ret, st)
				expr("function expression", nm, func(b *treeB) *part {
					names, ts, rt, ks := fparts(b, n, ret)
					bl := body(b)
					v := b.s.lambda(rt, names, ts, vals(bl.kids)...)
					return pv(v, append(ks, bl.kids...)...)
				})
				for _, pub := range []bool{false, true} {
					pub := pub
					add("function", fmt.Sprintf("%s pub %v", nm, pub), func(b *treeB) *part {
						name := b.fresh()
						names, ts, rt, ks := fparts(b, n, ret)
						bl := body(b)
						v, _ := b.s.fnc(name, rt, names, ts, vals(bl.kids)...)
						b.s.in.set(b.s.st, v.inner(), "FunctionType.RedefineWithOriginalName", vBool(pub))
						ks = append([]*part{at(name)}, ks...)
						return pv(v, append(ks, bl.kids...)...)
					})
				}
			}
		}
	}
	expr("function expression", "result void pointer", func(b *treeB) *part {
		x := b.xs()
		return pv(b.s.lambda(b.s.tPtr(b.s.voidCT()), nil, nil, x.v), x)
	})
	for n := 0; n <= 2; n++ {
		n := n
		expr("block expression", fmt.Sprintf("%d statements", n), func(b *treeB) *part {
			t, tp := b.ty()
			var ps []*part
			for i := 0; i < n; i++ {
				ps = append(ps, b.xs())
			}
			v := b.s.mk("ExpressionBlock", "Block", b.s.blk(vals(ps)...))
			b.s.in.set(b.s.st, v.inner(), "Node.Type", t.ct)
			return pv(v, append([]*part{tp}, ps...)...)
		})
		add("block", fmt.Sprintf("%d statements", n), func(b *treeB) *part {
			var ps []*part
			for i := 0; i < n; i++ {
				ps = append(ps, b.xs())
			}
			return pv(b.s.mk("MacroBlock", "Block", b.s.blk(vals(ps)...)), ps...)
		})
	}
	add("block", "in a block", func(b *treeB) *part {
		x, y := b.xs(), b.xs()
		in := pv(b.s.mk("MacroBlock", "Block", b.s.blk(x.v)), x)
		return pv(b.s.mk("MacroBlock", "Block", b.s.blk(in.v, y.v)), in, y)
	})
	// declarations
	for _, typed := range []bool{false, true} {
		for _, cons := range []bool{false, true} {
			typed, cons := typed, cons
			for n := 1; n <= 3; n++ {
				n := n
				if n == 1 && typed && !cons {
					continue // one of the types below
				}
				add("declaration", fmt.Sprintf("%d names typed %v constant %v", n, typed, cons), func(b *treeB) *part {
					var names []string
					var ks []*part
					for i := 0; i < n; i++ {
						names = append(names, b.fresh())
						ks = append(ks, at(names[i]))
					}
					var t *CT
					if typed {
						tt, p := b.ty()
						t, ks = tt, append(ks, p)
					}
					e := b.id()
					if n > 1 {
						x := b.id()
						e = pv(b.s.mk("CommaExpressions", "Expressions", []*Val{e.v, x.v}), e, x)
					}
					typ := "DeclarationStatement"
					if n > 1 {
						typ = "MultipleDeclarationStatement"
					}
					return pv(sdecl(b, typ, names, t, e, cons), append(ks, e)...)
				})
			}
		}
	}
	tyCase := func(name string, mk func(b *treeB) (*CT, []*part)) {
		add("type", name, func(b *treeB) *part {
			n := b.fresh()
			t, ks := mk(b)
			e := b.id()
			return pv(sdecl(b, "DeclarationStatement", []string{n}, t, e, false), append(append([]*part{at(n)}, ks...), e)...)
		})
		add("defined type", name, func(b *treeB) *part {
			n := b.fresh()
			t, ks := mk(b)
			return pv(b.s.mk("TypeDefinition", "Name", n, "Type", t), append([]*part{at(n)}, ks...)...)
		})
	}
	for _, k := range []struct {
		kind string
		bits []int64
	}{{"Integer", []int64{1, 8, 16, 32, 64}}, {"UInteger", []int64{8, 16, 32, 64}}, {"Float", []int64{32, 64}}} {
		for _, n := range k.bits {
			kind, n := k.kind, n
			tyCase(fmt.Sprintf("%s %d", kind, n), func(b *treeB) (*CT, []*part) { return b.s.in.num(b.s.st, kind, n, b.s.nextID("n")), nil })
		}
	}
	named := func(f func(b *treeB, t *CT) *CT) func(b *treeB) (*CT, []*part) {
		return func(b *treeB) (*CT, []*part) { t, p := b.ty(); return f(b, t), []*part{p} }
	}
	tyCase("void", func(b *treeB) (*CT, []*part) { return b.s.voidCT(), nil })
	tyCase("name", named(func(b *treeB, t *CT) *CT { return t }))
	tyCase("name of a module", named(func(b *treeB, t *CT) *CT {
		b.s.in.setField(b.s.st, t.ct.inner(), "Modules", b.s.strs([]string{"Qmod"}))
		return t
	}))
	tyCase("name of a module of a module", named(func(b *treeB, t *CT) *CT {
		b.s.in.setField(b.s.st, t.ct.inner(), "Modules", b.s.strs([]string{"Qmod", "Qin"}))
		return t
	}))
	tyCase("pointer", named(func(b *treeB, t *CT) *CT { return b.s.tPtr(t) }))
	tyCase("pointer to pointer", named(func(b *treeB, t *CT) *CT { return b.s.tPtr(b.s.tPtr(t)) }))
	tyCase("array of 3", named(func(b *treeB, t *CT) *CT { return b.s.tArr(3, t) }))
	tyCase("array of 4", named(func(b *treeB, t *CT) *CT { return b.s.tArr(4, t) }))
	tyCase("array of pointers", named(func(b *treeB, t *CT) *CT { return b.s.tArr(3, b.s.tPtr(t)) }))
	tyCase("pointer to array", named(func(b *treeB, t *CT) *CT { return b.s.tPtr(b.s.tArr(3, t)) }))
	tyCase("function", named(func(b *treeB, t *CT) *CT { return b.s.tFunc(t) }))
	tyCase("function of a parameter", func(b *treeB) (*CT, []*part) {
		t, p := b.ty()
		u, q := b.ty()
		return b.s.tFunc(u, t), []*part{p, q}
	})
	tyCase("function of two parameters", func(b *treeB) (*CT, []*part) {
		t, p := b.ty()
		u, q := b.ty()
		v, r := b.ty()
		return b.s.tFunc(v, t, u), []*part{p, q, r}
	})
	tyCase("function without result", func(b *treeB) (*CT, []*part) {
		t, p := b.ty()
		return b.s.tFunc(b.s.voidCT(), t), []*part{p}
	})
	for _, kind := range []string{"Struct", "Union"} {
		for n := 0; n <= 3; n++ {
			kind, n := kind, n
			add("record", fmt.Sprintf("%s of %d fields", kind, n), func(b *treeB) *part {
				name := "R" + b.fresh()
				ks := []*part{at(name)}
				var names []string
				var ts []*CT
				for i := 0; i < n; i++ {
					f := b.fresh()
					t, p := b.ty()
					names, ts = append(names, f), append(ts, t)
					ks = append(ks, pv(nil, at(f), p))
				}
				_, d := b.s.tRec(kind, name, names, ts...)
				return pv(d, ks...)
			})
		}
	}
	for n := 0; n <= 2; n++ {
		for _, v := range []bool{false, true} {
			n, v := n, v
			add("external function", fmt.Sprintf("%d parameters variadic %v", n, v), func(b *treeB) *part {
				name := b.fresh()
				ks := []*part{at(name)}
				var ts []*CT
				for i := 0; i < n; i++ {
					t, p := b.ty()
					ts, ks = append(ts, t), append(ks, p)
				}
				rt, p := b.ty()
				f := b.s.tFunc(rt, ts...)
				b.s.in.setField(b.s.st, f.ct.inner(), "Name", vStr(name))
				b.s.in.setField(b.s.st, f.ct.inner(), "InfiniteParameters", vBool(v))
				return pv(b.s.mk("ExternStatement", "Type", f), append(ks, p)...)
			})
		}
		add("import", fmt.Sprintf("%d types", n), func(b *treeB) *part {
			name := b.fresh()
			ks := []*part{at(name)}
			var ts []*CT
			for i := 0; i < n; i++ {
				t, p := b.ty()
				ts, ks = append(ts, t), append(ks, p)
			}
			path := b.s.mk("StringLiteral", "Value", "dir/filex.cd")
			return pv(b.s.mk("ImportStatement", "Name", name, "Types", ts, "Path", path), append(ks, at("dir/filex.cd"))...)
		})
	}
	add("import", "another file", func(b *treeB) *part {
		name := b.fresh()
		path := b.s.mk("StringLiteral", "Value", "dir/filey.cd")
		return pv(b.s.mk("ImportStatement", "Name", name, "Path", path), at(name), at("dir/filey.cd"))
	})
	add("type parameter", "a name", func(b *treeB) *part {
		n := b.fresh()
		return pv(b.s.mk("GenericTypeDefinition", "Name", n), at(n))
	})
	// statements
	add("statement", "expression", func(b *treeB) *part { return b.xs() })
	add("statement", "assignment", func(b *treeB) *part {
		x, y := b.id(), b.id()
		return pv(b.s.asg(x.v, y.v), x, y)
	})
	add("statement", "assignment of lists", func(b *treeB) *part {
		x, y, z, v := b.id(), b.id(), b.id(), b.id()
		l := pv(b.s.mk("CommaExpressions", "Expressions", []*Val{x.v, y.v}), x, y)
		r := pv(b.s.mk("CommaExpressions", "Expressions", []*Val{z.v, v.v}), z, v)
		return pv(b.s.asg(l.v, r.v), l, r)
	})
	add("statement", "return of a value", func(b *treeB) *part { x := b.id(); return pv(b.s.ret(x.v), x) })
	add("statement", "return", func(b *treeB) *part { return pv(b.s.mk("ReturnStatement")) })
	add("statement", "break", func(b *treeB) *part { return pv(b.s.mk("BreakStatement")) })
	add("statement", "continue", func(b *treeB) *part { return pv(b.s.mk("ContinueStatement")) })
	for elifs := 0; elifs <= 2; elifs++ {
		for _, els := range []bool{false, true} {
			for n := 0; n <= 2; n += 1 {
				elifs, els, n := elifs, els, n
				add("if", fmt.Sprintf("%d else if, else %v, %d statements each", elifs, els, n), func(b *treeB) *part {
					body := func() *part {
						var ps []*part
						for i := 0; i < n; i++ {
							ps = append(ps, b.xs())
						}
						return b.blk(ps...)
					}
					c, t := b.id(), body()
					ks := []*part{c, t}
					var es []*Val
					for i := 0; i < elifs; i++ {
						ec, eb := b.id(), body()
						ks = append(ks, pv(nil, ec, eb))
						es = append(es, b.s.mk("ConditionPlusBlock", "Condition", ec.v, "Block", eb.v).inner())
					}
					var ev *part
					if els {
						ev = body()
						ks = append(ks, ev)
					}
					v := b.s.mk("IfStatement", "Condition", c.v, "Block", t.v, "ElseIfs", b.elemList("IfStatement", "ElseIfs", es...), "Else", optV(ev))
					return pv(v, ks...)
				})
			}
		}
	}
	for m := 0; m < 8; m++ {
		for n := 0; n <= 2; n++ {
			m, n := m, n
			add("for", fmt.Sprintf("initializer %v condition %v operation %v %d statements", m&1 > 0, m&2 > 0, m&4 > 0, n), func(b *treeB) *part {
				var i, c, o *part
				if m&1 > 0 {
					nm, e := b.fresh(), b.id()
					i = pv(sdecl(b, "DeclarationStatement", []string{nm}, nil, e, false), at(nm), e)
				}
				if m&2 > 0 {
					c = b.id()
				}
				if m&4 > 0 {
					x, y := b.id(), b.id()
					o = pv(b.s.asg(x.v, y.v), x, y)
				}
				var ps []*part
				for k := 0; k < n; k++ {
					ps = append(ps, b.xs())
				}
				bl := b.blk(ps...)
				v := b.s.mk("ForStatement", "Condition", optV(c), "InitializerStatement", optV(i), "Operation", optV(o), "Block", bl.v)
				return pv(v, some(i, c, o, bl)...)
			})
		}
	}
	for n := 0; n <= 3; n++ {
		for _, def := range []bool{false, true} {
			for k := 0; k <= 2; k++ {
				n, def, k := n, def, k
				if n == 0 && !def && k > 0 {
					continue
				}
				add("switch", fmt.Sprintf("%d cases default %v %d statements each", n, def, k), func(b *treeB) *part {
					body := func() *part {
						var ps []*part
						for i := 0; i < k; i++ {
							ps = append(ps, b.xs())
						}
						return b.blk(ps...)
					}
					c := b.id()
					ks := []*part{c}
					var cvs []*Val
					et := elemOf(b.s.in.fieldType2("internals/ast", "SwitchStatement", "Cases").Underlying().(*types.Slice).Elem())
					for i := 0; i < n; i++ {
						e, bl := b.id(), body()
						o := b.s.in.newObj(b.s.st, b.s.nextID("case"), et)
						b.s.in.setField(b.s.st, o, "Case", e.v)
						b.s.in.setField(b.s.st, o, "Block", bl.v.inner())
						cvs = append(cvs, o)
						ks = append(ks, pv(nil, e, bl))
					}
					var dv *part
					if def {
						dv = body()
						ks = append(ks, dv)
					}
					v := b.s.mk("SwitchStatement", "Condition", c.v, "Cases", b.elemList("SwitchStatement", "Cases", cvs...), "Default", optV(dv))
					return pv(v, ks...)
				})
			}
		}
	}
	return cs
}

// ---- the check -------------------------------------------------------------------------------------------------

func wordAt(s string, i int, w string) bool {
	letter := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
	}
	j := i + len(w)
	return (i == 0 || !letter(s[i-1]) || !letter(w[0])) && (j == len(s) || !letter(s[j]) || !letter(w[len(w)-1]))
}

func wordIndex(s, w string, from int) int {
	for from <= len(s) {
		i := strings.Index(s[from:], w)
		if i < 0 {
			return -1
		}
		if wordAt(s, from+i, w) {
			return from + i
		}
		from += i + 1
	}
	return -1
}

func (d *drawn) text(b *strings.Builder) {
	b.WriteString(d.label)
	b.WriteString("\n")
	for _, k := range d.kids {
		k.text(b)
	}
}

// covers: the words are below d, all of them, in the order of the program, and no other atom of the program is.
func (d *drawn) exactly(want []string, all map[string]bool) bool {
	var b strings.Builder
	d.text(&b)
	t := b.String()
	i := 0
	for _, w := range want {
		j := wordIndex(t, w, i)
		if j < 0 {
			return false
		}
		i = j + len(w)
	}
	in := map[string]bool{}
	for _, w := range want {
		in[w] = true
	}
	for a := range all {
		if !in[a] && wordIndex(t, a, 0) >= 0 {
			return false
		}
	}
	return true
}

func (d *drawn) find(want []string, all map[string]bool) bool {
	if d.exactly(want, all) {
		return true
	}
	for _, k := range d.kids {
		if k.find(want, all) {
			return true
		}
	}
	return false
}

// missing is a construct of the program no node of the drawing shows with exactly its parts.
func (p *part) missing(d *drawn, all map[string]bool) *part {
	if as := p.atoms(nil); len(p.kids) > 0 && len(as) > 0 && !d.find(as, all) {
		return p
	}
	for _, k := range p.kids {
		if m := k.missing(d, all); m != nil {
			return m
		}
	}
	return nil
}

func newTree(w *World, a *Anchors) *Scen {
	in := NewInterp(w)
	s := &Scen{in: in, a: a, st: newState(w.globalHeap), child: map[string]*Child{}, evals: map[string]int{}, rootIn: map[string]bool{}}
	in.hooks = []Hook{fmtHook, modelHook}
	return s
}

// printed is the text of a program of the statements.
func (s *Scen) printed(ta *treeAnchors, ps ...*part) []Outcome {
	prog := s.mk("Program", "Statements", vals(ps)).inner()
	return s.in.Call(ta.program, []*Val{prog}, nil, s.st, "print", 0)
}

func init() {
	register(&Prop{id: "C41", explanation: "the printer of syntax trees is followed over complete programs, and its drawing is read back", rules: []string{"drawing", "parts", "distinct", "output"}, assumptions: []string{"the string functions of Go's library work as documented"}, run: runTree})
}

func runTree(w *World, a *Anchors, r *Report) {
	ta := w.treeAnchors()
	if ta.program == nil || ta.write == nil {
		r.Ob(false, "anchors", "tree printer", token.NoPos, "no function that prints a program was found")
		return
	}
	pos := ta.program.Pos()
	texts := map[string]map[string]string{} // group -> text -> case
	one := func(name, group string, mk func(b *treeB) []*part) {
		s := newTree(w, a)
		b := &treeB{s: s}
		ps := mk(b)
		outs := s.printed(ta, ps...)
		r.Analysed(s.in)
		if s.in.budgetHit {
			return
		}
		text, ok := "", len(outs) == 1 && outs[0].Kind == ORet
		if ok {
			text, ok = outs[0].St.norm(outs[0].Res).strConst()
			if !ok {
				dbg("%s: %s", name, outs[0].St.norm(outs[0].Res).Key())
				r.Ob(false, "budget", name, pos, "the printed text is not known")
				return
			}
		}
		if len(outs) == 0 {
			r.Ob(false, "budget", name, pos, "no path to the end")
			return
		}
		for _, o := range outs {
			if o.Kind != ORet {
				r.Ob(false, "drawing", name, o.Pos, "printing ends in %s", o.Msg)
				return
			}
		}
		if !ok {
			r.Ob(false, "budget", name, pos, "%d ways to print", len(outs))
			return
		}
		dbg("%s:\n%s", name, text)
		d, err := readDrawing(strings.Split(text, "\n"))
		if !strings.Contains(name, "two lines") {
			r.Ob(err == nil, "drawing", name, pos, "the drawing is not a tree: %v in\n%s", err, text)
			if err != nil {
				return
			}
			all := map[string]bool{}
			root := &part{kids: ps}
			for _, x := range root.atoms(nil) {
				all[x] = true
			}
			m := root.missing(d, all)
			what := ""
			if m != nil {
				what = strings.Join(m.atoms(nil), " ")
			}
			r.Ob(m == nil, "parts", name, pos, "no node shows the construct of the parts %q, all of them and in order, in\n%s", what, text)
			if m == nil {
				// no part twice
				for x := range all {
					i := wordIndex(text, x, 0)
					j := wordIndex(text, x, i+1)
					r.Ob(j < 0, "parts", name, pos, "the part %q is shown twice in\n%s", x, text)
				}
			}
		}
		g := texts[group]
		if g == nil {
			g = map[string]string{}
			texts[group] = g
		}
		other, dup := g[text]
		r.Ob(!dup, "distinct", name, pos, "printed like the program %q:\n%s", other, text)
		g[text] = name
	}
	cases := treeCases()
	for _, c := range cases {
		c := c
		one(c.name, "all", func(b *treeB) []*part { return []*part{c.mk(b)} })
	}
	one("empty program", "all", func(b *treeB) []*part { return nil })
	// in sequence, and in constructs
	for i := 0; i+1 < len(cases); i++ {
		if !r.thorough && i%4 != 0 {
			continue
		}
		c, e := cases[i], cases[(i+len(cases)/2)%len(cases)]
		if strings.Contains(c.name+e.name, "two lines") || strings.Contains(c.name+e.name, "text") && strings.Contains(c.name+e.name, "word") {
			continue
		}
		one("sequence of "+c.name+" and "+e.name, "sequences", func(b *treeB) []*part {
			return []*part{c.mk(b), e.mk(b)}
		})
	}
	for i, c := range cases {
		c := c
		for j, n := range treeNests {
			if !r.thorough && (i+j)%3 != 0 {
				continue
			}
			if n.stmt == (c.expr != nil) && !strings.HasPrefix(c.name, "function expression") {
				continue
			}
			n := n
			one(c.name+" "+n.name, n.name, func(b *treeB) []*part {
				if n.stmt {
					return []*part{n.mk(b, c.mk(b))}
				}
				return []*part{n.mk(b, c.expr(b))}
			})
		}
	}
	runTreeWrite(w, a, r, ta)
}

// treeNests are the places the other constructs are put in.
var treeNests = []struct {
	name string
	stmt bool
	mk   func(b *treeB, p *part) *part
}{
	{"as left operand", false, func(b *treeB, p *part) *part {
		x := b.id()
		e := pv(b.s.bop("Subtract", p.v, x.v), p, x)
		return pv(b.s.xs(e.v), e)
	}},
	{"as right operand", false, func(b *treeB, p *part) *part {
		x := b.id()
		e := pv(b.s.bop("Subtract", x.v, p.v), x, p)
		return pv(b.s.xs(e.v), e)
	}},
	{"as operand", false, func(b *treeB, p *part) *part {
		e := pv(b.s.pop("Bang", p.v), p)
		return pv(b.s.xs(e.v), e)
	}},
	{"as argument", false, func(b *treeB, p *part) *part {
		f, x := b.id(), b.id()
		e := pv(b.s.mk("Call", "Left", f.v, "Parameters", []*Val{p.v, x.v}), f, p, x)
		return pv(b.s.xs(e.v), e)
	}},
	{"as called function", false, func(b *treeB, p *part) *part {
		x := b.id()
		e := pv(b.s.mk("Call", "Left", p.v, "Parameters", []*Val{x.v}), p, x)
		return pv(b.s.xs(e.v), e)
	}},
	{"as indexed expression", false, func(b *treeB, p *part) *part {
		x := b.id()
		e := pv(b.s.mk("IndexAccess", "Left", p.v, "Access", x.v), p, x)
		return pv(b.s.xs(e.v), e)
	}},
	{"as value of a variable", false, func(b *treeB, p *part) *part {
		n := b.fresh()
		return pv(b.s.vdecl(n, nil, p.v, false), at(n), p)
	}},
	{"as place to assign to", false, func(b *treeB, p *part) *part {
		x := b.id()
		return pv(b.s.asg(p.v, x.v), p, x)
	}},
	{"as assigned value", false, func(b *treeB, p *part) *part {
		x := b.id()
		return pv(b.s.asg(x.v, p.v), x, p)
	}},
	{"as result", false, func(b *treeB, p *part) *part { return pv(b.s.ret(p.v), p) }},
	{"as condition", false, func(b *treeB, p *part) *part {
		x := b.xs()
		return pv(b.s.mk("IfStatement", "Condition", p.v, "Block", b.blk(x).v), p, x)
	}},
	{"as condition of a loop", false, func(b *treeB, p *part) *part {
		x := b.xs()
		return pv(b.s.mk("ForStatement", "Condition", p.v, "Block", b.blk(x).v), p, x)
	}},
	{"as condition of a switch", false, func(b *treeB, p *part) *part {
		x := b.xs()
		return pv(b.s.mk("SwitchStatement", "Condition", p.v, "Default", b.blk(x).v), p, x)
	}},
	{"in a function", true, func(b *treeB, p *part) *part {
		n, x := b.fresh(), b.xs()
		v, _ := b.s.fnc(n, nil, nil, nil, p.v, x.v)
		return pv(v, at(n), p, x)
	}},
	{"in a function expression", true, func(b *treeB, p *part) *part {
		x := b.xs()
		e := pv(b.s.lambda(nil, nil, nil, x.v, p.v), x, p)
		return pv(b.s.xs(e.v), e)
	}},
	{"in a branch", true, func(b *treeB, p *part) *part {
		c, x := b.id(), b.xs()
		return pv(b.s.mk("IfStatement", "Condition", c.v, "Block", b.blk(p).v, "Else", b.blk(x).v), c, p, x)
	}},
	{"in an else branch", true, func(b *treeB, p *part) *part {
		c, x, y := b.id(), b.xs(), b.xs()
		return pv(b.s.mk("IfStatement", "Condition", c.v, "Block", b.blk(x).v, "Else", b.blk(p, y).v), c, x, p, y)
	}},
	{"in a loop", true, func(b *treeB, p *part) *part {
		c, x := b.id(), b.xs()
		return pv(b.s.mk("ForStatement", "Condition", c.v, "Block", b.blk(p, x).v), c, p, x)
	}},
	{"as operation of a loop", true, func(b *treeB, p *part) *part {
		c, x := b.id(), b.xs()
		return pv(b.s.mk("ForStatement", "Condition", c.v, "Operation", p.v, "Block", b.blk(x).v), c, p, x)
	}},
	{"in the default of a switch", true, func(b *treeB, p *part) *part {
		c := b.id()
		return pv(b.s.mk("SwitchStatement", "Condition", c.v, "Default", b.blk(p).v), c, p)
	}},
	{"in a block", true, func(b *treeB, p *part) *part {
		x := b.xs()
		return pv(b.s.mk("MacroBlock", "Block", b.s.blk(p.v, x.v)), p, x)
	}},
}

// runTreeWrite: a text is read and its tree written once; a text with errors gives an error.
func runTreeWrite(w *World, a *Anchors, r *Report, ta *treeAnchors) {
	pa := w.parseAnchors()
	if pa == nil || pa.parse == nil {
		r.Ob(false, "anchors", "parser", token.NoPos, "no parser was found")
		return
	}
	for n := 0; n <= 2; n++ {
		n := n
		s := newTree(w, a)
		in := s.in
		var errs []*Val
		for i := 0; i < n; i++ {
			errs = append(errs, vIface(w.errType(), vSym(fmt.Sprintf("fault%d", i), w.errType())))
		}
		in.hooks = []Hook{func(c *CallCtx) ([]Outcome, bool) {
			st := c.st
			switch {
			case c.fn == ta.program:
				return single(st, vTerm("tree-text", c.rt, st.norm(c.args[0]))), true
			case c.fn == pa.newFn:
				o := in.obj("parser"+c.ctx, elemOf(c.rt), true)
				st.heap[o] = zeroVal(o.T)
				return single(st, vPtr(o)), true
			case c.fn == pa.parse:
				p := st.norm(c.args[0])
				et := w.errType()
				if i := fieldIndex(elemOf(a.parsT), "Errors"); i >= 0 {
					et = elemOf(a.parsT).Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice).Elem()
				}
				in.setField(st, p, "Errors", in.list(st, "faults", et, errs...))
				return single(st, vPtr(in.obj("program", elemOf(c.rt), true))), true
			case strings.HasSuffix(c.name, ".Write") && len(c.args) >= 1:
				st.emit(&Event{Op: "write", Args: []*Val{c.args[len(c.args)-1]}})
				ok := st.clone()
				bad := st
				return []Outcome{{St: ok, Res: tuple(vSym("written", types.Typ[types.Int]), vNil(errorI))}, {St: bad, Res: tuple(vInt(0), vIface(w.errType(), vSym("write-failure", w.errType())))}}, true
			}
			return nil, false
		}, fmtHook, modelHook}
		wt := ta.write.Signature.Params().At(1).Type()
		name := fmt.Sprintf("text with %d errors", n)
		outs := in.Call(ta.write, []*Val{vSym("text", types.Typ[types.String]), vSym("out", wt)}, nil, s.st, "write", 0)
		r.Analysed(in)
		for _, o := range outs {
			if o.Kind != ORet {
				r.Ob(false, "output", name, o.Pos, "ends in %s", o.Msg)
				continue
			}
			writes, failed := 0, false
			whole := true
			for _, e := range o.St.events() {
				if e.Op == "write" {
					writes++
					k := o.St.norm(e.Args[0]).Key()
					whole = whole && strings.Contains(k, "tree-text")
				}
			}
			res := o.St.norm(o.Res)
			failed = strings.Contains(res.Key(), "write-failure")
			r.Ob(writes == 1 && whole, "output", name, ta.write.Pos(), "the tree is written %d times", writes)
			if !failed {
				r.Ob((res.K == KNil) == (n == 0), "output", name, ta.write.Pos(), "returns %s", res.Key())
			}
		}
	}
}

// pkgConst is a constant of a package, with its type.
func (w *World) pkgConst(pkg, name string) (*Val, bool) {
	p := w.byPath[modPath+"/"+pkg]
	if p == nil {
		return nil, false
	}
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil, false
	}
	return vConst(c.Val(), c.Type()), true
}
