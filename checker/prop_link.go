package main

// Names of the generated functions and variables: which functions a module of LLVM has after the programs of one or several files were
// generated, under which names, and what their bodies refer to.

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
)

// pubFn makes a function public, the way the parser does.
func (s *Scen) pubFn(short string, f *Val) *Val {
	t := s.in.field(s.st, f, "FunctionType")
	s.in.setField(s.st, t, "ExternalName", vStr(short))
	s.in.setField(s.st, t, "RedefineWithOriginalName", vBool(true))
	return f
}

func (s *Scen) externFn(short, id string, variadic bool, ret *CT, params ...*CT) *Val {
	ft := s.tFunc(ret, params...)
	in := ft.ct.inner()
	s.in.setField(s.st, in, "Name", vStr(short+"-"+id))
	s.in.setField(s.st, in, "ExternalName", vStr(short))
	var ns []string
	for i := range params {
		ns = append(ns, fmt.Sprintf("a%d-%s", i, id))
	}
	s.in.setField(s.st, in, "Names", s.strs(ns))
	s.in.setField(s.st, in, "InfiniteParameters", vBool(variadic))
	return s.mk("ExternStatement", "Type", ft)
}

// mark is an expression statement by which the body of a function is recognised afterwards.
func (s *Scen) mark(m string) *Val { return s.xs(s.addChild("mark:"+m, s.shared("I8"), LV)) }

// valueM is the value of a variable that is recognised afterwards.
func (s *Scen) valueM(m string, t *CT) *Val { return s.addChild("mark:"+m, t, LV) }

// linkFn is what is wanted of the functions whose body has a mark.
type linkFn struct {
	mark string
	name string   // it has to have exactly this name; "" is any
	sig  string   // "" is any
	refs []string // what it calls and which variables it reads, in order; nil is anything
	rets []string // what it returns; nil is anything
}

type linkCase struct {
	name    string
	files   map[string]module
	main    func(s *Scen) []*Val
	valid   bool
	fns     []linkFn
	externs map[string]string // name -> signature
	once    []string          // marks of bodies generated once
}

type genFn struct {
	name, sig string
	f         *Val
	ev        *Event
	blocks    []*Obj
	marks     []string
}

func (s *Scen) generated(st *State) []*genFn {
	var r []*genFn
	in := map[*Obj][]*genFn{}
	for _, e := range st.events() {
		if e.Op != "newfunc" {
			continue
		}
		f := st.norm(e.Res)
		g := &genFn{f: f, ev: e, blocks: s.members(st, f), sig: funcSig(s, st, e)}
		g.name = strings.Trim(st.norm(e.Args[0]).Key(), "\"")
		if gi := s.in.field(st, f, "GlobalIdent"); gi != nil {
			if n := s.in.field(st, gi, "GlobalName"); n != nil {
				g.name = strings.Trim(st.norm(n).Key(), "\"")
			}
		}
		for _, b := range g.blocks {
			in[b] = append(in[b], g)
		}
		r = append(r, g)
	}
	for _, e := range st.events() {
		if (e.Op == "eval" || e.Op == "evalconst") && e.Blk != nil {
			if k := e.Args[0].S; strings.HasPrefix(k, "mark:") {
				for _, g := range in[e.Blk] {
					g.marks = append(g.marks, k[5:])
				}
			}
		}
	}
	return r
}

// refsOf lists the functions a generated function calls or takes, and the variables it reads.
func (s *Scen) refsOf(st *State, g *genFn, all []*genFn) []string {
	here := map[*Obj]bool{}
	for _, b := range g.blocks {
		here[b] = true
	}
	byObj := map[*Obj]*genFn{}
	for _, x := range all {
		byObj[x.f.inner().O] = x
	}
	globals := map[*Obj]*Event{}
	for _, e := range st.events() {
		if e.Op == "newglobal" && e.Res != nil {
			if p := st.norm(e.Res).inner(); p.K == KPtr {
				globals[p.O] = e
			}
		}
	}
	// the mark of a value a variable starts with, also when it is in another variable
	var initMark func(v *Val, depth int) string
	initMark = func(v *Val, depth int) string {
		if v == nil || depth > 9 {
			return ""
		}
		v = st.norm(v).inner()
		switch v.K {
		case KSym:
			if i := strings.Index(v.S, "mark:"); i >= 0 {
				return strings.SplitN(v.S[i+5:], "#", 2)[0]
			}
		case KPtr:
			if x := globals[v.O]; x != nil {
				return initMark(x.Args[1], depth+1)
			}
			if d := st.attrs["def:"+v.O.ID]; d != nil {
				return initMark(d, depth+1)
			}
		case KTerm:
			for _, a := range v.A {
				if m := initMark(a, depth+1); m != "" {
					return m
				}
			}
		}
		return ""
	}
	var r []string
	seen := func(v *Val) {
		if v == nil {
			return
		}
		v = st.norm(v).inner()
		if v.K != KPtr {
			return
		}
		if x := byObj[v.O]; x != nil {
			switch {
			case len(x.marks) > 0:
				r = append(r, x.marks[0])
			default:
				r = append(r, "extern "+x.name)
			}
		}
		if x := globals[v.O]; x != nil {
			if m := initMark(x.Args[1], 0); m != "" {
				r = append(r, m)
			}
		}
	}
	for _, e := range st.events() {
		if e.Blk == nil || !here[e.Blk] {
			continue
		}
		switch e.Op {
		case "ir:Call":
			seen(e.Args[0])
		case "ir:Load":
			seen(e.Args[len(e.Args)-1])
		case "ir:Store":
			seen(e.Args[0])
		}
	}
	return r
}

func (c *linkCase) check(w *World, a *Anchors, ca *compAnchors, s *Scen, o Outcome) (bool, string) {
	g, outs := s.compiled(ca, o)
	for _, k := range outs {
		switch k.Kind {
		case OPanic:
			return false, fmt.Sprintf("the code generator crashes at %s: %s", w.pos(k.Pos), k.Msg)
		case OExit:
			return false, fmt.Sprintf("the code generator gives up at %s: %s", w.pos(k.Pos), k.Msg)
		case ORet:
		default:
			continue
		}
		if ok, d := c.linked(g, k); !ok {
			return false, d
		}
	}
	if len(outs) == 0 {
		return false, "no path through the code generator ends"
	}
	return true, ""
}

func (c *linkCase) linked(s *Scen, o Outcome) (bool, string) {
	st := o.St
	if ok, d := wellFormed(s, o); !ok {
		return false, d
	}
	fns := s.generated(st)
	names := map[string]bool{}
	for _, g := range fns {
		if names[g.name] {
			return false, "two functions get the name " + g.name
		}
		names[g.name] = true
		local := map[string]bool{}
		for _, b := range g.blocks {
			if n := st.attrs["name:"+b.ID]; n != nil && st.norm(n).K == KConst {
				k := st.norm(n).Key()
				if local[k] {
					return false, "two blocks of the function " + g.name + " get the name " + k
				}
				local[k] = true
			}
		}
	}
	tnames := map[string]bool{}
	for _, e := range st.events() {
		switch e.Op {
		case "newglobal":
			n := strings.Trim(st.norm(e.Args[0]).Key(), "\"")
			if names[n] {
				return false, "a variable gets the name " + n + ", which something else has"
			}
			names[n] = true
		case "newtypedef":
			n := strings.Trim(st.norm(e.Args[0]).Key(), "\"")
			if tnames[n] {
				return false, "two types get the name " + n
			}
			tnames[n] = true
		}
	}
	for n, sig := range c.externs {
		var found *genFn
		for _, g := range fns {
			if g.name == n {
				found = g
			}
		}
		if found == nil {
			return false, "the external function " + n + " is not declared under its name"
		}
		if len(found.blocks) > 0 {
			return false, "the external function " + n + " is given a body"
		}
		if found.sig != sig {
			return false, fmt.Sprintf("the external function %s is declared as %s instead of %s", n, found.sig, sig)
		}
	}
	for _, x := range c.fns {
		var with []*genFn
		for _, g := range fns {
			if contains(g.marks, x.mark) && (x.name == "" || g.name == x.name) {
				with = append(with, g)
			}
		}
		if len(with) == 0 {
			d := "no function has the body of " + x.mark
			if x.name != "" {
				d += " under the name " + x.name
			}
			return false, d
		}
		for _, g := range with {
			if n := uniqSorted(g.marks); len(n) != 1 {
				return false, fmt.Sprintf("the function %s has the bodies of %s", g.name, strings.Join(n, " and "))
			}
			if x.sig != "" && g.sig != x.sig {
				return false, fmt.Sprintf("the function %s is %s instead of %s", g.name, g.sig, x.sig)
			}
			if x.refs != nil {
				if got := s.refsOf(st, g, fns); fmt.Sprint(got) != fmt.Sprint(x.refs) {
					return false, fmt.Sprintf("the function %s refers to %v instead of %v", g.name, got, x.refs)
				}
			}
			if ok, d := s.ownParams(st, g); !ok {
				return false, d
			}
			if x.rets != nil {
				got, bad := s.returned(o, g.blocks[0], 9)
				if bad != "" {
					return false, g.name + ": " + bad
				}
				var l []string
				for _, v := range got {
					l = append(l, v)
				}
				l = uniqSorted(l)
				if fmt.Sprint(l) != fmt.Sprint(x.rets) {
					return false, fmt.Sprintf("the function %s returns %v instead of %v", g.name, l, x.rets)
				}
			}
		}
	}
	for _, m := range c.once {
		n := 0
		for _, e := range st.events() {
			if (e.Op == "eval" || e.Op == "evalconst") && e.Args[0].S == "mark:"+m {
				n++
			}
		}
		if n != 1 {
			return false, fmt.Sprintf("%s is generated %d times", m, n)
		}
	}
	return true, ""
}

// ownParams: the parameters that the body of a function stores are the ones of that function, each in its place.
func (s *Scen) ownParams(st *State, g *genFn) (bool, string) {
	ps, ok := s.in.elems(st, s.in.field(st, g.f, "Params"))
	if !ok {
		return true, ""
	}
	type par struct{ name, ty string }
	mine := map[par]int{}
	for _, p := range ps {
		p = st.norm(p).inner()
		if p.K == KPtr {
			n := "" // a parameter without a name has a number
			if v := st.attrs["name:"+p.O.ID]; v != nil {
				n = st.norm(v).Key()
			}
			mine[par{n, llName(s.in, st, s.in.typeOf(st, p))}]++
		}
	}
	here := map[*Obj]bool{}
	for _, b := range g.blocks {
		here[b] = true
	}
	for _, e := range st.events() {
		if e.Blk == nil || !here[e.Blk] || !strings.HasPrefix(e.Op, "ir:") {
			continue
		}
		for _, v := range e.Args {
			v = st.norm(v).inner()
			if v.K != KPtr || st.attrs["def:"+v.O.ID] == nil || !strings.HasPrefix(st.attrs["def:"+v.O.ID].Key(), "param(") {
				continue
			}
			n := st.norm(st.attrs["name:"+v.O.ID]).Key()
			if mine[par{n, llName(s.in, st, s.in.typeOf(st, v))}] == 0 {
				return false, fmt.Sprintf("the body of the function %s uses the parameter %s of another function", g.name, n)
			}
		}
	}
	return true, ""
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func uniqSorted(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range l {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

func linkCases() []*linkCase {
	var r []*linkCase
	add := func(c *linkCase) { r = append(r, c) }
	i32 := func(s *Scen) *CT { return s.shared("I32") }
	i64 := func(s *Scen) *CT { return s.shared("I64") }
	fn := func(s *Scen, name, mark string, ret *CT, stmts ...*Val) *Val {
		f, _ := s.fnc(name, ret, nil, nil, append([]*Val{s.mark(mark)}, stmts...)...)
		return f
	}
	call := func(s *Scen, name string) *Val { return s.xs(s.callE(s.va(name))) }
	mainF := func(s *Scen, stmts ...*Val) *Val { return fn(s, "main", "main", nil, stmts...) }
	// a module with a function, a variable and a type that have the same names everywhere
	same := func(tag string, inner ...string) module {
		return func(s *Scen, id string, ts []*Val) []*Val {
			var l []*Val
			for i, f := range inner {
				l = append(l, s.imp(fmt.Sprintf("in%d-%s", i, id), f))
			}
			_, d := s.tRec("Struct", "P-"+id, []string{"v"}, i32(s))
			own := []*Val{call(s, "f-"+id), s.vdecl("y-"+id, nil, s.va("x-"+id), false)}
			for i := range inner {
				m := fmt.Sprintf("in%d-%s", i, id)
				own = append(own, s.xs(s.callE(s.of(m, "f-"+id))), s.vdecl(fmt.Sprintf("z%d-%s", i, id), nil, s.of(m, "x-"+id), false))
			}
			mk, _ := s.fnc("mk-"+id, s.tPtr(s.tNamed("P-"+id)), []string{"p-" + id}, []*CT{s.tPtr(s.tNamed("P-" + id))}, s.mark(tag+".mk"), s.ret(s.va("p-"+id)))
			return append(l, d, s.vdecl("x-"+id, i32(s), s.valueM(tag+".x", i32(s)), false), fn(s, "f-"+id, tag+".f", nil), fn(s, "g-"+id, tag+".g", nil, own...), mk)
		}
	}
	refs := func(tag string, inner ...string) []string {
		l := []string{tag + ".f", tag + ".x"}
		for _, i := range inner {
			l = append(l, i+".f", i+".x")
		}
		return l
	}
	want := func(tag string, inner ...string) []linkFn {
		return []linkFn{{mark: tag + ".f", refs: []string{}}, {mark: tag + ".g", refs: refs(tag, inner...)}, {mark: tag + ".mk"}}
	}
	all := func(ls ...[]linkFn) []linkFn {
		var r []linkFn
		for _, l := range ls {
			r = append(r, l...)
		}
		return r
	}
	uses := func(s *Scen, ms ...string) []*Val {
		var l []*Val
		for i, m := range ms {
			f, x := s.va("f-id"), s.va("x-id")
			if m != "" {
				f, x = s.of(m, "f-id"), s.of(m, "x-id")
			}
			l = append(l, s.xs(s.callE(f)), s.vdecl(fmt.Sprintf("u%d-id", i), nil, x, false), s.vdecl(fmt.Sprintf("h%d-id", i), nil, cloneRef(s, m), false))
		}
		return l
	}
	used := func(tags ...string) []string {
		l := []string{}
		for _, t := range tags {
			l = append(l, t+".f", t+".x", t+".f")
		}
		return l
	}
	for _, last := range []bool{false, true} {
		last := last
		tops := func(s *Scen, imps, own []*Val) []*Val {
			if last {
				return append(append([]*Val{}, own...), imps...)
			}
			return append(append([]*Val{}, imps...), own...)
		}
		n := fmt.Sprintf(", imports last %v", last)
		add(&linkCase{name: "three modules with the same names" + n, valid: true, files: map[string]module{"/work/a.cd": same("a"), "/work/b.cd": same("b")}, fns: all([]linkFn{{mark: "main", name: "main", sig: "i32()", refs: used("root", "a", "b")}}, want("root"), want("a"), want("b")), main: func(s *Scen) []*Val {
			return tops(s, []*Val{s.imp("a-id", "a.cd"), s.imp("b-id", "b.cd")}, append(same("root")(s, "id", nil), mainF(s, uses(s, "", "a-id", "b-id")...)))
		}})
		add(&linkCase{name: "modules one behind the other with the same names" + n, valid: true, files: map[string]module{"/work/a.cd": same("a", "b.cd"), "/work/b.cd": same("b", "c.cd"), "/work/c.cd": same("c")}, fns: all([]linkFn{{mark: "main", name: "main", sig: "i32()", refs: used("root", "a")}}, want("root"), want("a", "b"), want("b", "c"), want("c")), main: func(s *Scen) []*Val {
			return tops(s, []*Val{s.imp("a-id", "a.cd")}, append(same("root")(s, "id", nil), mainF(s, uses(s, "", "a-id")...)))
		}})
		add(&linkCase{name: "a module imported by three" + n, valid: true, once: []string{"c.f", "c.x", "c.g", "c.mk"}, files: map[string]module{"/work/a.cd": same("a", "c.cd"), "/work/b.cd": same("b", "c.cd"), "/work/c.cd": same("c")}, fns: all([]linkFn{{mark: "main", name: "main", refs: used("a", "c", "b", "root")}}, want("root"), want("a", "c"), want("b", "c"), want("c")), main: func(s *Scen) []*Val {
			return tops(s, []*Val{s.imp("a-id", "a.cd"), s.imp("c-id", "c.cd"), s.imp("b-id", "b.cd")}, append(same("root")(s, "id", nil), mainF(s, uses(s, "a-id", "c-id", "b-id", "")...)))
		}})
	}
	// public functions
	pub := func(tag string, ret func(*Scen) *CT, ps ...func(*Scen) *CT) func(s *Scen, id string) *Val {
		return func(s *Scen, id string) *Val {
			var ns []string
			var ts []*CT
			body := []*Val{s.mark(tag + ".pub")}
			for i, p := range ps {
				ns = append(ns, fmt.Sprintf("p%d-%s", i, id))
				ts = append(ts, p(s))
			}
			rt := s.voidCT()
			if ret != nil {
				rt = ret(s)
				if len(ps) > 0 {
					body = append(body, s.ret(s.va(ns[len(ns)-1])))
				} else {
					body = append(body, s.ret(s.e(rt)))
				}
			}
			f, _ := s.fnc("out-"+id, rt, ns, ts, body...)
			return s.pubFn("out", f)
		}
	}
	ptr := func(s *Scen) *CT { return s.tPtr(s.shared("I8")) }
	for _, p := range []struct {
		name, sig string
		ret       func(*Scen) *CT
		ps        []func(*Scen) *CT
	}{
		{"nothing", "void()", nil, nil}, {"one number", "i32(i32)", i32, []func(*Scen) *CT{i32}}, {"two numbers", "i64(i32,i64)", i64, []func(*Scen) *CT{i32, i64}}, {"a pointer", "i8*(i64,i8*)", ptr, []func(*Scen) *CT{i64, ptr}}, {"a result", "i64()", i64, nil},
		{"a number without a result", "void(i64)", nil, []func(*Scen) *CT{i64}},
	} {
		p := p
		args := func(s *Scen) []*Val {
			var l []*Val
			for _, t := range p.ps {
				l = append(l, s.e(t(s)))
			}
			return l
		}
		exts := func(s *Scen, id string) *Val {
			var l []*CT
			for _, t := range p.ps {
				l = append(l, t(s))
			}
			rt := s.voidCT()
			if p.ret != nil {
				rt = p.ret(s)
			}
			return s.externFn("out", id, false, rt, l...)
		}
		f := pub("root", p.ret, p.ps...)
		outF := func(tag string) linkFn { return linkFn{mark: tag + ".pub", name: "out", sig: p.sig, refs: []string{}} }
		add(&linkCase{name: "a public function with " + p.name, valid: true, fns: []linkFn{{mark: "main", name: "main", sig: "i32()", refs: []string{"root.pub"}}, outF("root"), {mark: "root.pub", sig: p.sig}}, main: func(s *Scen) []*Val {
			return []*Val{f(s, "id"), mainF(s, s.xs(s.callE(s.va("out-id"), args(s)...)))}
		}})
		add(&linkCase{name: "a public function after main with " + p.name, valid: true, fns: []linkFn{{mark: "main", name: "main", refs: []string{"root.pub"}}, outF("root"), {mark: "root.pub", sig: p.sig}}, main: func(s *Scen) []*Val {
			return []*Val{mainF(s, s.xs(s.callE(s.va("out-id"), args(s)...))), f(s, "id")}
		}})
		inMod := pub("a", p.ret, p.ps...)
		files := map[string]module{"/work/a.cd": func(s *Scen, id string, ts []*Val) []*Val { return []*Val{inMod(s, id)} }}
		add(&linkCase{name: "a public function of a module with " + p.name, valid: true, files: files, fns: []linkFn{{mark: "main", name: "main", refs: []string{"a.pub"}}, outF("a"), {mark: "a.pub", sig: p.sig}}, main: func(s *Scen) []*Val {
			return []*Val{s.imp("a-id", "a.cd"), mainF(s, s.xs(s.callE(s.of("a-id", "out-id"), args(s)...)))}
		}})
		for _, first := range []bool{false, true} {
			first := first
			add(&linkCase{name: fmt.Sprintf("a public function of a module that the program declares as external, before the import %v, with %s", first, p.name), valid: true, files: files, fns: []linkFn{{mark: "main", name: "main", refs: []string{"a.pub", "a.pub"}}, outF("a"), {mark: "a.pub", sig: p.sig}}, main: func(s *Scen) []*Val {
				l := []*Val{s.imp("a-id", "a.cd"), exts(s, "id")}
				if first {
					l[0], l[1] = l[1], l[0]
				}
				return append(l, mainF(s, s.xs(s.callE(s.va("out-id"), args(s)...)), s.xs(s.callE(s.of("a-id", "out-id"), args(s)...))))
			}})
		}
		// external functions
		for _, v := range []bool{false, true} {
			v := v
			sig := p.sig
			if v {
				sig += "..."
			}
			ext := func(s *Scen, id string) *Val {
				var l []*CT
				for _, t := range p.ps {
					l = append(l, t(s))
				}
				rt := s.voidCT()
				if p.ret != nil {
					rt = p.ret(s)
				}
				return s.externFn("c", id, v, rt, l...)
			}
			user := func(tag string, inner ...string) module {
				return func(s *Scen, id string, ts []*Val) []*Val {
					var l []*Val
					for i, f := range inner {
						l = append(l, s.imp(fmt.Sprintf("in%d-%s", i, id), f))
					}
					return append(l, ext(s, id), fn(s, "f-"+id, tag+".f", nil, s.xs(s.callE(s.va("c-"+id), args(s)...))))
				}
			}
			c := []string{"extern c"}
			vn := fmt.Sprintf(", variadic %v", v)
			add(&linkCase{name: "an external function with " + p.name + vn, valid: true, externs: map[string]string{"c": sig}, fns: []linkFn{{mark: "main", name: "main", refs: c}}, main: func(s *Scen) []*Val {
				return []*Val{ext(s, "id"), mainF(s, s.xs(s.callE(s.va("c-id"), args(s)...)))}
			}})
			add(&linkCase{name: "an external function declared after its use with " + p.name + vn, valid: true, externs: map[string]string{"c": sig}, fns: []linkFn{{mark: "main", name: "main", refs: c}}, main: func(s *Scen) []*Val {
				return []*Val{mainF(s, s.xs(s.callE(s.va("c-id"), args(s)...))), ext(s, "id")}
			}})
			add(&linkCase{name: "an external function in a block for a target with " + p.name + vn, valid: true, externs: map[string]string{"c": sig}, fns: []linkFn{{mark: "main", name: "main", refs: c}}, main: func(s *Scen) []*Val {
				return []*Val{mainF(s, s.xs(s.callE(s.va("c-id"), args(s)...))), s.mk("MacroBlock", "Block", s.blk(ext(s, "id")).inner())}
			}})
			add(&linkCase{name: "an external function declared twice with " + p.name + vn, valid: true, externs: map[string]string{"c": sig}, fns: []linkFn{{mark: "main", name: "main", refs: c}}, main: func(s *Scen) []*Val {
				return []*Val{ext(s, "id"), ext(s, "id"), mainF(s, s.xs(s.callE(s.va("c-id"), args(s)...)))}
			}})
			add(&linkCase{name: "an external function of three modules with " + p.name + vn, valid: true, externs: map[string]string{"c": sig}, files: map[string]module{"/work/a.cd": user("a", "b.cd"), "/work/b.cd": user("b")}, fns: []linkFn{{mark: "main", name: "main", refs: []string{"extern c", "a.f"}}, {mark: "a.f", refs: c}, {mark: "b.f", refs: c}}, main: func(s *Scen) []*Val {
				return []*Val{ext(s, "id"), s.imp("a-id", "a.cd"), mainF(s, s.xs(s.callE(s.va("c-id"), args(s)...)), s.xs(s.callE(s.of("a-id", "f-id"))))}
			}})
			named := func(s *Scen, id string, ts []*Val) []*Val {
				return []*Val{fn(s, "c-"+id, "b.c", nil), fn(s, "f-"+id, "b.f", nil, call(s, "c-"+id))}
			}
			add(&linkCase{name: "an external function and a function of a module with the same name, with " + p.name + vn, valid: true, externs: map[string]string{"c": sig}, files: map[string]module{"/work/a.cd": user("a"), "/work/b.cd": named}, fns: []linkFn{{mark: "main", name: "main", refs: []string{"extern c", "a.f", "b.c", "b.f"}}, {mark: "a.f", refs: c}, {mark: "b.c", refs: []string{}}, {mark: "b.f", refs: []string{"b.c"}}}, main: func(s *Scen) []*Val {
				return []*Val{s.imp("b-id", "b.cd"), ext(s, "id"), s.imp("a-id", "a.cd"), mainF(s, s.xs(s.callE(s.va("c-id"), args(s)...)), s.xs(s.callE(s.of("a-id", "f-id"))), s.xs(s.callE(s.of("b-id", "c-id"))), s.xs(s.callE(s.of("b-id", "f-id"))))}
			}})
		}
	}
	// C functions that the generated code needs and that are declared too
	for _, b := range []struct {
		name, sig string
		decl      func(s *Scen, id string) *Val
		use       func(s *Scen) *Val
	}{
		{"printf", "i32(i8*)...", func(s *Scen, id string) *Val { return s.externFn("printf", id, true, i32(s), ptr(s)) }, func(s *Scen) *Val {
			return s.mk("BuiltinCall", "Name", "print", "TypeParameters", s.cts(nil), "Parameters", []*Val{s.e(i32(s))})
		}},
		{"malloc", "i8*(i64)", func(s *Scen, id string) *Val { return s.externFn("malloc", id, false, ptr(s), i64(s)) }, func(s *Scen) *Val {
			return s.mk("BuiltinCall", "Name", "alloc", "TypeParameters", s.cts([]*CT{i32(s)}), "Parameters", []*Val{s.e(i32(s))})
		}},
		{"free", "void(i8*)", func(s *Scen, id string) *Val { return s.externFn("free", id, false, s.voidCT(), ptr(s)) }, func(s *Scen) *Val {
			return s.mk("BuiltinCall", "Name", "free", "TypeParameters", s.cts(nil), "Parameters", []*Val{s.e(s.tPtr(i32(s)))})
		}},
	} {
		b := b
		ref := []string{"extern " + b.name}
		exts := map[string]string{b.name: b.sig}
		add(&linkCase{name: b.name + " that is declared and generated", valid: true, externs: exts, fns: []linkFn{{mark: "main", name: "main", refs: ref}}, main: func(s *Scen) []*Val {
			return []*Val{b.decl(s, "id"), mainF(s, s.xs(b.use(s)))}
		}})
		add(&linkCase{name: b.name + " that is generated before a module declares it", valid: true, externs: exts, files: map[string]module{"/work/a.cd": func(s *Scen, id string, ts []*Val) []*Val { return []*Val{fn(s, "f-"+id, "a.f", nil, s.xs(b.use(s)))} },
			"/work/b.cd": func(s *Scen, id string, ts []*Val) []*Val {
				return []*Val{b.decl(s, id), fn(s, "f-"+id, "b.f", nil, s.xs(b.use(s)))}
			}}, fns: []linkFn{{mark: "a.f", refs: ref}, {mark: "b.f", refs: ref}, {mark: "main", name: "main", refs: []string{"extern " + b.name, "a.f", "b.f"}}}, main: func(s *Scen) []*Val {
			return []*Val{s.imp("a-id", "a.cd"), s.imp("b-id", "b.cd"), mainF(s, s.xs(b.use(s)), s.xs(s.callE(s.of("a-id", "f-id"))), s.xs(s.callE(s.of("b-id", "f-id"))))}
		}})
	}
	// main
	add(&linkCase{name: "main without a result", valid: true, fns: []linkFn{{mark: "main", name: "main", sig: "i32()", rets: []string{"0"}}}, main: func(s *Scen) []*Val { return []*Val{mainF(s)} }})
	add(&linkCase{name: "main that returns early without a result", valid: true, fns: []linkFn{{mark: "main", name: "main", sig: "i32()", rets: []string{"0"}}}, main: func(s *Scen) []*Val {
		return []*Val{mainF(s, s.iff(s.e(s.shared("I1")), s.blk(s.ret(nil)), nil))}
	}})
	add(&linkCase{name: "main that returns a number", valid: true, fns: []linkFn{{mark: "main", name: "main", sig: "i32()"}}, main: func(s *Scen) []*Val {
		return []*Val{fn(s, "main", "main", i32(s), s.ret(s.e(i32(s))))}
	}})
	add(&linkCase{name: "public main", valid: true, fns: []linkFn{{mark: "main", name: "main", sig: "i32()", rets: []string{"0"}}}, main: func(s *Scen) []*Val {
		return []*Val{s.pubFn("main", mainF(s))}
	}})
	add(&linkCase{name: "main with arguments", valid: true, fns: []linkFn{{mark: "main", name: "main", sig: "i32(i32,i8**)"}}, main: func(s *Scen) []*Val {
		f, _ := s.fnc("main", i32(s), []string{"c-id", "v-id"}, []*CT{i32(s), s.tPtr(ptr(s))}, s.mark("main"), s.ret(s.va("c-id")))
		return []*Val{f}
	}})
	for _, when := range []string{"before", "after"} {
		when := when
		add(&linkCase{name: "a module with another main, imported " + when + " main", files: map[string]module{"/work/a.cd": func(s *Scen, id string, ts []*Val) []*Val { return []*Val{fn(s, "main", "a.main", nil)} }}, main: func(s *Scen) []*Val {
			if when == "after" {
				return []*Val{mainF(s), s.imp("a-id", "a.cd")}
			}
			return []*Val{s.imp("a-id", "a.cd"), mainF(s)}
		}})
	}
	// variables
	read := func(s *Scen, f string, names ...string) *Val {
		var l []*Val
		for i, n := range names {
			l = append(l, s.vdecl(fmt.Sprintf("r%d%s-id", i, f), nil, s.va(n), false))
		}
		return fn(s, f, strings.TrimSuffix(f, "-id"), nil, l...)
	}
	for _, arr := range []bool{false, true} {
		arr := arr
		vt := func(s *Scen) *CT {
			if arr {
				return s.tArr(2, i32(s))
			}
			return i32(s)
		}
		add(&linkCase{name: fmt.Sprintf("a variable declared a second time, arrays %v", arr), valid: true, fns: []linkFn{{mark: "f", refs: []string{"first", "first"}}, {mark: "main", refs: []string{"second", "other", "second"}}}, main: func(s *Scen) []*Val {
			return []*Val{s.vdecl("x-id", vt(s), s.valueM("first", vt(s)), false), read(s, "f-id", "x-id", "x-id"), s.vdecl("x-id", vt(s), s.valueM("second", vt(s)), false), s.vdecl("y-id", vt(s), s.valueM("other", vt(s)), false), read(s, "main", "x-id", "y-id", "x-id")}
		}})
	}
	// the same name twice
	kinds := map[string]func(s *Scen, m string) *Val{
		"function": func(s *Scen, m string) *Val { return fn(s, "n-id", m, nil) },
		"function with args": func(s *Scen, m string) *Val {
			f, _ := s.fnc("n-id", i64(s), []string{"p-id"}, []*CT{i32(s)}, s.mark(m), s.ret(s.e(i64(s))))
			return f
		},
		"external function": func(s *Scen, m string) *Val { return s.externFn("n", "id", false, i32(s)) },
		"public function":   func(s *Scen, m string) *Val { return s.pubFn("n", fn(s, "n-id", m, nil)) },
	}
	typs := map[string]func(s *Scen, m string) *Val{
		"struct":     func(s *Scen, m string) *Val { _, d := s.tRec("Struct", "n-id", []string{"a"}, i32(s)); return d },
		"union":      func(s *Scen, m string) *Val { _, d := s.tRec("Union", "n-id", []string{"a"}, i64(s)); return d },
		"other name": func(s *Scen, m string) *Val { return s.mk("TypeDefinition", "Name", "n-id", "Type", s.tPtr(i32(s))) },
	}
	twice := func(k map[string]func(s *Scen, m string) *Val) {
		var ks []string
		for x := range k {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		for _, x := range ks {
			for _, y := range ks {
				if x == "external function" && y == x {
					continue
				}
				x, y := x, y
				for _, wrap := range []bool{false, true} {
					wrap := wrap
					add(&linkCase{name: fmt.Sprintf("%s and %s of the same name, the second in a block for a target %v", x, y, wrap), main: func(s *Scen) []*Val {
						second := k[y](s, "second")
						if wrap {
							second = s.mk("MacroBlock", "Block", s.blk(second).inner())
						}
						return []*Val{k[x](s, "first"), mainF(s), second}
					}})
				}
			}
		}
	}
	twice(kinds)
	twice(typs)
	add(&linkCase{name: "two modules of the same name", files: map[string]module{"/work/a.cd": same("a"), "/work/b.cd": same("b")}, main: func(s *Scen) []*Val {
		return []*Val{s.imp("a-id", "a.cd"), s.imp("a-id", "b.cd"), mainF(s)}
	}})
	add(&linkCase{name: "a duplicate in a module", files: map[string]module{"/work/a.cd": func(s *Scen, id string, ts []*Val) []*Val {
		return []*Val{fn(s, "f-"+id, "1", nil), fn(s, "f-"+id, "2", nil)}
	}}, main: func(s *Scen) []*Val { return []*Val{s.imp("a-id", "a.cd"), mainF(s)} }})
	add(&linkCase{name: "two main functions", main: func(s *Scen) []*Val { return []*Val{mainF(s), mainF(s)} }})
	return r
}

// cloneRef is a function of a module as a value.
func cloneRef(s *Scen, m string) *Val {
	if m == "" {
		return s.va("f-id")
	}
	return s.of(m, "f-id")
}

func init() {
	register(&Prop{id: "C38", explanation: "programs of one and several files are analysed and generated; the names, signatures, bodies and references of all functions of the result are compared with the program's", rules: []string{"names of functions and variables"}, assumptions: []string{"the parser gives every name the suffix of its module (C30)", "library models"}, run: func(w *World, a *Anchors, r *Report) {
		sa, pa, ca := w.semAnchors(a), w.parseAnchors(), w.compAnchors(a)
		if !a.guard(r) {
			return
		}
		if sa.problem != "" || pa.problem != "" || ca.newFn == nil || ca.typeOf == nil {
			r.Ob(false, "anchors", sa.problem+pa.problem, token.NoPos, "not found")
			return
		}
		for _, c := range linkCases() {
			c := c
			if f := os.Getenv("CC_ONLY"); f != "" && !strings.Contains(c.name, f) {
				continue
			}
			s := NewSem(w, a, sa)
			s.typeTexts = true
			s.in.hooks = append([]Hook{s.importHook(c.files, pa)}, s.in.hooks...)
			dbg("SCEN %s", c.name)
			r.judge(s, s.verdicts(c.main(s)...), "names of functions and variables", c.name, c.valid, func(o Outcome) (bool, string) {
				return c.check(w, a, ca, s, o)
			})
		}
	}})
}
