package main

// Imports: programs of several files. The file system, the lexer and the parser are stand-ins that give the program of a file whose
// path is asked for; the analyzer is followed from the program with the import on, over all the files it asks for.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
)

// module builds the program of a file: id is the identifier of the module, ts the types it was imported with.
type module func(s *Scen, id string, ts []*Val) []*Val

func (s *Scen) importHook(files map[string]module, pa *ParseAnchors) Hook {
	in := s.in
	return func(c *CallCtx) ([]Outcome, bool) {
		st := c.st
		str := func(i int) (string, bool) {
			v := st.norm(c.args[i])
			if v.K == KConst && v.C.Kind() == constant.String {
				return constant.StringVal(v.C), true
			}
			return "", false
		}
		failure := func(z *Val) ([]Outcome, bool) {
			e := vIface(in.w.errType(), vSym("err", in.w.errType()))
			return single(st, tuple(z, e)), true
		}
		consts := func(vs []*Val) ([]string, bool) {
			var r []string
			for _, v := range vs {
				v = st.norm(v)
				if v.K != KConst || v.C.Kind() != constant.String {
					return nil, false
				}
				r = append(r, constant.StringVal(v.C))
			}
			return r, true
		}
		switch c.name {
		case "fmt.Sprintf", "fmt.Sprint", "strconv.FormatInt", "strconv.Itoa":
			var l []any
			for _, a := range in.flatten(st, c.args, strings.HasPrefix(c.name, "fmt.")) {
				a = st.norm(a).inner()
				if a.K != KConst {
					return nil, false
				}
				switch a.C.Kind() {
				case constant.String:
					l = append(l, constant.StringVal(a.C))
				case constant.Int:
					n, _ := constant.Int64Val(a.C)
					l = append(l, n)
				default:
					return nil, false
				}
			}
			if len(l) == 0 {
				return nil, false
			}
			switch f, ok := l[0].(string); {
			case c.name == "fmt.Sprint":
				return single(st, vStr(fmt.Sprint(l...))), true
			case c.name == "fmt.Sprintf" && ok:
				return single(st, vStr(fmt.Sprintf(f, l[1:]...))), true
			case c.name == "strconv.Itoa":
				return single(st, vStr(fmt.Sprint(l[0]))), true
			case len(l) == 2:
				n, _ := l[0].(int64)
				b, _ := l[1].(int64)
				return single(st, vStr(strconv.FormatInt(n, int(b)))), true
			}
		case "os.Getwd":
			return single(st, tuple(vStr("/work"), vNil(errorI))), true
		case "path.Join", "path/filepath.Join":
			if l, ok := consts(in.flatten(st, c.args, true)); ok {
				return single(st, vStr(path.Join(l...))), true
			}
		case "path.Split", "path/filepath.Split":
			if p, ok := str(0); ok {
				d, f := path.Split(p)
				return single(st, tuple(vStr(d), vStr(f))), true
			}
		case "path.Dir", "path/filepath.Dir":
			if p, ok := str(0); ok {
				return single(st, vStr(path.Dir(p))), true
			}
		case "path.Base", "path/filepath.Base":
			if p, ok := str(0); ok {
				return single(st, vStr(path.Base(p))), true
			}
		case "path.Clean", "path/filepath.Clean":
			if p, ok := str(0); ok {
				return single(st, vStr(path.Clean(p))), true
			}
		case "path.IsAbs", "path/filepath.IsAbs":
			if p, ok := str(0); ok {
				return single(st, vBool(path.IsAbs(p))), true
			}
		case "path/filepath.Abs":
			if p, ok := str(0); ok {
				if !path.IsAbs(p) {
					p = path.Join("/work", p)
				}
				return single(st, tuple(vStr(p), vNil(errorI))), true
			}
		case "path/filepath.Rel":
			if a, ok := str(0); ok {
				if b, ok := str(1); ok {
					if p, err := filepath.Rel(a, b); err == nil {
						return single(st, tuple(vStr(p), vNil(errorI))), true
					}
				}
			}
		case "os.ReadFile", "io/ioutil.ReadFile":
			p, ok := str(0)
			if !ok {
				return nil, false
			}
			p = path.Clean(p)
			if !path.IsAbs(p) {
				p = path.Join("/work", p)
			}
			if _, ok := files[p]; ok {
				return single(st, tuple(vSym("file<"+p+">", types.NewSlice(types.Typ[types.Byte])), vNil(errorI))), true
			}
			return failure(vNil(types.NewSlice(types.Typ[types.Byte])))
		}
		if c.fn == nil {
			return nil, false
		}
		pk := fnPkg(c.fn)
		if pk == nil {
			return nil, false
		}
		switch {
		case strings.HasSuffix(pk.Path(), "/internals/lexer") && c.fn.Signature.Recv() == nil && c.rt != nil && types.Identical(c.rt, pa.lexerT):
			o := in.obj("lexer"+c.ctx, elemOf(c.rt), true)
			st.attrs["of:"+o.ID] = st.norm(c.args[0])
			return single(st, vPtr(o)), true
		case c.fn == pa.newFn:
			o := in.obj("parser"+c.ctx, elemOf(c.rt), true)
			st.heap[o] = zeroVal(o.T)
			l := st.norm(c.args[0])
			st.attrs["of:"+o.ID] = st.attrs["of:"+l.O.ID]
			return single(st, vPtr(o)), true
		case c.fn == pa.parse:
			ps := st.norm(c.args[0])
			k := st.attrs["of:"+ps.O.ID].Key()
			i, j := strings.Index(k, "file<"), strings.Index(k, ">")
			if i < 0 || j < i {
				return nil, false
			}
			var ts []*Val
			if l, ok := in.elems(st, st.norm(in.field(st, ps, "TypeParameters"))); ok {
				ts = l
			}
			n := int64(1)
			if v := st.attrs["imports"]; v != nil {
				i, _ := v.intConst()
				n += i
			}
			st.attrs["imports"] = vInt(n)
			if n > 12 {
				return []Outcome{{Kind: OPanic, St: st, Msg: "files are imported again and again", Pos: c.site.Pos()}}, true
			}
			id := fmt.Sprintf("mod%d", n)
			old := s.st
			s.st = st
			body := files[k[i+5:j]](s, id, ts)
			nerr := 0
			if body == nil {
				nerr = 1
			}
			if nerr > 0 {
				e := vIface(in.w.errType(), vSym("err", in.w.errType()))
				in.setField(st, ps, "Errors", in.list(st, "errors"+id, errorI, e))
			}
			p := in.newObj(st, "program-"+id, in.w.typ("internals/ast", "Program"))
			in.setField(st, p, "ID", vStr(id))
			in.setField(st, p, "Statements", in.list(st, "statements-"+id, in.w.typ("internals/ast", "Statement"), body...))
			s.st = old
			return single(st, p), true
		}
		return nil, false
	}
}

// tMod is a type of a module, by its name.
func (s *Scen) tMod(name, mod string) *CT {
	p := s.tyObj("Anonymous")
	s.in.setField(s.st, p, "Name", vStr(name))
	s.in.setField(s.st, p, "Modules", s.strs([]string{mod}))
	return s.tyVal(mod+"."+name, p)
}

func (s *Scen) imp(name, file string, ts ...*CT) *Val {
	return s.mk("ImportStatement", "Name", name, "Path", s.mk("StringLiteral", "Value", file), "Types", ts)
}

// of is a member of a module: m.x
func (s *Scen) of(mod, x string) *Val { return s.bop("Dot", s.va(mod), s.va(x)) }
func (s *Scen) callE(f *Val, args ...*Val) *Val {
	return s.mk("Call", "Left", f, "Parameters", args)
}
func (s *Scen) lit(name, mod string, fields ...any) *Val {
	v := s.mk("StructLiteral", "Name", name, "Module", mod)
	t := s.in.fieldType2("internals/ast", "StructLiteral", "Values").Underlying().(*types.Slice).Elem()
	var l []*Val
	for i := 0; i+1 < len(fields); i += 2 {
		sv := zeroVal(t)
		sv = setPath(sv, []int{fieldIndex(t, "Name")}, vStr(fields[i].(string)))
		sv = setPath(sv, []int{fieldIndex(t, "Expression")}, fields[i+1].(*Val))
		l = append(l, sv)
	}
	s.in.setField(s.st, v.inner(), "Values", s.in.list(s.st, v.inner().O.ID+".Values", t, l...))
	return v
}

type impCase struct {
	name  string
	files map[string]module
	main  func(s *Scen) []*Val
	valid bool
}

// simple modules
func modF(ret string, extra ...func(s *Scen, id string) []*Val) module {
	return func(s *Scen, id string, ts []*Val) []*Val {
		f, _ := s.fnc("f-"+id, s.shared(ret), nil, nil, s.ret(s.e(s.shared(ret))))
		st, d := s.tRec("Struct", "P-"+id, []string{"v"}, s.shared(ret))
		_ = st
		g, _ := s.fnc("get-"+id, s.shared(ret), []string{"p-" + id}, []*CT{s.tNamed("P-" + id)}, s.ret(s.bop("Dot", s.va("p-"+id), s.va("v-"+id))))
		mk, _ := s.fnc("mk-"+id, s.tNamed("P-"+id), nil, nil, s.ret(s.lit("P-"+id, "", "v", s.e(s.shared(ret)))))
		x := s.vdecl("x-"+id, s.shared(ret), s.e(s.shared(ret)), false)
		l := []*Val{d, x, f, g, mk}
		for _, e := range extra {
			l = append(e(s, id), l...)
		}
		return l
	}
}

func importsOf(name, file string) func(s *Scen, id string) []*Val {
	return func(s *Scen, id string) []*Val { return []*Val{s.imp(name+"-"+id, file)} }
}

func impCases() []impCase {
	var r []impCase
	add := func(name string, valid bool, files map[string]module, main func(s *Scen) []*Val) {
		r = append(r, impCase{name, files, main, valid})
	}
	body := func(s *Scen, l ...*Val) *Val { return s.inMain(l...) }
	vt := []string{"I32", "I64", "I8"}
	ab := func() map[string]module {
		return map[string]module{"/work/sub/a.cd": modF("I32"), "/work/b.cd": modF("I64")}
	}
	imports := func(s *Scen) []*Val { return []*Val{s.imp("a-id", "sub/a.cd"), s.imp("b-id", "b.cd")} }
	own := func(s *Scen) []*Val { return modF("I8")(s, "id", nil) }
	// members of modules are the ones of that module
	src := []string{"a-id", "b-id", ""}
	member := func(s *Scen, m, x string) *Val {
		if m == "" {
			return s.va(x)
		}
		return s.of(m, x)
	}
	typ := func(s *Scen, m, x string) *CT {
		if m == "" {
			return s.tNamed(x)
		}
		return s.tMod(x, m)
	}
	for mi, m := range src {
		for ti, t := range vt {
			m, t := m, t
			for _, order := range []bool{false, true} {
				order := order
				tops := func(s *Scen, mains *Val) []*Val {
					l := append(imports(s), own(s)...)
					if order {
						l = append(own(s), imports(s)...)
					}
					return append(l, mains)
				}
				n := fmt.Sprintf("module %q as %s, imports last %v", m, t, order)
				add("call of a function of "+n, mi == ti, ab(), func(s *Scen) []*Val {
					return tops(s, body(s, s.vdecl("y-id", s.shared(t), s.callE(member(s, m, "f-id")), false)))
				})
				add("variable of "+n, mi == ti, ab(), func(s *Scen) []*Val {
					return tops(s, body(s, s.vdecl("y-id", s.shared(t), member(s, m, "x-id"), false)))
				})
				add("function value of "+n, mi == ti, ab(), func(s *Scen) []*Val {
					return tops(s, body(s, s.vdecl("y-id", s.tFunc(s.shared(t)), member(s, m, "f-id"), false)))
				})
				add("member of a value of "+n, mi == ti, ab(), func(s *Scen) []*Val {
					return tops(s, body(s, s.vdecl("p-id", nil, s.callE(member(s, m, "mk-id")), false), s.vdecl("y-id", s.shared(t), s.bop("Dot", s.va("p-id"), s.va("v-id")), false)))
				})
				add("method of a value of "+n, mi == ti, ab(), func(s *Scen) []*Val {
					return tops(s, body(s, s.vdecl("p-id", nil, s.callE(member(s, m, "mk-id")), false), s.vdecl("y-id", s.shared(t), s.callE(s.bop("Dot", s.va("p-id"), s.va("get-id"))), false)))
				})
			}
		}
		for mj, m2 := range src {
			m, m2 := m, m2
			tops := func(s *Scen, mains ...*Val) []*Val { return append(append(imports(s), own(s)...), mains...) }
			n := fmt.Sprintf("the type of %q in place of the one of %q", m, m2)
			add("literal of "+n, mi == mj, ab(), func(s *Scen) []*Val {
				return tops(s, body(s, s.vdecl("y-id", typ(s, m2, "P-id"), s.lit("P-id", m, "v", s.e(s.shared(vt[mi]))), false)))
			})
			add("result of "+n, mi == mj, ab(), func(s *Scen) []*Val {
				return tops(s, body(s, s.vdecl("y-id", typ(s, m2, "P-id"), s.callE(member(s, m, "mk-id")), false)))
			})
			add("argument of "+n, mi == mj, ab(), func(s *Scen) []*Val {
				return tops(s, body(s, s.vdecl("y-id", nil, s.callE(member(s, m2, "get-id"), s.callE(member(s, m, "mk-id"))), false)))
			})
			add("pointer to "+n, mi == mj, ab(), func(s *Scen) []*Val {
				return tops(s, body(s, s.vdecl("y-id", nil, s.callE(member(s, m, "mk-id")), false), s.vdecl("z-id", s.tPtr(typ(s, m2, "P-id")), s.pop("BinaryAND", s.va("y-id")), false)))
			})
			add("parameter of "+n, mi == mj, ab(), func(s *Scen) []*Val {
				fn, _ := s.fnc("h-id", s.shared("I32"), []string{"q-id"}, []*CT{typ(s, m2, "P-id")}, s.ret(s.e(s.shared("I32"))))
				return tops(s, fn, body(s, s.vdecl("y-id", nil, s.callE(s.va("h-id"), s.callE(member(s, m, "mk-id"))), false)))
			})
			add("struct member of "+n, mi == mj, ab(), func(s *Scen) []*Val {
				_, d := s.tRec("Struct", "Q-id", []string{"p"}, typ(s, m2, "P-id"))
				return tops(s, d, body(s, s.vdecl("y-id", nil, s.lit("Q-id", "", "p", s.callE(member(s, m, "mk-id"))), false)))
			})
		}
	}
	// what is not there
	for _, x := range []struct {
		n string
		e func(s *Scen) *Val
	}{
		{"a function that the module does not have", func(s *Scen) *Val { return s.callE(s.of("a-id", "nope-id")) }},
		{"a module that was not imported", func(s *Scen) *Val { return s.callE(s.of("z-id", "f-id")) }},
		{"a function of a module without the module", func(s *Scen) *Val { return s.callE(s.va("f-id")) }},
		{"a variable of a module without the module", func(s *Scen) *Val { return s.va("x-id") }},
		{"a module of a module", func(s *Scen) *Val { return s.callE(s.bop("Dot", s.of("a-id", "inner-id"), s.va("f-id"))) }},
		{"a type that the module does not have", func(s *Scen) *Val { return s.lit("R-id", "a-id", "v", s.e(s.shared("I32"))) }},
		{"a type of a module without the module", func(s *Scen) *Val { return s.lit("P-id", "", "v", s.e(s.shared("I32"))) }},
		{"a type of a module that was not imported", func(s *Scen) *Val { return s.lit("P-id", "z-id", "v", s.e(s.shared("I32"))) }},
		{"the name of a module as a value", func(s *Scen) *Val { return s.va("a-id") }},
	} {
		x := x
		files := func() map[string]module {
			return map[string]module{"/work/sub/a.cd": modF("I32", importsOf("inner", "b.cd")), "/work/sub/b.cd": modF("I32")}
		}
		add("use of "+x.n, false, files(), func(s *Scen) []*Val {
			return []*Val{s.imp("a-id", "sub/a.cd"), body(s, s.vdecl("y-id", nil, x.e(s), false))}
		})
	}
	// paths are relative to the file that has the import
	tree := func() map[string]module {
		return map[string]module{
			"/work/sub/a.cd":       modF("I32", importsOf("n", "n.cd")),
			"/work/sub/up.cd":      modF("I32", importsOf("n", "../n.cd")),
			"/work/sub/deep.cd":    modF("I32", importsOf("n", "deep/x.cd")),
			"/work/sub/deep/x.cd":  modF("I32", importsOf("m", "n.cd")),
			"/work/sub/n.cd":       modF("I64"),
			"/work/n.cd":           modF("I8"),
			"/work/sub/deep/n.cd":  modF("I16"),
			"/work/deep/n.cd":      modF("U8"),
			"/work/deep/x.cd":      modF("U8"),
			"/work/sub/twice.cd":   modF("I32", importsOf("n", "n.cd"), importsOf("m", "../n.cd"), importsOf("o", "deep/n.cd")),
			"/work/sub/deep/up.cd": modF("I32", importsOf("m", "../../n.cd")),
			"/work/x.cd":           modF("U8"),
			"/work/sub/deep/x2.cd": modF("I32", importsOf("m", "../../sub/n.cd")),
		}
	}
	// a module that gives away what it imports: out() has the type of f of the inner module
	through := func(base map[string]module, file, inner string, ret string) map[string]module {
		old := base[file]
		base[file] = func(s *Scen, id string, ts []*Val) []*Val {
			out, _ := s.fnc("out-"+id, s.shared(ret), nil, nil, s.ret(s.callE(s.of(inner+"-"+id, "f-"+id))))
			return append(old(s, id, ts), out)
		}
		return base
	}
	for _, c := range []struct{ imp, file, inner, ret string }{
		{"sub/a.cd", "/work/sub/a.cd", "n", "I64"}, {"sub/up.cd", "/work/sub/up.cd", "n", "I8"}, {"./sub/a.cd", "/work/sub/a.cd", "n", "I64"},
		{"sub/../sub/a.cd", "/work/sub/a.cd", "n", "I64"}, {"sub/deep/x.cd", "/work/sub/deep/x.cd", "m", "I16"}, {"sub/deep/x2.cd", "/work/sub/deep/x2.cd", "m", "I64"},
		{"sub/mid.cd", "/work/sub/deep/x.cd", "m", "I16"}, {"sub/mid2.cd", "/work/sub/deep/x2.cd", "m", "I64"}, {"sub/mid3.cd", "/work/sub/deep/up.cd", "m", "I8"},
		{"sub/twice.cd", "/work/sub/twice.cd", "n", "I64"}, {"sub/twice.cd", "/work/sub/twice.cd", "m", "I8"}, {"sub/twice.cd", "/work/sub/twice.cd", "o", "I16"},
	} {
		c := c
		for _, t := range []string{"I8", "I16", "I64"} {
			t := t
			files := through(tree(), c.file, c.inner, t)
			for n, to := range map[string]string{"mid": "deep/x.cd", "mid2": "deep/x2.cd", "mid3": "deep/up.cd"} {
				to := to
				files["/work/sub/"+n+".cd"] = func(s *Scen, id string, ts []*Val) []*Val {
					out, _ := s.fnc("out-"+id, s.shared(t), nil, nil, s.ret(s.callE(s.of("w-"+id, "out-"+id))))
					return []*Val{s.imp("w-"+id, to), out}
				}
			}
			add(fmt.Sprintf("import of %s, whose %s.f() is used as %s", c.imp, c.inner, t), t == c.ret, files, func(s *Scen) []*Val {
				return []*Val{s.imp("a-id", c.imp), body(s, s.vdecl("y-id", s.shared(t), s.callE(s.of("a-id", "out-id")), false))}
			})
		}
	}
	// the same file is the same module, in whatever way it is reached
	for _, p := range []struct{ a, b string }{{"sub/n.cd", "sub/n.cd"}, {"sub/n.cd", "./sub/n.cd"}, {"sub/../sub/n.cd", "sub/n.cd"}} {
		p := p
		add(fmt.Sprintf("the types of %s and %s", p.a, p.b), true, tree(), func(s *Scen) []*Val {
			return []*Val{s.imp("a-id", p.a), s.imp("b-id", p.b), body(s, s.vdecl("y-id", s.tMod("P-id", "a-id"), s.callE(s.of("b-id", "mk-id")), false), s.vdecl("z-id", s.shared("I64"), s.callE(s.bop("Dot", s.va("y-id"), s.va("get-id"))), false))}
		})
	}
	giving := func(files map[string]module, file, inner string) map[string]module {
		old := files[file]
		files[file] = func(s *Scen, id string, ts []*Val) []*Val {
			out, _ := s.fnc("out-"+id, s.tMod("P-"+id, inner+"-"+id), nil, nil, s.ret(s.callE(s.of(inner+"-"+id, "mk-"+id))))
			return append(old(s, id, ts), out)
		}
		return files
	}
	for _, first := range []bool{true, false} {
		first := first
		for _, c := range []struct {
			via, direct string
			same        bool
		}{{"sub/a.cd", "sub/n.cd", true}, {"sub/a.cd", "n.cd", false}, {"sub/up.cd", "n.cd", true}, {"sub/up.cd", "sub/n.cd", false}, {"sub/up.cd", "sub/../n.cd", true}} {
			c := c
			add(fmt.Sprintf("a type that %s gives away and the one of %s, imported first: %v", c.via, c.direct, first), c.same, giving(tree(), "/work/"+c.via, "n"), func(s *Scen) []*Val {
				l := []*Val{s.imp("a-id", c.via), s.imp("n-id", c.direct)}
				if first {
					l = []*Val{s.imp("n-id", c.direct), s.imp("a-id", c.via)}
				}
				return append(l, body(s, s.vdecl("y-id", s.tMod("P-id", "n-id"), s.callE(s.of("a-id", "out-id")), false)))
			})
		}
	}
	for _, via := range []string{"sub/a.cd", "sub/up.cd"} {
		via := via
		direct := map[string]string{"sub/a.cd": "sub/n.cd", "sub/up.cd": "n.cd"}[via]
		for _, t := range []string{"I8", "I64"} {
			t := t
			add(fmt.Sprintf("method of a type of %s that %s imported before, as %s", direct, via, t), (t == "I64") == (via == "sub/a.cd"), giving(tree(), "/work/"+via, "n"), func(s *Scen) []*Val {
				return []*Val{s.imp("a-id", via), s.imp("n-id", direct), body(s, s.vdecl("p-id", nil, s.callE(s.of("n-id", "mk-id")), false), s.vdecl("y-id", s.shared(t), s.callE(s.bop("Dot", s.va("p-id"), s.va("get-id"))), false))}
			})
		}
	}
	// types given to a module
	generic := func(s *Scen, id string, ts []*Val) []*Val {
		if len(ts) < 2 {
			return nil
		}
		g := func(n string, t *Val) *Val {
			return s.mk("GenericTypeDefinition", "Name", n, "ReplacedType", &CT{name: n, ct: t})
		}
		tn := func(x string) *CT { return s.tNamed(x + "-" + id) }
		// the parser puts the types a file was imported with in place of their names
		tt, tu := &CT{name: "T", ct: ts[0]}, &CT{name: "U", ct: ts[1]}
		_, d := s.tRec("Struct", "P-"+id, []string{"t", "u"}, tt, tu)
		first, _ := s.fnc("first-"+id, tt, []string{"p-" + id}, []*CT{tn("P")}, s.ret(s.bop("Dot", s.va("p-"+id), s.va("t-"+id))))
		second, _ := s.fnc("second-"+id, tu, []string{"p-" + id}, []*CT{tn("P")}, s.ret(s.bop("Dot", s.va("p-"+id), s.va("u-"+id))))
		mk, _ := s.fnc("mk-"+id, tn("P"), []string{"t-" + id, "u-" + id}, []*CT{tt, tu}, s.ret(s.lit("P-"+id, "", "t", s.va("t-"+id), "u", s.va("u-"+id))))
		return []*Val{g("T-"+id, ts[0]), g("U-"+id, ts[1]), d, first, second, mk}
	}
	gfiles := func() map[string]module {
		return map[string]module{"/work/g.cd": generic, "/work/a.cd": modF("I32"), "/work/b.cd": modF("I64")}
	}
	pool := []func(s *Scen) *CT{
		func(s *Scen) *CT { return s.shared("I32") },
		func(s *Scen) *CT { return s.shared("I64") },
		func(s *Scen) *CT { return s.tPtr(s.shared("I32")) },
		func(s *Scen) *CT { return s.tArr(2, s.shared("I32")) },
		func(s *Scen) *CT { return s.tArr(3, s.shared("I32")) },
		func(s *Scen) *CT { return s.tFunc(s.shared("I32"), s.shared("I64")) },
		func(s *Scen) *CT { return s.tFunc(s.shared("I64"), s.shared("I32")) },
		func(s *Scen) *CT { return s.tFunc(s.shared("I64"), s.shared("I64")) },
		func(s *Scen) *CT { return s.tMod("P-id", "a-id") },
		func(s *Scen) *CT { return s.tMod("P-id", "b-id") },
		func(s *Scen) *CT { return s.tNamed("P-id") },
		func(s *Scen) *CT { return s.tPtr(s.tMod("P-id", "a-id")) },
		func(s *Scen) *CT { return s.tPtr(s.tMod("P-id", "b-id")) },
		func(s *Scen) *CT { return s.tPtr(s.tNamed("P-id")) },
		func(s *Scen) *CT { return s.tArr(2, s.tMod("P-id", "a-id")) },
		func(s *Scen) *CT { return s.tArr(2, s.tNamed("P-id")) },
		func(s *Scen) *CT { return s.tFunc(s.shared("I32"), s.tMod("P-id", "b-id")) },
		func(s *Scen) *CT { return s.tFunc(s.shared("I32"), s.tNamed("P-id")) },
	}
	pnames := []string{"i32", "i64", "*i32", "[2]i32", "[3]i32", "func(i64) i32", "func(i32) i64", "func(i64) i64", "a.P", "b.P", "P", "*a.P", "*b.P", "*P", "[2]a.P", "[2]P", "func(b.P) i32", "func(P) i32"}
	pre := func(s *Scen) []*Val {
		_, d := s.tRec("Struct", "P-id", []string{"v"}, s.shared("I8"))
		return []*Val{d, s.imp("a-id", "a.cd"), s.imp("b-id", "b.cd")}
	}
	for i := range pool {
		for j := range pool {
			i, j := i, j
			add(fmt.Sprintf("a module for %s, its member as %s", pnames[i], pnames[j]), i == j, gfiles(), func(s *Scen) []*Val {
				return append(pre(s), s.imp("g-id", "g.cd", pool[i](s), s.shared("U8")), body(s, s.vdecl("x-id", pool[i](s), s.e(pool[i](s)), false), s.vdecl("p-id", nil, s.callE(s.of("g-id", "mk-id"), s.va("x-id"), s.e(s.shared("U8"))), false),
					s.vdecl("y-id", pool[j](s), s.callE(s.of("g-id", "first-id"), s.va("p-id")), false)))
			})
			add(fmt.Sprintf("a module for u8 and %s, its second member as %s", pnames[i], pnames[j]), i == j, gfiles(), func(s *Scen) []*Val {
				return append(pre(s), s.imp("g-id", "g.cd", s.shared("U8"), pool[i](s)), body(s, s.vdecl("x-id", pool[i](s), s.e(pool[i](s)), false), s.vdecl("p-id", nil, s.callE(s.of("g-id", "mk-id"), s.e(s.shared("U8")), s.va("x-id")), false),
					s.vdecl("y-id", pool[j](s), s.bop("Dot", s.va("p-id"), s.va("u-id")), false)))
			})
			add(fmt.Sprintf("modules for %s and %s, a value of one as one of the other", pnames[i], pnames[j]), i == j, gfiles(), func(s *Scen) []*Val {
				return append(pre(s), s.imp("g-id", "g.cd", pool[i](s), s.shared("U8")), s.imp("h-id", "g.cd", pool[j](s), s.shared("U8")), body(s, s.vdecl("x-id", pool[i](s), s.e(pool[i](s)), false), s.vdecl("p-id", nil, s.callE(s.of("g-id", "mk-id"), s.va("x-id"), s.e(s.shared("U8"))), false),
					s.vdecl("y-id", nil, s.callE(s.of("h-id", "first-id"), s.va("p-id")), false)))
			})
		}
	}
	// another name of a type is the same type
	alias := func(s *Scen, n string, t *CT) *Val {
		return s.mk("TypeDefinition", "Name", n, "Type", t)
	}
	for i, p := range pnames {
		i := i
		add("a module for another name of "+p, true, gfiles(), func(s *Scen) []*Val {
			return append(append(pre(s), alias(s, "X-id", pool[i](s))), s.imp("g-id", "g.cd", s.tNamed("X-id"), s.shared("U8")), s.imp("h-id", "g.cd", pool[i](s), s.shared("U8")), body(s, s.vdecl("x-id", pool[i](s), s.e(pool[i](s)), false), s.vdecl("p-id", nil, s.callE(s.of("g-id", "mk-id"), s.va("x-id"), s.e(s.shared("U8"))), false),
				s.vdecl("y-id", nil, s.callE(s.of("h-id", "first-id"), s.va("p-id")), false)))
		})
	}
	add("a module for i32 and i64 in place of one for i64 and i32", false, gfiles(), func(s *Scen) []*Val {
		return append(pre(s), s.imp("g-id", "g.cd", s.shared("I32"), s.shared("I64")), s.imp("h-id", "g.cd", s.shared("I64"), s.shared("I32")), body(s, s.vdecl("p-id", nil, s.callE(s.of("g-id", "mk-id"), s.e(s.shared("I32")), s.e(s.shared("I64"))), false),
			s.vdecl("y-id", s.tMod("P-id", "h-id"), s.va("p-id"), false)))
	})
	add("a module that is not given the types it needs", false, gfiles(), func(s *Scen) []*Val {
		return append(pre(s), s.imp("g-id", "g.cd", s.shared("I32")), body(s))
	})
	add("a module for a type that is declared nowhere", false, gfiles(), func(s *Scen) []*Val {
		return append(pre(s), s.imp("g-id", "g.cd", s.tNamed("Nope-id"), s.shared("I32")), body(s))
	})
	// mistakes in files
	wrong := func(s *Scen, id string, ts []*Val) []*Val {
		f, _ := s.fnc("f-"+id, s.shared("I32"), nil, nil, s.ret(s.e(s.shared("I64"))))
		return []*Val{f}
	}
	syntax := func(s *Scen, id string, ts []*Val) []*Val { return nil }
	for _, m := range []struct {
		n string
		f module
	}{{"a wrong type", wrong}, {"a syntax error", syntax}, {"no file", nil}} {
		m := m
		for depth := 0; depth < 3; depth++ {
			depth := depth
			files := map[string]module{"/work/ok.cd": modF("I32")}
			for i := 0; i < depth; i++ {
				files[fmt.Sprintf("/work/f%d.cd", i)] = modF("I32", importsOf("n", fmt.Sprintf("f%d.cd", i+1)))
			}
			if m.f != nil {
				files[fmt.Sprintf("/work/f%d.cd", depth)] = m.f
			}
			for _, twice := range []bool{false, true} {
				twice := twice
				add(fmt.Sprintf("%s at depth %d, another import after it: %v", m.n, depth, twice), false, files, func(s *Scen) []*Val {
					l := []*Val{s.imp("a-id", "f0.cd")}
					if twice {
						l = append(l, s.imp("b-id", "ok.cd"))
					}
					return append(l, body(s))
				})
				add(fmt.Sprintf("%s at depth %d, another import before it: %v", m.n, depth, twice), false, files, func(s *Scen) []*Val {
					l := []*Val{s.imp("a-id", "f0.cd")}
					if twice {
						l = append([]*Val{s.imp("b-id", "ok.cd")}, l...)
					}
					return append(l, body(s))
				})
			}
		}
	}
	// circles of imports, and what only looks like one
	for n := 1; n <= 3; n++ {
		n := n
		files := map[string]module{}
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("/work/f%d.cd", i)] = modF("I32", importsOf("n", fmt.Sprintf("f%d.cd", (i+1)%n)))
		}
		add(fmt.Sprintf("a circle of %d files", n), false, files, func(s *Scen) []*Val { return []*Val{s.imp("a-id", "f0.cd"), body(s)} })
		files2 := map[string]module{"/work/in.cd": modF("I32", importsOf("m", "f0.cd"))}
		for k, v := range files {
			files2[k] = v
		}
		add(fmt.Sprintf("a circle of %d files behind another", n), false, files2, func(s *Scen) []*Val { return []*Val{s.imp("a-id", "in.cd"), body(s)} })
	}
	add("two files that import a third", true, map[string]module{"/work/a.cd": modF("I32", importsOf("n", "c.cd")), "/work/b.cd": modF("I32", importsOf("n", "c.cd")), "/work/c.cd": modF("I64")}, func(s *Scen) []*Val {
		return []*Val{s.imp("a-id", "a.cd"), s.imp("b-id", "b.cd"), s.imp("c-id", "c.cd"), body(s, s.vdecl("y-id", s.shared("I64"), s.callE(s.of("c-id", "f-id")), false))}
	})
	add("a file imported twice under different names", true, map[string]module{"/work/a.cd": modF("I32", importsOf("n", "c.cd"), importsOf("m", "c.cd")), "/work/c.cd": modF("I64")}, func(s *Scen) []*Val {
		return []*Val{s.imp("a-id", "a.cd"), s.imp("b-id", "a.cd"), body(s, s.vdecl("y-id", s.shared("I32"), s.callE(s.of("b-id", "f-id")), false))}
	})
	add("imports in a block for a target", true, map[string]module{"/work/a.cd": modF("I32")}, func(s *Scen) []*Val {
		return []*Val{s.mk("MacroBlock", "Block", s.blk(s.imp("a-id", "a.cd")).inner()), body(s, s.vdecl("y-id", s.shared("I32"), s.callE(s.of("a-id", "f-id")), false))}
	})
	// the program has one entry, its own
	kept := func(s *Scen, deep int, v *Val) *Val {
		for ; deep > 0; deep-- {
			v = s.mk("MacroBlock", "Block", s.blk(v).inner())
		}
		return v
	}
	for deep := 0; deep < 3; deep++ {
		deep := deep
		for _, name := range []string{"main", "mainly", "Main"} {
			name := name
			for ri, result := range []string{"", "I32"} {
				result := result
				fn := func(s *Scen, id string) []*Val {
					if result == "" {
						f, _ := s.fnc(name, nil, nil, nil)
						return []*Val{kept(s, deep, f)}
					}
					f, _ := s.fnc(name, s.shared(result), nil, nil, s.ret(s.e(s.shared(result))))
					return []*Val{kept(s, deep, f)}
				}
				last := func(f module) module {
					return func(s *Scen, id string, ts []*Val) []*Val { return append(f(s, id, ts), fn(s, id)...) }
				}
				n := fmt.Sprintf("%s with result %d in %d blocks for a target", name, ri, deep)
				add("a module with a function "+n, name != "main", map[string]module{"/work/a.cd": modF("I32", fn)}, func(s *Scen) []*Val { return []*Val{s.imp("a-id", "a.cd"), body(s)} })
				add("a module that ends with a function "+n, name != "main", map[string]module{"/work/a.cd": last(modF("I32"))}, func(s *Scen) []*Val { return []*Val{s.imp("a-id", "a.cd"), body(s)} })
				add("a module of a module with a function "+n, name != "main", map[string]module{"/work/a.cd": modF("I32", importsOf("n", "b.cd")), "/work/b.cd": modF("I32", fn)}, func(s *Scen) []*Val { return []*Val{s.imp("a-id", "a.cd"), body(s)} })
				add("a second module with a function "+n, name != "main", map[string]module{"/work/a.cd": modF("I32"), "/work/b.cd": modF("I32", fn)}, func(s *Scen) []*Val { return []*Val{s.imp("a-id", "a.cd"), s.imp("b-id", "b.cd"), body(s)} })
			}
		}
	}
	return r
}

func init() {
	register(&Prop{id: "C24", explanation: "programs of several files: members, types, paths, types given to modules, mistakes and circles", rules: []string{"imports"}, assumptions: []string{"the parser gives the program of the file (C27, C26, C30)", "library models"}, run: func(w *World, a *Anchors, r *Report) {
		sa, pa := w.semAnchors(a), w.parseAnchors()
		if sa.problem != "" || pa.problem != "" {
			r.Ob(false, "anchors", sa.problem+pa.problem, 0, "not found")
			return
		}
		for _, c := range impCases() {
			s := NewSem(w, a, sa)
			s.typeTexts = true
			s.in.hooks = append([]Hook{s.importHook(c.files, pa)}, s.in.hooks...)
			if f := os.Getenv("CC_ONLY"); f != "" && !strings.Contains(c.name, f) {
				continue
			}
			dbg("SCEN %s", c.name)
			r.judge(s, s.verdicts(c.main(s)...), "imports", c.name, c.valid, nil)
		}
	}})
}
