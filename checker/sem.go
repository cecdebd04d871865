package main

// Scenarios for the semantic analysis: program trees whose expressions are abstract (any expression of a given type) are handed to
// the analyzer's entry point and every path through it is followed. A path accepts or rejects the program.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SemAnchors struct {
	newFn   *ssa.Function // makes an analyzer
	analyze *ssa.Function // analyses a program
	errs    int           // index of the list of errors
	problem string
}

func (w *World) semAnchors(a *Anchors) *SemAnchors {
	r := &SemAnchors{errs: -1}
	sp := w.ssaPkg("internals/semantic")
	if sp == nil || a.semT == nil {
		r.problem = "the package of the semantic analysis"
		return r
	}
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if ok && token.IsExported(f.Name()) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), a.semT) {
			r.newFn = f
		}
	}
	progT := w.ptrTyp("internals/ast", "Program")
	for _, f := range w.methods(a.semT) {
		s := f.Signature
		if token.IsExported(f.Name()) && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), progT) && s.Results().Len() == 0 {
			r.analyze = f
		}
	}
	r.errs = fieldIndex(elemOf(a.semT), "Errors")
	switch {
	case r.newFn == nil:
		r.problem = "the constructor of the analyzer"
	case r.analyze == nil:
		r.problem = "the entry point of the analyzer"
	case r.errs < 0:
		r.problem = "the errors of the analyzer"
	}
	return r
}

// NewSem is a scenario with a fresh analyzer.
func NewSem(w *World, a *Anchors, sa *SemAnchors) *Scen {
	in := NewInterp(w)
	st := newState(w.globalHeap)
	s := &Scen{in: in, a: a, st: st, child: map[string]*Child{}, evals: map[string]int{}, rootIn: map[string]bool{}, sem: sa}
	in.hooks = []Hook{s.semHook, modelHook}
	in.leaf = s.isLeaf
	in.plain = func(k string) bool {
		return s.isLeaf(k)
	}
	in.onStore = func(in *Interp, st *State, fn *ssa.Function, ins *ssa.Store, p, v *Val) bool {
		return p.K == KPtr && s.c != nil && s.c.K == KPtr && p.O == s.c.O && len(p.Path) == 1 && p.Path[0] == sa.errs && (v.K != KSlice || v.N > 0 || v.S != "")
	}
	outs := in.Call(sa.newFn, nil, nil, st, "new", 0)
	if len(outs) == 1 && outs[0].Kind == ORet {
		s.c = outs[0].St.norm(outs[0].Res)
		s.st = outs[0].St
		s.st.trace = nil
	}
	return s
}

func (s *Scen) semHook(c *CallCtx) ([]Outcome, bool) {
	st := c.st
	if debug && c.fn != nil && strings.HasPrefix(c.fn.Name(), "error") {
		dbg("  %s(%v) at %s", c.fn.Name(), valKeys(c.args[1:]), s.in.w.pos(c.site.Pos()))
	}
	if len(c.args) == 1 {
		k := st.norm(c.args[0]).inner().Key()
		switch {
		case strings.HasSuffix(c.name, ".GetType"):
			if ch, ok := s.child[k]; ok && ch.t != nil {
				return single(st, ch.t.ct), true
			}
		case strings.HasSuffix(c.name, ".String") && !(s.typeTexts && (strings.Contains(c.name, "Builder)") || strings.Contains(c.name, "/internals/ctypes."))):
			return single(st, vSym("text:"+k, types.Typ[types.String])), true
		case strings.HasSuffix(c.name, ".GetToken"):
			return single(st, vSym("token:"+k, c.rt)), true
		}
	}
	if c.fn == nil {
		return nil, false
	}
	switch c.fn {
	case s.a.analyzeExpr:
		k := st.norm(c.args[1]).inner().Key()
		if ch, ok := s.child[k]; ok {
			st.emit(&Event{Op: "expr", Args: []*Val{vSym(k, nil)}, Pos: c.site.Pos(), Fn: c.caller.Name()})
			return single(st, ch.t.ct), true
		}
	case s.a.analyzeStmt:
		k := st.norm(c.args[1]).inner().Key()
		if _, ok := s.stmtTerm[k]; ok {
			st.emit(&Event{Op: "stmt", Args: []*Val{vSym(k, nil)}, Pos: c.site.Pos(), Fn: c.caller.Name()})
			return single(st, nil), true
		}
	}
	// the words of a message do not matter
	if p := fnPkg(c.fn); p != nil && strings.HasSuffix(p.Path(), "/internals/semantic") && c.rt != nil && types.Identical(c.rt, types.Typ[types.String]) && len(c.args) <= 2 && c.fn.Signature.Recv() != nil && c.fn.Name() != "TranslateName" {
		return single(st, vSym("text:"+c.fn.Name(), types.Typ[types.String])), true
	}
	return nil, false
}

// verdicts runs the analyzer on a program; the strings are "accepted", "rejected" or what went wrong.
func (s *Scen) verdicts(stmts ...*Val) []Outcome {
	s.prog = stmts
	p := s.in.newObj(s.st, "program", s.in.w.typ("internals/ast", "Program"))
	s.in.setField(s.st, p, "ID", vStr("id"))
	s.in.setField(s.st, p, "Statements", s.in.list(s.st, "program.Statements", s.in.w.typ("internals/ast", "Statement"), stmts...))
	s.program = p
	return s.in.Call(s.sem.analyze, []*Val{s.c, p}, nil, s.st, "analyze", 0)
}

func (s *Scen) verdict(o Outcome) string {
	switch o.Kind {
	case OStop:
		return "rejected"
	case OPanic:
		return "crash: " + o.Msg
	case OExit:
		return "exit: " + o.Msg
	}
	v := s.in.field(o.St, s.c, "Errors")
	if v != nil && v.K == KSlice && v.N == 0 && v.S == "" {
		return "accepted"
	}
	return "rejected"
}

// judge: every path gives the expected verdict. more is asked about accepting paths.
func (r *Report) judge(s *Scen, outs []Outcome, rule, construct string, valid bool, more func(o Outcome) (bool, string)) {
	if f := os.Getenv("CC_ONLY"); f != "" && !strings.Contains(construct, f) {
		return
	}
	r.Analysed(s.in)
	if s.in.budgetHit {
		return
	}
	if r.override != nil {
		for _, o := range outs {
			if s.verdict(o) == "accepted" {
				ok, d := r.override(s, o)
				r.parent.Ob(ok, r.overrideRule, r.prop+" "+rule+": "+construct, lastPos(o), "%s", d)
			}
		}
		return
	}
	want := "rejected"
	if valid {
		want = "accepted"
	}
	if len(outs) == 0 {
		r.Ob(false, rule, construct, token.NoPos, "no path through the analysis")
	}
	for _, o := range outs {
		got := s.verdict(o)
		pos := o.Pos
		if !pos.IsValid() {
			pos = lastPos(o)
		}
		if got != want {
			r.Ob(false, rule, construct, pos, "the program is %s and should be %s\n    path:%s", got, want, traceStr(s.in, o.St))
			continue
		}
		ok, d := true, ""
		if valid && more != nil {
			ok, d = more(o)
		}
		r.Ob(ok, rule, construct, pos, "%s", d)
	}
}

// ---- programs ------------------------------------------------------------------------------------------------

func (s *Scen) nextID(p string) string { s.nid++; return fmt.Sprintf("%s~%d", p, s.nid) }

// mk builds an AST node; kv alternates field names and values.
func (s *Scen) mk(typ string, kv ...any) *Val {
	b := s.node(s.nextID(typ), typ)
	if t := s.in.w.typ("internals/ast", typ); fieldIndex(t, "Node") >= 0 {
		s.in.set(s.st, b, "Node.Type", s.todo().ct)
	}
	for i := 0; i+1 < len(kv); i += 2 {
		f := kv[i].(string)
		switch v := kv[i+1].(type) {
		case *Val:
			if v == nil {
				v = vNilT(s.in.fieldType2("internals/ast", typ, f))
			} else if ft := s.in.fieldType2("internals/ast", typ, f); ft != nil && !isIface(ft) && v.K == KIface {
				v = v.inner()
			}
			s.in.setField(s.st, b, f, v)
		case *CT:
			s.in.set(s.st, b, f, v.ct)
		case string:
			s.in.setField(s.st, b, f, vStr(v))
		case bool:
			s.in.setField(s.st, b, f, vBool(v))
		case []*Val:
			et := s.in.fieldType2("internals/ast", typ, f).Underlying().(*types.Slice).Elem()
			s.in.setField(s.st, b, f, s.in.list(s.st, b.O.ID+"."+f, et, v...))
		case []*CT:
			et := s.in.fieldType2("internals/ast", typ, f).Underlying().(*types.Slice).Elem()
			var l []*Val
			for _, c := range v {
				l = append(l, c.ct)
			}
			s.in.setField(s.st, b, f, s.in.list(s.st, b.O.ID+"."+f, et, l...))
		case []string:
			var l []*Val
			for _, c := range v {
				l = append(l, vStr(c))
			}
			s.in.setField(s.st, b, f, s.in.list(s.st, b.O.ID+"."+f, types.Typ[types.String], l...))
		default:
			panic(fmt.Sprintf("mk %T", v))
		}
	}
	return s.iface(b)
}

func (s *Scen) todo() *CT {
	f := s.in.w.fn("internals/ctypes", "TODO")
	outs := s.in.Call(f, nil, nil, s.st, "todo", 0)
	return &CT{name: "?", ct: outs[0].Res}
}

// e is any expression of a type.
func (s *Scen) e(t *CT) *Val { return s.addChild(s.nextID("e"), t, LV) }

// st1 is any statement that falls through.
func (s *Scen) st1() *Val { return s.leaf(s.nextID("stmt"), "") }

func (s *Scen) va(name string) *Val { return s.mk("Identifier", "Name", name) }

func (s *Scen) bop(op string, l, r *Val) *Val {
	return s.mk("BinaryOperation", "Left", l, "Right", r, "Operation", s.op(op))
}
func (s *Scen) pop(op string, r *Val) *Val {
	return s.mk("PrefixOperation", "Right", r, "Operation", s.op(op))
}
func (s *Scen) blk(stmts ...*Val) *Val { return s.mk("Block", "Statements", stmts) }

// vdecl declares a variable; t nil leaves the type to the expression.
func (s *Scen) vdecl(name string, t *CT, e *Val, constant bool) *Val {
	if t == nil {
		t = s.todo()
	}
	d := s.mk("DeclarationStatement", "Name", name, "Type", t, "Expression", e, "Constant", constant)
	s.declared = append(s.declared, d)
	return d
}
func (s *Scen) asg(l, r *Val) *Val { return s.mk("AssignmentStatement", "Left", l, "Expression", r) }
func (s *Scen) xs(e *Val) *Val     { return s.mk("ExpressionStatement", "Expression", e) }
func (s *Scen) ret(e *Val) *Val    { return s.mk("ReturnStatement", "Expression", e) }
func (s *Scen) iff(c *Val, then *Val, els *Val) *Val {
	return s.ifStmt(s.nextID("if"), c, then.inner(), nil, innerOf(els))
}
func innerOf(v *Val) *Val {
	if v == nil {
		return nil
	}
	return v.inner()
}

// fnc declares a function; the type it gets is returned too.
func (s *Scen) fnc(name string, ret *CT, names []string, params []*CT, stmts ...*Val) (*Val, *CT) {
	v := s.fn(s.nextID("fn:"+name), name, false, ret, names, params, stmts...)
	t := s.in.field(s.st, v, "FunctionType")
	return v, &CT{name: "func " + name, ct: vIface(types.NewPointer(t.O.T), t)}
}
func (s *Scen) lambda(ret *CT, names []string, params []*CT, stmts ...*Val) *Val {
	return s.fn(s.nextID("lambda"), "", true, ret, names, params, stmts...)
}

// inMain makes the statements the body of the program's main function.
func (s *Scen) inMain(stmts ...*Val) *Val {
	v, _ := s.fnc("main", nil, nil, nil, s.looped(stmts)...)
	return v
}

// ---- types ---------------------------------------------------------------------------------------------------

func (s *Scen) tyObj(kind string) *Val {
	t := s.in.w.typ("internals/ctypes", kind)
	p := s.in.newObj(s.st, s.nextID("ct:"+kind), t)
	s.st.heap[p.O] = zeroVal(t)
	return p
}
func (s *Scen) tyVal(name string, p *Val) *CT {
	return &CT{name: name, ct: vIface(types.NewPointer(p.O.T), p)}
}
func (s *Scen) cts(ts []*CT) *Val {
	var l []*Val
	for _, c := range ts {
		l = append(l, c.ct)
	}
	return s.in.list(s.st, s.nextID("types"), s.in.w.typ("internals/ctypes", "Type"), l...)
}
func (s *Scen) strs(ts []string) *Val {
	var l []*Val
	for _, c := range ts {
		l = append(l, vStr(c))
	}
	return s.in.list(s.st, s.nextID("strings"), types.Typ[types.String], l...)
}
func (s *Scen) tPtr(t *CT) *CT {
	p := s.tyObj("Pointer")
	s.in.setField(s.st, p, "Inner", t.ct)
	return s.tyVal("*"+t.name, p)
}
func (s *Scen) tArr(n int64, t *CT) *CT {
	p := s.tyObj("Array")
	s.in.setField(s.st, p, "Inner", t.ct)
	s.in.setField(s.st, p, "Length", vIntT(n, types.Typ[types.Int64]))
	return s.tyVal(fmt.Sprintf("[%d]%s", n, t.name), p)
}
func (s *Scen) tFunc(ret *CT, params ...*CT) *CT {
	p := s.tyObj("Function")
	s.in.setField(s.st, p, "Parameters", s.cts(params))
	s.in.setField(s.st, p, "Return", ret.ct)
	return s.tyVal("func", p)
}
func (s *Scen) tList(ts ...*CT) *CT {
	p := s.tyObj("TypeList")
	s.in.setField(s.st, p, "Types", s.cts(ts))
	return s.tyVal("list", p)
}

// tRec is a struct or union; decl is its declaration in the program.
func (s *Scen) tRec(kind, name string, names []string, fields ...*CT) (t *CT, decl *Val) {
	p := s.tyObj(kind)
	s.in.setField(s.st, p, "Name", vStr(name))
	s.in.setField(s.st, p, "Fields", s.cts(fields))
	s.in.setField(s.st, p, "Names", s.strs(names))
	return s.tyVal(name, p), s.mk(kind+"Statement", "Type", p)
}

// tNamed is a type given by its name.
func (s *Scen) tNamed(name string) *CT {
	p := s.tyObj("Anonymous")
	s.in.setField(s.st, p, "Name", vStr(name))
	return s.tyVal(name, p)
}

// isLeaf: the symbol is an abstract part of the program, one of a kind.
func (s *Scen) isLeaf(k string) bool {
	_, e := s.child[k]
	_, t := s.stmtTerm[k]
	return e || t
}
