package main

// Programs that are accepted are compiled: every program the analysis scenarios accept is handed on, as the analyzer left it, to the
// code generator, whose paths are followed to their end.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type compAnchors struct {
	newFn  *ssa.Function // makes a generator for an analysed program
	typeOf *ssa.Function // the LLVM type of a type
}

func (w *World) compAnchors(a *Anchors) *compAnchors {
	r := &compAnchors{}
	if sp := w.ssaPkg("internals/compiler"); sp != nil {
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if ok && token.IsExported(f.Name()) && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), a.compT) && f.Signature.Params().Len() > 0 && types.Identical(f.Signature.Params().At(0).Type(), a.semT) {
				r.newFn = f
			}
		}
	}
	ctI, llT := w.typ("internals/ctypes", "Type"), w.typ(llir+"/types", "Type")
	for _, f := range w.methods(a.compT) {
		s := f.Signature
		if s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), ctI) && types.Identical(s.Results().At(0).Type(), llT) {
			if r.typeOf == nil || typeSwitchWidth(f, 1) > typeSwitchWidth(r.typeOf, 1) {
				r.typeOf = f
			}
		}
	}
	return r
}

// compiled runs the code generator on an accepted program.
func (s *Scen) compiled(ca *compAnchors, o Outcome) (*Scen, []Outcome) {
	in := s.in
	st := o.St.clone()
	st.trace = nil
	g := &Scen{in: in, a: s.a, st: st, child: map[string]*Child{}, evals: map[string]int{}, rootIn: map[string]bool{}, keepBlock: true, stmtTerm: s.stmtTerm}
	hooks, onStore := in.hooks, in.onStore
	in.onStore = nil
	in.hooks = []Hook{func(c *CallCtx) ([]Outcome, bool) {
		if strings.HasSuffix(c.name, ".GetType") && len(c.args) == 1 {
			if ch, ok := s.child[c.st.norm(c.args[0]).inner().Key()]; ok && ch.t != nil {
				return single(c.st, ch.t.ct), true
			}
		}
		if c.fn == nil {
			return nil, false
		}
		switch c.fn {
		case s.a.compileExpr, s.a.compileConst:
			k := c.st.norm(c.args[1]).inner().Key()
			ch, ok := s.child[k]
			if !ok {
				return nil, false
			}
			g.c = c.st.norm(c.args[0])
			if ch.t != nil {
				t := *ch.t
				outs := in.Call(ca.typeOf, []*Val{g.c, t.ct}, nil, c.st.clone(), "type:"+k, c.depth+1)
				if len(outs) != 1 || outs[0].Kind != ORet {
					return nil, false
				}
				*c.st = *outs[0].St
				t.ll = c.st.norm(outs[0].Res)
				if c.fn == s.a.compileConst && t.ll.K == KIface && shortType(t.ll.T) == "*types.PointerType" {
					// the only constants of the type of a pointer are texts
					t.ll = in.llArray(c.st, in.field(c.st, t.ll, "ElemType"))
				}
				g.child[k] = &Child{&t, ch.mode}
			}
			return g.evalChild(c, k, c.fn == s.a.compileConst)
		case s.a.compileStmt:
			arg := c.st.norm(c.args[1])
			if arg.K == KNil {
				return nil, false
			}
			if _, ok := s.stmtTerm[arg.inner().Key()]; ok {
				return single(c.st, nil), true
			}
		}
		return nil, false
	}, modelHook}
	defer func() { in.hooks, in.onStore = hooks, onStore }()
	var args []*Val
	args = append(args, s.c)
	for i := 1; i < ca.newFn.Signature.Params().Len(); i++ {
		args = append(args, zeroVal(ca.newFn.Signature.Params().At(i).Type()))
	}
	var r []Outcome
	for _, n := range in.Call(ca.newFn, args, nil, st, "generator", 0) {
		if n.Kind != ORet {
			r = append(r, n)
			continue
		}
		prog := s.program
		g.c = n.St.norm(n.Res)
		r = append(r, in.Call(s.a.compileStmt, []*Val{n.St.norm(n.Res), vIface(types.NewPointer(prog.O.T), prog)}, nil, n.St, "compile", 0)...)
	}
	return g, r
}

func init() {
	register(&Prop{id: "C44", explanation: "every program that the scenarios of the analysis accept is handed to the code generator", rules: []string{"accepted programs compile"}, assumptions: []string{"the library that builds LLVM modules works as documented"}, run: func(w *World, a *Anchors, r *Report) {
		ca := w.compAnchors(a)
		if !a.guard(r) {
			return
		}
		if ca.newFn == nil || ca.typeOf == nil {
			r.Ob(false, "anchors", "constructor of the code generator", 0, "not found")
			return
		}
		for _, id := range []string{"C14", "C15", "C16", "C17", "C18", "C19", "C22", "C24", "C48"} {
			r.again(w, a, id, "accepted programs compile", func(s *Scen, o Outcome) (bool, string) {
				g, outs := s.compiled(ca, o)
				if len(outs) == 0 {
					return false, "the program is accepted, but no path through the code generator ends"
				}
				for _, c := range outs {
					switch c.Kind {
					case OPanic:
						return false, fmt.Sprintf("the program is accepted, but the code generator crashes at %s: %s", w.pos(c.Pos), c.Msg)
					case OExit:
						return false, fmt.Sprintf("the program is accepted, but the code generator gives up at %s: %s", w.pos(c.Pos), c.Msg)
					}
					if ok, d := wellFormed(g, c); !ok {
						return false, d
					}
				}
				return true, ""
			})
		}
	}})
}

func keysOf(vs []*Val) []string {
	var r []string
	for _, v := range vs {
		r = append(r, v.Key())
	}
	return r
}

// llArray is an array of texts' length, which is not known.
func (in *Interp) llArray(st *State, elem *Val) *Val {
	at := in.llt("ArrayType")
	o := in.obj("text("+elem.Key()+")", at, false)
	if _, ok := st.heap[o]; !ok {
		st.heap[o] = zeroVal(at)
		in.setField(st, vPtr(o), "ElemType", elem)
		in.setField(st, vPtr(o), "Len", vSym("textlen", types.Typ[types.Uint64]))
	}
	return vIface(types.NewPointer(at), vPtr(o))
}
