package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pkgFuncs are the functions of a package with the functions in them and the methods bound in it.
func (w *World) pkgFuncs(suffix string) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	sp := w.ssaPkg(suffix)
	if sp == nil {
		return r
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || r[f] || len(f.Blocks) == 0 {
			return
		}
		if p := fnPkg(f); p == nil || p != sp.Pkg {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok {
					if g, ok := m.Fn.(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if m.Name() != "init" {
				add(m)
			}
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				if !isIface(t) {
					for _, f := range w.methods(t) {
						add(f)
					}
				}
			}
		}
	}
	return r
}

// fieldOf is the index of the field of a structure a value is loaded from, and what the structure is, or nil.
func fieldLoad(v ssa.Value) (base ssa.Value, path []int) {
	switch x := v.(type) {
	case *ssa.UnOp:
		a := x.X
		for {
			fa, ok := a.(*ssa.FieldAddr)
			if !ok {
				return a, path
			}
			path = append([]int{fa.Field}, path...)
			a = fa.X
		}
	case *ssa.Field:
		b, p := fieldLoad(x.X)
		return b, append(append([]int(nil), p...), x.Field)
	}
	return v, nil
}

func parserProgress(w *World, pa *ParseAnchors, r *Report) *progress {
	s := NewParse(w, pa, nil)
	if s.bad != "" {
		return nil
	}
	typeIdx := fieldIndex(pa.tokenT, "Type")
	kindT := pa.tokenT.Underlying().(*types.Struct).Field(typeIdx).Type()
	p := &progress{w: w, r: r, fns: w.pkgFuncs("internals/parser"), cache: map[string]*Val{}}
	sp := w.byPath[modPath+"/internals/token"].Types.Scope()
	for _, n := range sp.Names() {
		if c, ok := sp.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), kindT) {
			k := vConst(c.Val(), c.Type())
			if n == "EOF" {
				p.end = k
			} else {
				p.kinds = append(p.kinds, k)
			}
		}
	}
	if p.end == nil || len(p.kinds) == 0 {
		return nil
	}
	isLex := func(f *ssa.Function) bool {
		sig := f.Signature
		return sig.Recv() != nil && types.Identical(sig.Recv().Type(), pa.lexerT) && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), pa.tokenT)
	}
	p.prim = isLex
	// the token that was read last, and the one before it
	next, cur := -1, -1
	st := elemOf(pa.parserT).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), pa.tokenT) {
			read := false
			for f := range p.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if x, ok := in.(*ssa.Store); ok {
							fa, ok := x.Addr.(*ssa.FieldAddr)
							if c, isCall := x.Val.(*ssa.Call); ok && isCall && fa.Field == i && types.Identical(fa.X.Type(), pa.parserT) && c.Call.StaticCallee() != nil && isLex(c.Call.StaticCallee()) {
								read = true
							}
						}
					}
				}
			}
			if read {
				next = i
			} else {
				cur = i
			}
		}
	}
	if next < 0 || cur < 0 {
		return nil
	}
	p.known = func(v ssa.Value) string {
		b, path := fieldLoad(v)
		if b == nil || len(path) != 2 || !types.Identical(b.Type(), pa.parserT) || path[1] != typeIdx {
			return ""
		}
		switch path[0] {
		case cur:
			return "current"
		case next:
			return "next"
		}
		return ""
	}
	p.look = func(m ssa.Value, key *Val) (*Val, bool, bool) {
		var mv *Val
		st0 := s.st
		if u, ok := m.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				mv = s.st.load(vPtr(s.in.globalObj(g)))
			}
		}
		if b, path := fieldLoad(m); mv == nil && len(path) == 1 && b != nil && types.Identical(b.Type(), pa.parserT) {
			mv = component(s.st.load(s.p), path[0])
		}
		if mv == nil {
			return nil, false, false
		}
		mv = st0.norm(mv)
		o := s.in.mapObj(st0, mv)
		if o == nil {
			return nil, false, false
		}
		c := st0.content(o)
		if c.K != KMapV || c.S != "" || len(c.M) == 0 || !allConst(c) {
			return nil, false, false
		}
		v, ok := c.M[key.Key()]
		return v, ok, true
	}
	p.call = func(f *ssa.Function, args []*Val, k *Val, eof bool) *Val {
		if !p.fns[f] {
			return nil
		}
		st := s.st.clone()
		o := s.in.newObj(st, "reader", elemOf(pa.parserT))
		st.heap[o.O] = expand(vSym("reader", elemOf(pa.parserT)))
		tok := func(name string, k *Val) *Val {
			v := expand(vSym(name, pa.tokenT))
			if k != nil {
				v = setPath(v, []int{typeIdx}, k)
			}
			return v
		}
		set := func(i int, v *Val) { st.heap[o.O] = setPath(st.heap[o.O], []int{i}, v) }
		whole := s.st.load(s.p)
		ps := elemOf(pa.parserT).Underlying().(*types.Struct)
		for i := 0; i < ps.NumFields(); i++ {
			if _, isMap := ps.Field(i).Type().Underlying().(*types.Map); isMap {
				set(i, component(whole, i))
			}
		}
		set(cur, tok("current", k))
		nk := (*Val)(nil)
		if eof {
			nk = k
		}
		set(next, tok("next", nk))
		sub := NewInterp(w)
		as, free, ok := callArgs(sub, st, f, args, pa.parserT, vPtr(o.O))
		if !ok {
			return nil
		}
		reads := false
		sub.hooks = []Hook{func(c *CallCtx) ([]Outcome, bool) {
			if c.fn != nil && isLex(c.fn) {
				reads = true
				return single(c.st, vSym("token", pa.tokenT)), true
			}
			return nil, false
		}, s.hook, modelHook}
		outs := sub.Call(f, as, free, st, "helper", 0)
		if reads || sub.budgetHit || len(outs) == 0 {
			return nil
		}
		var r *Val
		for _, o := range outs {
			if o.Kind != ORet || o.Res == nil {
				return nil
			}
			v := o.St.norm(o.Res)
			if v.K != KConst || r != nil && r.Key() != v.Key() {
				return nil
			}
			r = v
		}
		return r
	}
	return p
}

// callArgs are the arguments and captured variables of a call, of which only some may be known.
func callArgs(in *Interp, st *State, f *ssa.Function, args []*Val, readerT types.Type, reader *Val) (as, free []*Val, ok bool) {
	for i, a := range args {
		t := f.Params[i].Type()
		switch {
		case types.Identical(t, readerT):
			a = reader
		case a != nil && a.K == KFunc && len(a.Fn.FreeVars) > 0:
			return nil, nil, false
		case a == nil:
			a = vSym("arg"+f.Params[i].Name(), t)
		case a.K == KTuple:
			o := in.newObj(st, "arguments", t.Underlying().(*types.Slice).Elem())
			v := &Val{K: KVec, M: map[string]*Val{}, T: t.Underlying().(*types.Slice).Elem()}
			for j, e := range a.A {
				v.M[strconv.Itoa(j)] = e
			}
			st.heap[o.O] = v
			a = &Val{K: KSlice, O: o.O, N: len(a.A), T: t}
		}
		as = append(as, a)
	}
	for _, v := range f.FreeVars {
		switch {
		case types.Identical(v.Type(), readerT):
			free = append(free, reader)
		case types.Identical(v.Type(), types.NewPointer(readerT)):
			o := in.newObj(st, "captured", readerT)
			st.store(o, reader)
			free = append(free, o)
		default:
			return nil, nil, false
		}
	}
	return as, free, true
}

func lexerProgress(w *World, pa *ParseAnchors, r *Report) *progress {
	p := &progress{w: w, r: r, fns: w.pkgFuncs("internals/lexer"), cache: map[string]*Val{}}
	byteT := types.Typ[types.Byte]
	st, ok := elemOf(pa.lexerT).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	cur := -1
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), byteT) {
			if cur >= 0 {
				return nil
			}
			cur = i
		}
	}
	if cur < 0 {
		return nil
	}
	for i := 0; i < 256; i++ {
		k := vConst(constant.MakeInt64(int64(i)), byteT)
		if i == 0 {
			p.end = k
		} else {
			p.kinds = append(p.kinds, k)
		}
	}
	reads := map[*ssa.Function]bool{}
	for f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == cur && types.Identical(fa.X.Type(), pa.lexerT) {
						reads[f] = true
					}
				}
			}
		}
	}
	p.prim = func(f *ssa.Function) bool { return reads[f] }
	p.known = func(v ssa.Value) string {
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && p.fns[f] && !p.prim(f) && types.Identical(c.Type(), byteT) && len(c.Call.Args) == 1 && types.Identical(c.Call.Args[0].Type(), pa.lexerT) {
				return "next"
			}
		}
		b, path := fieldLoad(v)
		if b != nil && len(path) == 1 && types.Identical(b.Type(), pa.lexerT) && path[0] == cur {
			return "current"
		}
		return ""
	}
	rest := map[int]*Val{}
	for i := 0; i < st.NumFields(); i++ {
		if t := st.Field(i).Type(); isStr(t) {
			rest[i] = vConst(constant.MakeString(""), t)
		} else if types.Identical(t, types.Typ[types.Int]) {
			rest[i] = vInt(1)
		}
	}
	p.atEnd = func(v ssa.Value) *Val {
		b, path := fieldLoad(v)
		if b != nil && len(path) == 1 && types.Identical(b.Type(), pa.lexerT) {
			return rest[path[0]]
		}
		return nil
	}
	p.look = func(m ssa.Value, key *Val) (*Val, bool, bool) { return nil, false, false }
	in := NewInterp(w)
	in.hooks = []Hook{modelHook}
	p.call = func(f *ssa.Function, args []*Val, k *Val, eof bool) *Val {
		if !p.fns[f] {
			return nil
		}
		st := newState(w.globalHeap)
		o := in.newObj(st, "lexer", elemOf(pa.lexerT))
		st.heap[o.O] = setPath(expand(vSym("lexer", elemOf(pa.lexerT))), []int{cur}, k)
		if eof {
			// nothing is left: every position is past the end of the text
			for i, v := range rest {
				st.heap[o.O] = setPath(st.heap[o.O], []int{i}, v)
			}
		}
		as, free, ok := callArgs(in, st, f, args, pa.lexerT, vPtr(o.O))
		if !ok {
			return nil
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil && p.prim(c.Call.StaticCallee()) {
					return nil
				}
			}
		}
		outs := in.Call(f, as, free, st, "helper", 0)
		if len(outs) == 0 {
			return nil
		}
		var r *Val
		for _, o := range outs {
			if o.Kind != ORet || o.Res == nil {
				return nil
			}
			v := o.St.norm(o.Res)
			if v.K != KConst || r != nil && r.Key() != v.Key() {
				return nil
			}
			r = v
		}
		return r
	}
	return p
}

func init() {
	register(&Prop{id: "C28",
		explanation: "Every loop and every recursion of the lexer and the parser is followed once for each character or token that can be at hand: each way around has to read something or count, and none may be possible at the end of the text, which stays at hand forever.",
		rules:       []string{"loops read or count", "loops end at the end of the text", "recursion reads", "recursion ends at the end of the text", "every token takes at least one character", "types that contain themselves are rejected"},
		run: func(w *World, a *Anchors, r *Report) {
			pa := w.parseAnchors()
			if pa.problem != "" {
				r.Ob(false, "anchors", pa.problem, 0, "not found")
				return
			}
			l := lexerProgress(w, pa, r)
			if l == nil {
				r.Ob(false, "anchors", "the character at hand in the lexer", 0, "not found")
				return
			}
			l.check("lexer")
			var names []string
			for f := range l.fns {
				if sig := f.Signature; sig.Recv() != nil && types.Identical(sig.Recv().Type(), pa.lexerT) && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), pa.tokenT) {
					names = append(names, f.Name())
				}
			}
			sort.Strings(names)
			for _, n := range names {
				f := w.methodOf(pa.lexerT, n)
				if f == nil || !strings.HasPrefix(n, "Next") && !f.Object().Exported() {
					continue
				}
				for _, k := range l.kinds {
					r.Ob(!l.back[pkey(l.instance(f, nil), k)], "tokens take characters", f.Name()+" at character "+k.Key(), f.Pos(), "%s can return a token without reading character %s", f.String(), k.Key())
				}
			}
			pr := parserProgress(w, pa, r)
			if pr == nil {
				r.Ob(false, "anchors", "the tokens at hand in the parser", 0, "not found")
				return
			}
			pr.check("parser")
			recursiveTypes(w, a, r)
			for f := range pr.fns {
				r.funcs[f.String()] = true
			}
			for f := range l.fns {
				r.funcs[f.String()] = true
			}
		}})
}
