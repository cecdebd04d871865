package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- anchors -------------------------------------------------------------------------------------------------

type Anchors struct {
	compT, semT, parsT                     types.Type
	compileExpr, compileConst, compileStmt *ssa.Function
	analyzeExpr, analyzeStmt               *ssa.Function
	eqFns                                  map[*ssa.Function]bool
	builtinInit                            *ssa.Function
	problems                               []string
}

func typeSwitchWidth(fn *ssa.Function, param int) int {
	n := map[string]bool{}
	if fn == nil || param >= len(fn.Params) {
		return 0
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ta, ok := i.(*ssa.TypeAssert); ok && ta.X == ssa.Value(fn.Params[param]) {
				n[ta.AssertedType.String()] = true
			}
		}
	}
	return len(n)
}

func (w *World) anchors() *Anchors {
	a := &Anchors{eqFns: map[*ssa.Function]bool{}}
	a.compT = w.ptrTyp("internals/compiler", "Compiler")
	a.semT = w.ptrTyp("internals/semantic", "Semantic")
	a.parsT = w.ptrTyp("internals/parser", "Parser")
	exprI := w.typ("internals/ast", "Expression")
	nodeI := w.typ("internals/ast", "Node")
	stmtI := w.typ("internals/ast", "Statement")
	ctI := w.typ("internals/ctypes", "Type")
	valI := w.typ(llir+"/value", "Value")
	conI := w.typ(llir+"/constant", "Constant")
	pick := func(recv types.Type, p types.Type, r types.Type, what string) *ssa.Function {
		var best *ssa.Function
		bw := 3
		if recv == nil {
			return nil
		}
		for _, f := range w.methods(recv) {
			s := f.Signature
			if s.Params().Len() != 1 || !types.Identical(s.Params().At(0).Type(), p) {
				continue
			}
			if r == nil && s.Results().Len() != 0 || r != nil && (s.Results().Len() != 1 || !types.Identical(s.Results().At(0).Type(), r)) {
				continue
			}
			if n := typeSwitchWidth(f, 1); n > bw {
				best, bw = f, n
			}
		}
		if best == nil {
			a.problems = append(a.problems, "no dispatcher found for "+what)
		}
		return best
	}
	a.compileExpr = pick(a.compT, exprI, valI, "expression code generation")
	a.compileConst = pick(a.compT, exprI, conI, "constant code generation")
	a.compileStmt = pick(a.compT, nodeI, nil, "statement code generation")
	a.analyzeExpr = pick(a.semT, exprI, ctI, "expression analysis")
	a.analyzeStmt = pick(a.semT, stmtI, nil, "statement analysis")
	if a.compT != nil {
		for _, f := range w.methods(a.compT) {
			if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if mu, ok := i.(*ssa.MapUpdate); ok {
						if c, ok := mu.Key.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "\"cast\"" {
							a.builtinInit = f
						}
					}
				}
			}
		}
		if a.builtinInit == nil {
			a.problems = append(a.problems, "the table of builtin code generators")
		}
	}
	if a.semT != nil {
		for _, f := range w.methods(a.semT) {
			s := f.Signature
			if s.Params().Len() == 2 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), ctI) && types.Identical(s.Params().At(1).Type(), ctI) && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool]) {
				a.eqFns[f] = true
			}
		}
	}
	return a
}

// ---- value construction --------------------------------------------------------------------------------------

// set assigns a field path ("Node.Type") below a pointer value, materialising unknown objects on the way.
func (in *Interp) set(st *State, p *Val, path string, v *Val) {
	parts := strings.Split(path, ".")
	for _, f := range parts[:len(parts)-1] {
		p = in.field(st, p, f)
	}
	in.setField(st, p, parts[len(parts)-1], v)
}

func (in *Interp) get(st *State, p *Val, path string) *Val {
	for _, f := range strings.Split(path, ".") {
		p = in.field(st, p, f)
		if p == nil {
			return nil
		}
	}
	return p
}

func (in *Interp) newObj(st *State, id string, t types.Type) *Val {
	o := in.obj(id, t, true)
	st.heap[o] = zeroVal(t)
	return vPtr(o)
}

func (in *Interp) list(st *State, id string, elem types.Type, vs ...*Val) *Val {
	o := in.obj(id, elem, true)
	v := &Val{K: KVec, M: map[string]*Val{}, T: elem}
	for i, x := range vs {
		v.M[fmt.Sprint(i)] = x
	}
	st.heap[o] = v
	return &Val{K: KSlice, O: o, N: len(vs), T: types.NewSlice(elem)}
}

// baseList is a slice with an unknown prefix followed by the given elements.
func (in *Interp) baseList(st *State, base string, elem types.Type, vs ...*Val) *Val {
	o := in.obj("list:"+base, elem, true)
	v := &Val{K: KVec, S: base, M: map[string]*Val{}, T: elem}
	for i, x := range vs {
		v.M[fmt.Sprint(i)] = x
	}
	st.heap[o] = v
	return &Val{K: KSlice, O: o, S: base, N: len(vs), T: types.NewSlice(elem)}
}

// ---- Candice types -------------------------------------------------------------------------------------------

type CT struct {
	name string
	ct   *Val // ctypes.Type
	ll   *Val // LLVM type
}

func (in *Interp) ctp(name string) types.Type { return in.w.ptrTyp("internals/ctypes", name) }

// ctGlobal: shared type objects such as ctypes.I32
func (in *Interp) ctGlobal(name string) *Val {
	sp := in.w.ssaPkg("internals/ctypes")
	g, _ := sp.Members[name].(*ssa.Global)
	if g == nil {
		return nil
	}
	v := in.w.globalHeap[in.globalObj(g)]
	if v == nil {
		return nil
	}
	if v.K == KIface {
		return v
	}
	return vIface(elemOf(g.Type()), v)
}

func (in *Interp) num(st *State, kind string, bits int64, id string) *CT {
	// kind: Integer, UInteger, Float
	t := in.w.typ("internals/ctypes", kind)
	p := in.newObj(st, "ct:"+id, t)
	bt := types.Typ[types.Uint]
	var bv *Val
	if bits > 0 {
		bv = vIntT(bits, bt)
	} else {
		bv = vSym("bits:"+id, bt)
	}
	in.setField(st, p, "BitSize", bv)
	c := &CT{name: id, ct: vIface(types.NewPointer(t), p)}
	if kind == "Float" {
		if bits == 64 {
			c.ll = in.lltGlobal("Double")
		} else {
			c.ll = in.lltGlobal("Float")
		}
		return c
	}
	lt := in.llt("IntType")
	lp := in.newObj(st, "ll:"+id, lt)
	in.setField(st, lp, "BitSize", retype(bv, types.Typ[types.Uint64]))
	c.ll = vIface(types.NewPointer(lt), lp)
	return c
}

// shared returns the CT of one of the predeclared numeric types.
func (in *Interp) shared(st *State, name string) *CT {
	v := in.ctGlobal(name)
	k := map[byte]string{'I': "I", 'U': "I", 'F': "F"}[name[0]]
	if k == "I" {
		lt := in.llt("IntType")
		lp := in.newObj(st, "ll:"+name, lt)
		b := in.field(st, v, "BitSize")
		in.setField(st, lp, "BitSize", retype(b, types.Typ[types.Uint64]))
		return &CT{name: name, ct: v, ll: vIface(types.NewPointer(lt), lp)}
	}
	ll := in.lltGlobal("Double")
	if name == "F32" {
		ll = in.lltGlobal("Float")
	}
	return &CT{name: name, ct: v, ll: ll}
}

func (in *Interp) ptrTo(st *State, c *CT) *CT {
	t := in.w.typ("internals/ctypes", "Pointer")
	p := in.newObj(st, "ct:*"+c.name, t)
	in.setField(st, p, "Inner", c.ct)
	return &CT{name: "*" + c.name, ct: vIface(types.NewPointer(t), p), ll: in.llPtr(st, c.ll)}
}

func (in *Interp) arrayOf(st *State, c *CT, n int64) *CT {
	t := in.w.typ("internals/ctypes", "Array")
	id := fmt.Sprintf("[%d]%s", n, c.name)
	p := in.newObj(st, "ct:"+id, t)
	in.setField(st, p, "Inner", c.ct)
	in.setField(st, p, "Length", vIntT(n, types.Typ[types.Int64]))
	lt := in.llt("ArrayType")
	lp := in.newObj(st, "ll:"+id, lt)
	in.setField(st, lp, "ElemType", c.ll)
	in.setField(st, lp, "Len", vIntT(n, types.Typ[types.Uint64]))
	return &CT{name: id, ct: vIface(types.NewPointer(t), p), ll: vIface(types.NewPointer(lt), lp)}
}

func (in *Interp) structOf(st *State, kind, name string, names []string, fields ...*CT) *CT {
	t := in.w.typ("internals/ctypes", kind)
	p := in.newObj(st, "ct:"+kind+" "+name, t)
	in.setField(st, p, "Name", vStr(name))
	var fs, ns, ls []*Val
	for i, f := range fields {
		fs = append(fs, f.ct)
		ns = append(ns, vStr(names[i]))
		ls = append(ls, f.ll)
	}
	in.setField(st, p, "Fields", in.list(st, "fields:"+name, in.w.typ("internals/ctypes", "Type"), fs...))
	in.setField(st, p, "Names", in.list(st, "names:"+name, types.Typ[types.String], ns...))
	if kind == "Union" {
		lt := in.llt("ArrayType")
		lp := in.newObj(st, "ll:"+name, lt)
		in.setField(st, lp, "ElemType", in.lltGlobal("I8"))
		in.setField(st, lp, "Len", vSym("unionsize", types.Typ[types.Uint64]))
		return &CT{name: name, ct: vIface(types.NewPointer(t), p), ll: vIface(types.NewPointer(lt), lp)}
	}
	lt := in.llt("StructType")
	lp := in.newObj(st, "ll:"+name, lt)
	in.setField(st, lp, "TypeName", vStr(name))
	in.setField(st, lp, "Fields", in.list(st, "llfields:"+name, in.w.typ(llir+"/types", "Type"), ls...))
	return &CT{name: name, ct: vIface(types.NewPointer(t), p), ll: vIface(types.NewPointer(lt), lp)}
}

// ---- compiler scenarios --------------------------------------------------------------------------------------

type Mode int

const (
	LV   Mode = iota // the child yields the address of a variable
	RVF              // the child yields a value and asks not to be loaded (a call result)
	RV               // the child yields a plain value (a literal)
	SLIT             // the child yields the address of a fresh aggregate
)

type Child struct {
	t    *CT
	mode Mode
}

type Scen struct {
	captured  []string // variables the next function expression captures
	in        *Interp
	a         *Anchors
	st        *State
	c         *Val
	b0        *Val
	f         *Val
	child     map[string]*Child
	evals     map[string]int
	rootK     string
	rootIn    map[string]bool
	keepBlock bool // children do not move to another block
	stmtMoves bool
	stmtTerm  map[string]string // statement child -> "ret","br","fall" behaviours
	prog      []*Val
	sem       *SemAnchors
	program   *Val
	typeTexts bool // the texts of types matter
	nid       int
	declared  []*Val // the declarations of variables that were made
}

func NewScen(w *World, a *Anchors) *Scen {
	in := NewInterp(w)
	st := newState(w.globalHeap)
	s := &Scen{in: in, a: a, st: st, child: map[string]*Child{}, evals: map[string]int{}, rootIn: map[string]bool{}}
	in.hooks = []Hook{s.hook, modelHook}
	in.leaf = s.isLeaf
	s.c = vSym("c", a.compT)
	bt := w.typ(llir, "Block")
	s.b0 = in.newObj(st, "B0", bt)
	s.f = in.newObj(st, "F", w.typ(llir, "Func"))
	in.setField(st, s.b0, "Parent", s.f)
	if inLoop {
		e0 := in.newObj(st, "E0", bt)
		in.setField(st, e0, "Parent", s.f)
		in.setField(st, e0, "Term", vIface(types.NewPointer(in.w.typ(llir, "TermBr")), vSym("entryterm", types.NewPointer(in.w.typ(llir, "TermBr")))))
		in.setField(st, s.f, "Blocks", in.list(st, "F.Blocks", types.NewPointer(bt), e0, s.b0))
	} else {
		in.setField(st, s.f, "Blocks", in.list(st, "F.Blocks", types.NewPointer(bt), s.b0))
	}
	in.setField(st, s.c, "blocks", in.baseList(st, "c.blocks", types.NewPointer(bt), s.b0))
	in.setField(st, s.c, "currentFunction", s.f)
	for _, f := range []string{"doNotLoadIntoMemory", "doNotAllocate"} {
		in.setField(st, s.c, f, vBool(false))
	}
	for _, f := range []string{"globalBuiltinDefinitions", "builtins"} {
		if i := fieldIndex(elemOf(a.compT), f); i >= 0 {
			in.setField(st, s.c, f, in.newMap(st, "c."+f, elemOf(a.compT).Underlying().(*types.Struct).Field(i).Type()))
		}
	}
	// the table of builtin generators as the compiler itself fills it
	if a.builtinInit != nil {
		if outs := in.Call(a.builtinInit, []*Val{s.c}, nil, st, "builtins", 0); len(outs) == 1 && outs[0].Kind == ORet {
			s.st = outs[0].St
			s.st.trace = nil
		}
	}
	return s
}

// newMap is a map whose content is completely known; kv alternates keys and values.
func (in *Interp) newMap(st *State, id string, t types.Type, kv ...*Val) *Val {
	o := in.obj("map:"+id, t, true)
	c := &Val{K: KMapV, M: map[string]*Val{}, MK: map[string]*Val{}, T: t}
	for i := 0; i+1 < len(kv); i += 2 {
		c.M[kv[i].Key()] = kv[i+1]
		c.MK[kv[i].Key()] = kv[i]
	}
	st.heap[o] = c
	return &Val{K: KMap, O: o, T: t}
}

// structT makes a struct or union type which is defined in the program under compilation.
func (s *Scen) structT(kind, name string, names []string, fields ...*CT) *CT {
	ct := s.in.structOf(s.st, kind, name, names, fields...)
	s.defType(name, ct)
	return ct
}

// defType enters a type into the compiler's table of types.
func (s *Scen) defType(name string, ct *CT) {
	i := fieldIndex(elemOf(s.a.compT), "types")
	if i < 0 {
		return
	}
	mt := elemOf(s.a.compT).Underlying().(*types.Struct).Field(i).Type()
	m := s.in.field(s.st, s.c, "types")
	if m == nil || m.K != KMap {
		m = s.in.newMap(s.st, "c.types", mt)
		s.in.setField(s.st, s.c, "types", m)
	}
	e := s.in.newObj(s.st, "type:"+name, elemOf(mt.Underlying().(*types.Map).Elem()))
	s.in.setField(s.st, e, "llvmType", ct.ll)
	s.in.setField(s.st, e, "candiceType", ct.ct)
	o := s.st.content(m.O)
	c := &Val{K: o.K, M: cp(o.M), MK: cp(o.MK), T: o.T, S: o.S}
	k := vStr(name)
	c.M[k.Key()], c.MK[k.Key()] = e, k
	s.st.heap[m.O] = c
}

func (s *Scen) expr(name string) *Val {
	return s.present(vSym(name, s.in.w.typ("internals/ast", "Expression")))
}
func (s *Scen) stmt(name string) *Val {
	return s.present(vSym(name, s.in.w.typ("internals/ast", "Statement")))
}

// present: the node exists.
func (s *Scen) present(v *Val) *Val {
	if s.st != nil {
		s.in.assume(s.st, s.in.eq(s.st, v, vNil(v.T)), false)
	}
	return v
}

func (s *Scen) addChild(name string, t *CT, m Mode) *Val {
	s.child[name] = &Child{t, m}
	return s.expr(name)
}

// node makes an AST node of the given type.
func (s *Scen) node(name, typ string) *Val {
	t := s.in.w.typ("internals/ast", typ)
	p := s.in.newObj(s.st, name, t)
	if fieldIndex(t, "Node") >= 0 {
		n := s.in.newObj(s.st, name+".Node", s.in.w.typ("internals/node", "Node"))
		s.in.setField(s.st, p, "Node", n)
		s.in.set(s.st, p, "Node.Type", vSym(name+".Type", s.in.w.typ("internals/ctypes", "Type")))
		s.in.set(s.st, p, "Node.Token", vSym(name+".Token", s.in.w.typ("internals/token", "Token")))
	}
	if fieldIndex(t, "Token") >= 0 {
		s.in.setField(s.st, p, "Token", vSym(name+".Token", s.in.w.typ("internals/token", "Token")))
	}
	return p
}

func (s *Scen) iface(p *Val) *Val { return vIface(types.NewPointer(p.O.T), p) }

func (s *Scen) curBlock(st *State, c *Val) (*Val, *Val) {
	l := s.in.field(st, c, "blocks")
	if l == nil || l.K != KSlice || l.S == "" && l.N == 0 {
		return nil, l
	}
	return st.norm(component(st.content(l.O), l.Off+l.N-1)), l
}

func (s *Scen) setCur(st *State, c *Val, b *Val) {
	_, l := s.curBlock(st, c)
	p := vPtr(l.O, l.Off+l.N-1)
	st.store(p, b)
}

func (s *Scen) newBlockAfter(st *State, id string) *Val {
	bt := s.in.w.typ(llir, "Block")
	o := s.in.obj(id, bt, false)
	st.heap[o] = zeroVal(bt)
	b := vPtr(o)
	s.in.setField(st, b, "Parent", s.f)
	f := s.in.field(st, s.c, "currentFunction")
	if f != nil && f.K == KPtr {
		old := s.in.field(st, f, "Blocks")
		s.in.setField(st, f, "Blocks", s.in.appendVals(st, old, []*Val{b}, s.in.fieldType(llir, "Func", "Blocks"), "bls:"+id))
	}
	return b
}

func (s *Scen) hook(c *CallCtx) ([]Outcome, bool) {
	in, st := c.in, c.st
	if strings.HasSuffix(c.name, ".GetType") && len(c.args) == 1 {
		k := st.norm(c.args[0]).inner().Key()
		if ch, ok := s.child[k]; ok && ch.t != nil {
			return single(st, ch.t.ct), true
		}
		return nil, false
	}
	if c.fn == nil {
		return nil, false
	}
	switch c.fn {
	case s.a.compileExpr, s.a.compileConst:
		arg := st.norm(c.args[1])
		k := arg.inner().Key()
		if s.rootIn[k] {
			return nil, false
		}
		return s.evalChild(c, k, c.fn == s.a.compileConst)
	case s.a.compileStmt:
		arg := st.norm(c.args[1])
		if arg.K == KNil { // a part that is not there
			return nil, false
		}
		k := arg.inner().Key()
		if s.rootIn[k] {
			return nil, false
		}
		return s.stmtChild(c, k, arg)
	}
	_ = in
	return nil, false
}

func (s *Scen) evalChild(c *CallCtx, k string, constant bool) ([]Outcome, bool) {
	in, st := c.in, c.st
	nk := "evaln:" + k
	n := 0
	if v, ok := st.attrs[nk]; ok {
		i, _ := v.intConst()
		n = int(i)
	}
	st.attrs[nk] = vInt(int64(n + 1))
	name := "val:" + k
	if n > 0 {
		name = fmt.Sprintf("val:%s#%d", k, n)
	}
	rt := c.rt
	v := vSym(name, rt)
	in.assume(st, in.eq(st, v, vNil(rt)), false) // an expression has a value
	ch := s.child[k]
	ev := &Event{Op: "eval", Args: []*Val{vSym(k, nil)}, Res: v, Pos: c.site.Pos(), Fn: c.caller.Name()}
	if constant {
		ev.Op = "evalconst"
	}
	recv := st.norm(c.args[0])
	cur, _ := s.curBlock(st, recv)
	if cur != nil && cur.K == KPtr {
		ev.Blk = cur.O
	}
	// flags the child leaves behind
	noLoad, noAlloc := false, false
	if ch != nil && ch.t != nil {
		switch ch.mode {
		case LV:
			if constant {
				st.attrs["ty:"+name] = ch.t.ll
			} else {
				st.attrs["ty:"+name] = in.llPtr(st, ch.t.ll)
			}
		case RVF:
			st.attrs["ty:"+name] = ch.t.ll
			noLoad = true
		case RV:
			st.attrs["ty:"+name] = ch.t.ll
		case SLIT:
			st.attrs["ty:"+name] = in.llPtr(st, ch.t.ll)
			noAlloc = true
		}
	}
	if constant {
		noLoad, noAlloc = false, false
		// a constant expression compiles to a constant
		in.assume(st, vTerm("implements:"+shortType(in.w.typ(llir+"/constant", "Constant")), types.Typ[types.Bool], v), true)
		// (of its own: constants that are kept in memory are exercised by name)
		st.notdyn[name] = append(append([]types.Type(nil), st.notdyn[name]...), types.NewPointer(in.w.typ(llir, "Global")))
	}
	if !constant {
		// flags as they were when the child is compiled are observable by the child
		if b, ok := in.field(st, recv, "doNotLoadIntoMemory").boolConst(); !ok || b {
			ev.Args = append(ev.Args, vSym("entered-with-doNotLoad", nil))
		}
		if noLoad {
			in.setField(st, recv, "doNotLoadIntoMemory", vBool(true))
		}
		if noAlloc {
			in.setField(st, recv, "doNotAllocate", vBool(true))
		}
	}
	st.emit(ev)
	if !s.keepBlock && !constant && cur != nil && cur.K == KPtr {
		nb := s.newBlockAfter(st, fmt.Sprintf("after:%s#%d", k, n))
		s.setCur(st, recv, nb)
		in.setField(st, cur, "Term", vIface(types.NewPointer(in.w.typ(llir, "TermBr")), vSym("childterm:"+k, types.NewPointer(in.w.typ(llir, "TermBr")))))
		st.attrs["next:"+cur.O.ID] = nb
	}
	return single(st, v), true
}

func (s *Scen) stmtChild(c *CallCtx, k string, arg *Val) ([]Outcome, bool) {
	in, st := c.in, c.st
	recv := st.norm(c.args[0])
	cur, _ := s.curBlock(st, recv)
	ev := &Event{Op: "stmt", Args: []*Val{vSym(k, nil), arg}, Pos: c.site.Pos(), Fn: c.caller.Name()}
	if cur != nil && cur.K == KPtr {
		ev.Blk = cur.O
		t := in.field(st, cur, "Term")
		if t != nil && t.K != KNil {
			ev.Op = "stmt-dead"
		}
	}
	// break/continue targets in force
	if b := in.field(st, recv, "currentBreakLeaveBlock"); b != nil {
		ev.Args = append(ev.Args, b)
	}
	if b := in.field(st, recv, "currentContinueEscapeBlock"); b != nil {
		ev.Args = append(ev.Args, b)
	}
	st.emit(ev)
	in.setField(st, recv, "doNotLoadIntoMemory", vBool(false))
	in.setField(st, recv, "doNotAllocate", vBool(false))
	if cur == nil || cur.K != KPtr || ev.Op == "stmt-dead" {
		return single(st, nil), true
	}
	kind := s.stmtTerm[k]
	if kind == "term" { // the statement ends its block (return, break)
		in.setField(st, cur, "Term", vIface(types.NewPointer(in.w.typ(llir, "TermRet")), vSym("stmtterm:"+k, types.NewPointer(in.w.typ(llir, "TermRet")))))
		st.attrs["ends:"+cur.O.ID] = vSym(k, nil)
		return single(st, nil), true
	}
	nb := s.newBlockAfter(st, "afterstmt:"+k+":"+c.ctx[:6])
	s.setCur(st, recv, nb)
	in.setField(st, cur, "Term", vIface(types.NewPointer(in.w.typ(llir, "TermBr")), vSym("childterm:"+k, types.NewPointer(in.w.typ(llir, "TermBr")))))
	st.attrs["next:"+cur.O.ID] = nb
	return single(st, nil), true
}

// through lets the generator follow a nested node instead of treating it as an operand.
func (s *Scen) through(v *Val) *Val {
	s.rootIn[v.inner().Key()] = true
	if v.K != KIface {
		return s.iface(v)
	}
	return v
}

// then generates a further construct after each outcome.
func (s *Scen) then(outs []Outcome, fn *ssa.Function, id string, root func(st *State) *Val) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.Kind != ORet {
			r = append(r, o)
			continue
		}
		st := o.St.clone()
		s.st = st
		v := s.through(root(st))
		r = append(r, s.in.Call(fn, []*Val{s.c, v}, nil, st, id, 0)...)
	}
	return r
}

// compileExprOn runs the expression code generator on the given root node.
func (s *Scen) run(fn *ssa.Function, root *Val) []Outcome {
	s.rootIn[root.inner().Key()] = true
	if root.K != KIface && root.K != KSym {
		root = s.iface(root)
	}
	// only the outermost call on the root is followed
	return s.in.Call(fn, []*Val{s.c, root}, nil, s.st, "root", 0)
}

// rv is what a consumer of an expression result reads: the protocol of the code generator is that a pointer is an address to load
// from unless the generator raised the do-not-load flag.
func (s *Scen) rv(o Outcome) string {
	st := o.St
	v := st.norm(o.Res)
	f, known := s.in.field(st, s.c, "doNotLoadIntoMemory").boolConst()
	if !known {
		return "?flag"
	}
	t := s.in.typeOf(st, v)
	isPtr := t.K == KIface && shortType(t.T) == "*types.PointerType"
	if f || !isPtr {
		return s.term(st, v)
	}
	if w := storedIn(s.in, st, v); w != nil {
		return s.term(st, w)
	}
	return "*" + s.term(st, v)
}

// term renders an IR value as an expression over the children.
func (s *Scen) term(st *State, v *Val) string { return termOf(s.in, st, v, 0) }

func termOf(in *Interp, st *State, v *Val, d int) string {
	v = st.norm(v)
	i := v.inner()
	if i == nil {
		return "<nil>"
	}
	if i.K == KSym {
		return strings.TrimPrefix(i.S, "val:")
	}
	if i.K == KConst || i.K == KNil {
		return i.Key()
	}
	if d > 14 {
		return "..."
	}
	df := in.def(st, v)
	if df == nil || df.K != KTerm {
		if i.K == KPtr && len(i.Path) == 0 && strings.HasPrefix(i.O.ID, "@g:") {
			return i.O.ID[3:]
		}
		return i.Key()
	}
	op := df.S
	arg := func(k int) string {
		if k < len(df.A) {
			return termOf(in, st, df.A[k], d+1)
		}
		return "?"
	}
	isConstOp := strings.HasPrefix(op, "const.")
	base := strings.TrimPrefix(op, "const.")
	switch {
	case op == "Load":
		if w := storedIn(in, st, df.A[1]); w != nil {
			return termOf(in, st, w, d+1)
		}
		return "*" + arg(1)
	case op == "const.Int" || op == "const.Float":
		return arg(1)
	case op == "const.Bool":
		switch arg(0) {
		case "true":
			return "1"
		case "false":
			return "0"
		}
		return arg(0)
	case op == "Alloca":
		if w := storedIn(in, st, v); w != nil {
			return "slot(" + termOf(in, st, w, d+1) + ")"
		}
		return "alloca@" + i.O.ID
	case op == "func":
		return "@" + strings.Trim(arg(0), "\"")
	case op == "param":
		return "param:" + strings.Trim(arg(0), "\"")
	case base == "GetElementPtr":
		var x []string
		for k := 1; k < len(df.A); k++ {
			x = append(x, arg(k))
		}
		return "gep(" + strings.Join(x, ",") + ")"
	case castOps[base] && len(df.A) > 1:
		return op + "(" + arg(0) + "->" + llName(in, st, df.A[1]) + ")"
	case base == "ICmp" || base == "FCmp":
		p := predName(in.w, base, df.A[0])
		l, r := arg(1), arg(2)
		if l > r {
			l, r, p = r, l, flipPred(p)
		}
		c := base + "." + p + "(" + l + "," + r + ")"
		if isConstOp {
			return "const." + c
		}
		return c
	case op == "Call":
		var x []string
		for k := 1; k < len(df.A); k++ {
			x = append(x, arg(k))
		}
		return "call " + arg(0) + "(" + strings.Join(x, ",") + ")"
	}
	var x []string
	for k := range df.A {
		x = append(x, arg(k))
	}
	switch base {
	case "Add", "Mul", "And", "Or", "Xor", "FAdd", "FMul":
		if len(x) == 2 && x[0] > x[1] {
			x[0], x[1] = x[1], x[0]
		}
	}
	return op + "(" + strings.Join(x, ",") + ")"
}

// storedIn: the only value ever stored to a stack slot (or a part of one) created on this path.
func storedIn(in *Interp, st *State, p *Val) *Val {
	p = st.norm(p).inner()
	if p == nil || p.K != KPtr || len(p.Path) > 0 {
		return nil
	}
	base, key := slotPart(in, st, p)
	if base == nil {
		return nil
	}
	var r *Val
	for _, e := range st.events() {
		if e.Op != "ir:Store" {
			continue
		}
		q := st.norm(e.Args[1]).inner()
		if q == nil || q.K != KPtr || len(q.Path) > 0 {
			continue
		}
		b2, k2 := slotPart(in, st, q)
		if b2 != base {
			continue
		}
		if k2 != key {
			if strings.HasPrefix(k2, key) || strings.HasPrefix(key, k2) || strings.HasPrefix(k2, "?") || strings.HasPrefix(key, "?") {
				return nil
			}
			continue
		}
		if r != nil {
			return nil
		}
		r = e.Args[0]
	}
	return r
}

// slotPart resolves an address to the stack slot it lies in and the part of the slot ("" for all of it).
func slotPart(in *Interp, st *State, p *Val) (*Obj, string) {
	df := in.def(st, p)
	if df == nil {
		return nil, ""
	}
	switch df.S {
	case "Alloca":
		return p.O, ""
	case "BitCast":
		q := st.norm(df.A[0]).inner()
		if q == nil || q.K != KPtr || len(q.Path) > 0 {
			return nil, ""
		}
		b, k := slotPart(in, st, q)
		if b == nil {
			return nil, ""
		}
		return b, "?" + k
	case "GetElementPtr":
		if len(df.A) < 3 {
			return nil, ""
		}
		q := st.norm(df.A[1]).inner()
		if q == nil || q.K != KPtr || len(q.Path) > 0 {
			return nil, ""
		}
		b, k := slotPart(in, st, q)
		if b == nil {
			return nil, ""
		}
		var ix []string
		for _, x := range df.A[2:] {
			if n, ok := constIndex(in, st, x); ok {
				ix = append(ix, fmt.Sprint(n))
			} else {
				return b, "?"
			}
		}
		return b, k + "." + strings.Join(ix, ".")
	}
	return nil, ""
}

func constIndex(in *Interp, st *State, v *Val) (int64, bool) {
	v = st.norm(v)
	if df := in.def(st, v); df != nil && df.S == "const.Int" {
		return df.A[1].intConst()
	}
	return 0, false
}

var predNames = map[string]map[string]string{}

func predName(w *World, kind string, v *Val) string {
	m := predNames[kind]
	if m == nil {
		m = map[string]string{}
		pk := w.byPath[llir+"/ir/enum"]
		if pk == nil {
			pk = w.byPath[llir+"/enum"]
		}
		if pk != nil {
			pre := map[string]string{"ICmp": "IPred", "FCmp": "FPred"}[kind]
			for _, n := range pk.Types.Scope().Names() {
				if c, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, pre) {
					m[c.Val().ExactString()] = n[len(pre):]
				}
			}
		}
		predNames[kind] = m
	}
	if n, ok := m[v.Key()]; ok {
		return n
	}
	return v.Key()
}

func flipPred(p string) string {
	f := strings.NewReplacer("GT", "LT", "LT", "GT", "GE", "LE", "LE", "GE")
	return f.Replace(p)
}

func llName(in *Interp, st *State, t *Val) string {
	t = st.norm(t)
	if t.K == KPtr && t.O.T != nil {
		t = vIface(types.NewPointer(t.O.T), t)
	}
	if t.K != KIface {
		return t.Key()
	}
	switch shortType(t.T) {
	case "*types.IntType":
		b := in.field(st, t, "BitSize")
		if n, ok := b.intConst(); ok {
			return fmt.Sprintf("i%d", n)
		}
		return "i<" + b.Key() + ">"
	case "*types.FloatType":
		k := in.field(st, t, "Kind")
		for _, n := range []string{"Half", "Float", "Double"} {
			if c, ok := in.w.constInt(llir+"/types", "FloatKind"+n); ok && k.Key() == fmt.Sprint(c) {
				return strings.ToLower(n)
			}
		}
		return "float" + k.Key()
	case "*types.PointerType":
		return llName(in, st, in.field(st, t, "ElemType")) + "*"
	case "*types.ArrayType":
		return "[" + in.field(st, t, "Len").Key() + " x " + llName(in, st, in.field(st, t, "ElemType")) + "]"
	case "*types.StructType":
		return "%" + in.field(st, t, "TypeName").Key()
	case "*types.VoidType":
		return "void"
	case "*types.FuncType":
		return "fn->" + llName(in, st, in.field(st, t, "RetType"))
	}
	return t.Key()
}

// irEvents are the instructions emitted along a path, without allocation noise when asked.
func irOps(st *State) []*Event {
	var r []*Event
	for _, e := range st.events() {
		if strings.HasPrefix(e.Op, "ir:") {
			r = append(r, e)
		}
	}
	return r
}

func firstPos(st *State) token.Pos {
	for _, e := range st.events() {
		if e.Pos.IsValid() {
			return e.Pos
		}
	}
	return token.NoPos
}

func traceStr(in *Interp, st *State) string {
	var b strings.Builder
	for _, e := range st.events() {
		b.WriteString("\n      " + e.Op)
		if e.Blk != nil {
			b.WriteString(" @" + e.Blk.ID)
		}
		for _, a := range e.Args {
			b.WriteString(" " + termOf(in, st, a, 0))
		}
		if e.Res != nil {
			b.WriteString(" => " + e.Res.Key())
		}
	}
	return b.String()
}
