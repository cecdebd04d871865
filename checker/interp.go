package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func hash(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:10])
}

type OutKind uint8

const (
	ORet OutKind = iota
	OPanic
	OExit // process exit (os.Exit, log.Fatal)
	OStop // stopped by a hook (the path is of no further interest)
)

type Outcome struct {
	St   *State
	Res  *Val
	Kind OutKind
	Msg  string
	Pos  token.Pos
}

type CallCtx struct {
	in     *Interp
	st     *State
	fn     *ssa.Function
	name   string
	args   []*Val
	bind   []*Val
	site   ssa.Instruction
	ctx    string
	depth  int
	caller *ssa.Function
	rt     types.Type
}

type Hook func(c *CallCtx) ([]Outcome, bool)

type Interp struct {
	w            *World
	base         map[*Obj]*Val
	globals      map[*ssa.Global]*Obj
	hooks        []Hook
	seq          int
	objs         map[string]*Obj
	steps        int
	maxSteps     int
	leaf         func(k string) bool // symbols that stand for one part of the program each
	plain        func(k string) bool // symbols that are of no particular dynamic type
	started      time.Time
	maxUndec     int
	maxDepth     int
	truncated    map[string]bool
	budgetHit    bool
	mergeFacts   bool
	onStore      func(in *Interp, st *State, fn *ssa.Function, ins *ssa.Store, ptr, val *Val) (stop bool)
	onBranch     func(in *Interp, st *State, ins *ssa.If, cond *Val) (dec, known bool)
	entered      map[*ssa.Function]bool
	assumePanics bool // keep panics of undecided unchecked assertions / nil dereferences as separate outcomes
	inlinePkg    func(p string) bool
	callCount    int
	texts        bool // texts with unknown characters are followed byte by byte
	maxOuts      int
}

func NewInterp(w *World) *Interp {
	in := &Interp{w: w, base: w.globalHeap, globals: w.globalObjs, objs: map[string]*Obj{}, maxSteps: 4000000, maxUndec: 2, maxDepth: 60, maxOuts: maxOutcomes, truncated: map[string]bool{}, entered: map[*ssa.Function]bool{}, mergeFacts: true}
	in.seq = 1000
	in.inlinePkg = w.inlineable
	return in
}

func (in *Interp) obj(id string, t types.Type, root bool) *Obj {
	if o, ok := in.objs[id]; ok {
		return o
	}
	in.seq++
	o := &Obj{ID: id, T: t, Root: root, Seq: in.seq}
	in.objs[id] = o
	return o
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	st     *State
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	visits map[int]int
	undec  map[int]int
	defers []deferred
	rundef bool
	afterD func(f *frame) // unused
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Val
	args []*Val
	site ssa.Instruction
}

func (f *frame) clone() *frame {
	return &frame{fn: f.fn, env: cp(f.env), st: f.st.clone(), blk: f.blk, prev: f.prev, idx: f.idx, visits: cp(f.visits), undec: cp(f.undec), defers: append([]deferred(nil), f.defers...)}
}

func single(st *State, v *Val) []Outcome { return []Outcome{{St: st, Res: v}} }

// Call analyses fn abstractly from state st.
func (in *Interp) Call(fn *ssa.Function, args, bind []*Val, st *State, ctx string, depth int) []Outcome {
	if fn.Blocks == nil {
		return single(st, in.opaque(&CallCtx{in: in, st: st, fn: fn, name: fn.String(), args: args, ctx: ctx, rt: resType(fn.Signature)}))
	}
	in.entered[fn] = true
	mark := in.seq + 1
	f := &frame{fn: fn, env: map[ssa.Value]*Val{}, st: st, blk: fn.Blocks[0], visits: map[int]int{}, undec: map[int]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		}
	}
	outs := in.merge(in.run(f, ctx, depth), mark)
	if len(outs) > in.maxOuts {
		in.truncated["paths:"+fn.String()] = true
		outs = spread(outs, in.maxOuts)
	}
	return outs
}

func (in *Interp) merge(outs []Outcome, mark int) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	for i := range outs {
		outs[i].St.gc(mark, []*Val{outs[i].Res})
	}
	idx := map[string]int{}
	var r []Outcome
	for _, o := range outs {
		rk := "-"
		if o.Res != nil {
			rk = o.Res.Key()
		}
		k := fmt.Sprintf("%d|%s|%s|%s", o.Kind, o.Msg, rk, o.St.stateKey())
		if !in.mergeFacts {
			k += "|" + o.St.factsKey()
		}
		if j, ok := idx[k]; ok {
			r[j].St.intersect(o.St)
			continue
		}
		idx[k] = len(r)
		r = append(r, o)
	}
	return r
}

func (s *State) factsKey() string {
	var x []string
	for k, v := range s.facts {
		x = append(x, fmt.Sprintf("%s=%v", k, v))
	}
	for k, v := range s.bind {
		x = append(x, k+":="+v.Key())
	}
	for k, v := range s.dyn {
		x = append(x, k+"::"+shortType(v))
	}
	for k, v := range s.notdyn {
		x = append(x, fmt.Sprintf("%s!::%d", k, len(v)))
	}
	sort.Strings(x)
	return strings.Join(x, ";")
}

func (s *State) intersect(o *State) {
	for k, v := range s.facts {
		if w, ok := o.facts[k]; !ok || w != v {
			delete(s.facts, k)
		}
	}
	for k, v := range s.bind {
		if w, ok := o.bind[k]; !ok || w.Key() != v.Key() {
			delete(s.bind, k)
		}
	}
	for k, v := range s.dyn {
		if w, ok := o.dyn[k]; !ok || !types.Identical(w, v) {
			delete(s.dyn, k)
		}
	}
	for k, v := range s.notdyn {
		var keep []types.Type
		for _, t := range v {
			if hasType(o.notdyn[k], t) {
				keep = append(keep, t)
			} else if d, ok := o.dyn[k]; ok && !types.Identical(d, t) {
				keep = append(keep, t)
			}
		}
		if len(keep) == 0 {
			delete(s.notdyn, k)
		} else {
			s.notdyn[k] = keep
		}
	}
}

func hasType(l []types.Type, t types.Type) bool {
	for _, x := range l {
		if types.Identical(x, t) {
			return true
		}
	}
	return false
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// late tells that the scenario, or the whole check, has used up its time.
func (in *Interp) late() bool {
	now := time.Now()
	if in.started.IsZero() {
		in.started = now
	}
	return now.Sub(in.started) > scenarioTime || !checkDeadline.IsZero() && now.After(checkDeadline)
}

// The paths through a function that are followed further; no function of the unchanged tree comes near these.
const (
	maxOutcomes = 40
)

// spread keeps n elements, from all over the list.
func spread[T any](l []T, n int) []T {
	r := make([]T, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, l[i*len(l)/n])
	}
	return r
}

var scenarioTime = 30 * time.Second
var checkDeadline time.Time

func (in *Interp) run(f0 *frame, ctx string, depth int) []Outcome {
	var outs []Outcome
	work := []*frame{f0}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		more, done := in.step(f, ctx, depth)
		outs = append(outs, done...)
		work = append(work, more...)
		if in.steps > in.maxSteps {
			in.budgetHit = true
			return outs
		}
		if len(outs) > 64 && len(outs)%64 == 0 {
			outs = in.merge(outs, in.seq+1)
		}
		if len(work) > 4*in.maxOuts {
			in.truncated["paths:"+f.fn.String()] = true
			work = spread(work, 2*in.maxOuts)
		}
		if len(outs) > 8*in.maxOuts {
			in.truncated["paths:"+f.fn.String()] = true
			outs = spread(outs, 4*in.maxOuts)
		}
	}
	return outs
}

func (in *Interp) val(f *frame, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		return vConst(x.Value, x.Type())
	case *ssa.Global:
		return vPtr(in.globalObj(x))
	case *ssa.Function:
		return &Val{K: KFunc, Fn: x, T: x.Type()}
	case *ssa.Builtin:
		return vSym("builtin:"+x.Name(), x.Type())
	}
	if r, ok := f.env[v]; ok {
		return f.st.norm(r)
	}
	// a value computed before the point where the analysis started: unknown
	r := vSym("in:"+f.fn.Name()+":"+v.Name(), v.Type())
	f.env[v] = r
	return f.st.norm(r)
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	o := &Obj{ID: "@g:" + g.String(), T: g.Type().(*types.Pointer).Elem(), Root: true}
	in.globals[g] = o
	return o
}

// addr turns a pointer value into an object+path.
func (in *Interp) addr(st *State, v *Val, elem types.Type) *Val {
	v = st.norm(v)
	switch v.K {
	case KPtr:
		return v
	case KIface:
		return in.addr(st, v.A[0], elem)
	}
	return vPtr(in.obj("@"+v.Key(), elem, true))
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (in *Interp) step(f *frame, ctx string, depth int) (more []*frame, done []Outcome) {
	for {
		if f.idx >= len(f.blk.Instrs) {
			return
		}
		in.steps++
		if in.steps > in.maxSteps || in.steps%256 == 0 && in.late() {
			in.budgetHit = true
			in.maxSteps = 0
			return
		}
		ins := f.blk.Instrs[f.idx]
		f.idx++
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := x.Type().(*types.Pointer).Elem()
			o := in.obj(fmt.Sprintf("a%s:%s.%s.%d", hash(ctx)[:8], f.fn.Name(), x.Name(), f.visits[f.blk.Index]), t, false)
			f.st.heap[o] = zeroVal(t)
			f.env[x] = vPtr(o)
			delete(f.st.attrs, "sb:"+f.env[x].Key())
		case *ssa.Phi:
			// evaluate all phis of the block simultaneously
			vals := map[*ssa.Phi]*Val{}
			j := f.idx - 1
			for ; j < len(f.blk.Instrs); j++ {
				p, ok := f.blk.Instrs[j].(*ssa.Phi)
				if !ok {
					break
				}
				for k, e := range p.Edges {
					if f.blk.Preds[k] == f.prev {
						vals[p] = in.val(f, e)
						break
					}
				}
			}
			for p, v := range vals {
				f.env[p] = v
			}
			f.idx = j
		case *ssa.UnOp:
			v := in.val(f, x.X)
			switch x.Op {
			case token.MUL:
				if v.K == KNil {
					done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "nil dereference", Pos: x.Pos()})
					return
				}
				p := in.addr(f.st, v, x.Type())
				f.env[x] = f.st.norm(f.st.load(p))
			case token.NOT:
				f.env[x] = vNot(v)
			case token.SUB, token.XOR:
				if v.isConst() {
					prec := uint(0)
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && x.Op == token.XOR {
						prec = uint(basicSize(b))
					}
					f.env[x] = vConst(constant.UnaryOp(x.Op, v.C, prec), x.Type())
				} else {
					f.env[x] = vTerm(x.Op.String(), x.Type(), v)
				}
			default:
				f.env[x] = vTerm("un"+x.Op.String(), x.Type(), v)
			}
		case *ssa.BinOp:
			f.env[x] = in.binop(f.st, x.Op, in.val(f, x.X), in.val(f, x.Y), x.Type(), x.X.Type())
		case *ssa.ChangeType:
			v := in.val(f, x.X)
			f.env[x] = retype(v, x.Type())
		case *ssa.ChangeInterface:
			v := in.val(f, x.X)
			if v.K == KSym && !isIface(v.T) {
				v = vSym(v.S, x.Type())
			}
			f.env[x] = v
		case *ssa.Convert:
			if v := in.textConv(f.st, in.val(f, x.X), x); v != nil {
				f.env[x] = v
				continue
			}
			f.env[x] = convert(in.val(f, x.X), x.X.Type(), x.Type())
		case *ssa.MultiConvert:
			f.env[x] = vTerm("conv", x.Type(), in.val(f, x.X))
		case *ssa.MakeInterface:
			f.env[x] = vIface(x.X.Type(), in.val(f, x.X))
		case *ssa.MakeClosure:
			c := &Val{K: KFunc, Fn: x.Fn.(*ssa.Function), T: x.Type()}
			for _, b := range x.Bindings {
				c.A = append(c.A, in.val(f, b))
			}
			f.env[x] = c
		case *ssa.MakeMap:
			o := in.obj(fmt.Sprintf("m%s:%s.%s.%d", hash(ctx)[:8], f.fn.Name(), x.Name(), f.visits[f.blk.Index]), x.Type(), false)
			f.st.heap[o] = &Val{K: KMapV, M: map[string]*Val{}, MK: map[string]*Val{}, T: x.Type()}
			f.env[x] = &Val{K: KMap, O: o, T: x.Type()}
		case *ssa.MakeChan:
			f.env[x] = vSym("chan:"+x.Name(), x.Type())
		case *ssa.MakeSlice:
			o := in.obj(fmt.Sprintf("s%s:%s.%s.%d", hash(ctx)[:8], f.fn.Name(), x.Name(), f.visits[f.blk.Index]), x.Type(), false)
			et := x.Type().Underlying().(*types.Slice).Elem()
			n, ok := in.val(f, x.Len).intConst()
			if !ok {
				l := in.val(f, x.Len)
				f.st.heap[o] = &Val{K: KVec, S: "make(" + l.Key() + ")", M: map[string]*Val{}, T: et}
				f.env[x] = &Val{K: KSlice, O: o, S: "make(" + l.Key() + ")", T: x.Type()}
				f.st.bind["len(make("+l.Key()+"))"] = l
			} else {
				f.st.heap[o] = &Val{K: KVec, M: map[string]*Val{}, T: et}
				f.env[x] = &Val{K: KSlice, O: o, N: int(n), T: x.Type()}
			}
		case *ssa.FieldAddr:
			v := in.val(f, x.X)
			if v.K == KNil {
				done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "nil dereference", Pos: x.Pos()})
				return
			}
			p := in.addr(f.st, v, elemOf(x.X.Type()))
			f.env[x] = &Val{K: KPtr, O: p.O, Path: append(append([]int(nil), p.Path...), x.Field), T: x.Type()}
		case *ssa.Field:
			f.env[x] = f.st.norm(component(in.val(f, x.X), x.Field))
		case *ssa.IndexAddr:
			r, pan := in.indexAddr(f, x)
			if pan {
				done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "index out of range", Pos: x.Pos()})
				return
			}
			f.env[x] = r
		case *ssa.Index:
			v, i := in.val(f, x.X), in.val(f, x.Index)
			if l, ok := textLen(v); ok {
				if n, ok := i.intConst(); ok && (n < 0 || n >= int64(l)) {
					done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "index out of range", Pos: x.Pos()})
					return
				}
			}
			f.env[x] = indexVal(v, i, x.Type())
		case *ssa.Lookup:
			outs := in.lookup(f, x)
			if len(outs) == 0 {
				done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "index out of range", Pos: x.Pos()})
				return
			}
			for k := 1; k < len(outs); k++ {
				g := f.clone()
				outs[k](g)
				more = append(more, g)
			}
			outs[0](f)
		case *ssa.Extract:
			f.env[x] = f.st.norm(component(in.val(f, x.Tuple), x.Index))
		case *ssa.Slice:
			r, pan := in.slice(f, x)
			if pan {
				done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "slice bounds out of range", Pos: x.Pos()})
				return
			}
			f.env[x] = r
		case *ssa.SliceToArrayPointer:
			f.env[x] = vTerm("s2a", x.Type(), in.val(f, x.X))
		case *ssa.Store:
			pv, v := in.val(f, x.Addr), in.val(f, x.Val)
			if pv.K == KNil {
				done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "nil dereference", Pos: x.Pos()})
				return
			}
			p := in.addr(f.st, pv, elemOf(x.Addr.Type()))
			f.st.store(p, v)
			if in.onStore != nil && in.onStore(in, f.st, f.fn, x, p, v) {
				done = append(done, Outcome{St: f.st, Kind: OStop, Msg: "store", Pos: x.Pos()})
				return
			}
		case *ssa.MapUpdate:
			m := in.val(f, x.Map)
			in.mapSet(f.st, m, in.val(f, x.Key), in.val(f, x.Value))
		case *ssa.Range:
			f.env[x] = &Val{K: KIter, A: []*Val{in.val(f, x.X), vInt(0)}, T: x.X.Type()}
		case *ssa.Next:
			outs := in.next(f, x)
			for k := 1; k < len(outs); k++ {
				g := f.clone()
				outs[k](g)
				more = append(more, g)
			}
			outs[0](f)
		case *ssa.TypeAssert:
			m2, d2, ok := in.typeAssert(f, x)
			more = append(more, m2...)
			done = append(done, d2...)
			if !ok {
				return
			}
		case *ssa.Call:
			outs := in.call(f, &x.Call, x, ctx, depth, x.Type())
			cont := in.resume(f, outs, func(g *frame, r *Val) {
				if r != nil {
					g.env[x] = g.st.norm(r)
				}
			}, &done)
			if len(cont) == 0 {
				return
			}
			more = append(more, cont[1:]...)
			f = cont[0]
		case *ssa.Go:
			f.st.emit(&Event{Op: "go", Pos: x.Pos(), Fn: f.fn.Name()})
		case *ssa.Defer:
			d := deferred{call: &x.Call, site: x}
			if !x.Call.IsInvoke() {
				if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
					d.fn = in.val(f, x.Call.Value)
				}
			} else {
				d.fn = in.val(f, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, in.val(f, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.RunDefers:
			m2, d2, cont := in.runDefers(f, ctx, depth)
			more = append(more, m2...)
			done = append(done, d2...)
			if cont == nil {
				return
			}
			f = cont
		case *ssa.Return:
			var res *Val
			switch len(x.Results) {
			case 0:
			case 1:
				res = in.val(f, x.Results[0])
			default:
				t := &Val{K: KTuple}
				for _, r := range x.Results {
					t.A = append(t.A, in.val(f, r))
				}
				res = t
			}
			done = append(done, Outcome{St: f.st, Res: res, Kind: ORet, Pos: x.Pos()})
			return
		case *ssa.Panic:
			done = append(done, Outcome{St: f.st, Kind: OPanic, Msg: "panic", Pos: x.Pos()})
			return
		case *ssa.Jump:
			f.goTo(f.blk.Succs[0])
			if f.visits[f.blk.Index] > 600 {
				in.truncated[f.fn.String()+" loop"] = true
				return
			}
		case *ssa.If:
			c := in.val(f, x.Cond)
			if in.onBranch != nil {
				if d, known := in.onBranch(in, f.st, x, c); known {
					c = vBool(d)
				}
			}
			d, known := in.decide(f.st, c)
			if known {
				if d {
					f.goTo(f.blk.Succs[0])
				} else {
					f.goTo(f.blk.Succs[1])
				}
				if f.visits[f.blk.Index] > 600 {
					in.truncated[f.fn.String()+" loop"] = true
					return
				}
				continue
			}
			b := f.blk.Index
			f.undec[b]++
			loopy := inCycle(f.blk)
			tOK, fOK := true, true
			if loopy && f.undec[b] > in.maxUndec {
				// bounded unrolling of undecided loops: leave the loop if one of the edges does
				l0, l1 := reaches(f.blk.Succs[0], f.blk), reaches(f.blk.Succs[1], f.blk)
				if l0 && !l1 {
					tOK = false
				} else if l1 && !l0 {
					fOK = false
				} else if f.undec[b] > 3*in.maxUndec {
					in.truncated[f.fn.String()] = true
					return
				}
				in.truncated[f.fn.String()] = true
			}
			if fOK {
				g := f
				if tOK {
					g = f.clone()
				}
				if in.assume(g.st, c, false) {
					g.goTo(g.blk.Succs[1])
					if g != f {
						more = append(more, g)
					} else {
						continue
					}
				} else if g == f {
					return
				}
			}
			if tOK {
				if !in.assume(f.st, c, true) {
					return
				}
				f.goTo(f.blk.Succs[0])
				continue
			}
			return
		case *ssa.Select:
			f.env[x] = vSym("select:"+x.Name(), x.Type())
		case *ssa.Send:
		default:
			panic(fmt.Sprintf("unhandled instruction %T", ins))
		}
	}
}

func (f *frame) goTo(b *ssa.BasicBlock) {
	f.prev = f.blk
	f.blk = b
	f.idx = 0
	f.visits[b.Index]++
}

var cycCache = map[*ssa.BasicBlock]bool{}

func inCycle(b *ssa.BasicBlock) bool {
	if r, ok := cycCache[b]; ok {
		return r
	}
	r := false
	for _, s := range b.Succs {
		if reaches(s, b) {
			r = true
		}
	}
	cycCache[b] = r
	return r
}

var reachCache = map[[2]*ssa.BasicBlock]bool{}

func reaches(a, b *ssa.BasicBlock) bool {
	if r, ok := reachCache[[2]*ssa.BasicBlock{a, b}]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	res := false
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			res = true
			break
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	reachCache[[2]*ssa.BasicBlock{a, b}] = res
	return res
}

// resume continues the frame after a call that produced several outcomes.
func (in *Interp) resume(f *frame, outs []Outcome, set func(*frame, *Val), done *[]Outcome) []*frame {
	var cont []*frame
	n := 0
	for _, o := range outs {
		if o.Kind == ORet {
			n++
		}
	}
	k := 0
	for _, o := range outs {
		if o.Kind != ORet {
			*done = append(*done, o)
			continue
		}
		k++
		g := f
		if k < n {
			st := f.st
			f.st = o.St
			g = f.clone()
			f.st = st
		}
		g.st = o.St
		set(g, o.Res)
		cont = append(cont, g)
	}
	return cont
}

func (in *Interp) runDefers(f *frame, ctx string, depth int) (more []*frame, done []Outcome, cont *frame) {
	if len(f.defers) == 0 {
		return nil, nil, f
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	outs := in.dispatch(f, d.call, d.fn, d.args, d.site, ctx+"~d", depth, nil)
	fr := in.resume(f, outs, func(*frame, *Val) {}, &done)
	for i, g := range fr {
		m2, d2, c2 := in.runDefers(g, ctx, depth)
		more = append(more, m2...)
		done = append(done, d2...)
		if c2 == nil {
			continue
		}
		if cont == nil && i == 0 {
			cont = c2
		} else {
			more = append(more, c2)
		}
	}
	if cont == nil && len(more) > 0 {
		cont = more[0]
		more = more[1:]
	}
	return
}

func retype(v *Val, t types.Type) *Val {
	switch v.K {
	case KConst, KNil, KSym, KStruct, KTerm, KSlice, KMap, KFunc, KArr:
		n := *v
		n.T = t
		n.key = ""
		return &n
	}
	return v
}

func vNot(v *Val) *Val {
	if b, ok := v.boolConst(); ok {
		return vBool(!b)
	}
	if v.K == KTerm && v.S == "!" {
		return v.A[0]
	}
	return vTerm("!", types.Typ[types.Bool], v)
}

func basicSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func wrapInt(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || c.Kind() != constant.Int {
		return c
	}
	sz := uint(basicSize(b))
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, sz)
	mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	r := constant.BinaryOp(c, token.AND, mask)
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, sz-1)
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func convert(v *Val, from, to types.Type) *Val {
	if v.isConst() {
		bf, _ := from.Underlying().(*types.Basic)
		bt, _ := to.Underlying().(*types.Basic)
		if bt != nil {
			if bt.Info()&types.IsString != 0 && v.C.Kind() == constant.Int {
				i, _ := constant.Int64Val(v.C)
				return vConst(constant.MakeString(string(rune(i))), to)
			}
			if bt.Info()&types.IsInteger != 0 && v.C.Kind() == constant.Int {
				return vConst(wrapInt(v.C, to), to)
			}
			if bt.Info()&types.IsFloat != 0 {
				return vConst(constant.ToFloat(v.C), to)
			}
			if bf != nil && bt.Info()&types.IsString != 0 {
				return vConst(v.C, to)
			}
		}
	}
	if v.K == KLin {
		return v
	}
	if fb, ok := from.Underlying().(*types.Basic); ok {
		if tb, ok := to.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			// integer conversions between named kinds: keep the term if the width does not shrink
			if basicSize(tb) >= basicSize(fb) {
				return retype(v, to)
			}
		}
		if tb, ok := to.Underlying().(*types.Basic); ok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return retype(v, to)
		}
	}
	return vTerm("conv:"+shortType(to), to, v)
}

func cmpKeys(a, b *Val) (string, string) {
	x, y := a.Key(), b.Key()
	return x, y
}

func (in *Interp) binop(st *State, op token.Token, a, b *Val, rt, xt types.Type) *Val {
	a, b = st.norm(a), st.norm(b)
	switch op {
	case token.EQL:
		return in.eq(st, a, b)
	case token.NEQ:
		return vNot(in.eq(st, a, b))
	case token.LSS:
		return in.less(st, a, b)
	case token.GTR:
		return in.less(st, b, a)
	case token.LEQ:
		return vNot(in.less(st, b, a))
	case token.GEQ:
		return vNot(in.less(st, a, b))
	}
	if a.isConst() && b.isConst() {
		if op == token.SHL || op == token.SHR {
			n, _ := constant.Uint64Val(constant.ToInt(b.C))
			if n < 512 {
				return vConst(wrapInt(constant.Shift(a.C, op, uint(n)), rt), rt)
			}
		} else {
			o := op
			if bt, ok := rt.Underlying().(*types.Basic); ok && op == token.QUO && bt.Info()&types.IsInteger != 0 {
				if constant.Sign(b.C) == 0 {
					return vTerm("div0", rt, a, b)
				}
				o = token.QUO_ASSIGN
			}
			if op == token.REM && constant.Sign(b.C) == 0 {
				return vTerm("div0", rt, a, b)
			}
			if op == token.AND_NOT || op == token.AND || op == token.OR || op == token.XOR || op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO || op == token.REM {
				return vConst(wrapInt(constant.BinaryOp(a.C, o, b.C), rt), rt)
			}
		}
	}
	if a.K == KLin {
		if i, ok := b.intConst(); ok {
			if op == token.ADD {
				return in.lin(a.S, a.N+int(i), a.T)
			}
			if op == token.SUB {
				return in.lin(a.S, a.N-int(i), a.T)
			}
		}
		if b.K == KLin && b.S == a.S && op == token.SUB {
			return vInt(int64(a.N - b.N))
		}
	}
	if b.K == KLin {
		if i, ok := a.intConst(); ok && op == token.ADD {
			return in.lin(b.S, b.N+int(i), b.T)
		}
	}
	// symbolic integer +- constant normalisation
	if op == token.ADD || op == token.SUB {
		if i, ok := b.intConst(); ok {
			if op == token.SUB {
				i = -i
			}
			return addConst(a, i, rt)
		}
		if i, ok := a.intConst(); ok && op == token.ADD {
			return addConst(b, i, rt)
		}
	}
	if op == token.ADD && rt != nil {
		if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if s, ok := a.strConst(); ok && s == "" {
				return b
			}
			if s, ok := b.strConst(); ok && s == "" {
				return a
			}
			return strCat(a, b, rt)
		}
	}
	return vTerm(op.String(), rt, a, b)
}

func strCat(a, b *Val, rt types.Type) *Val {
	var parts []*Val
	add := func(v *Val) {
		if v.K == KTerm && v.S == "strcat" {
			parts = append(parts, v.A...)
		} else {
			parts = append(parts, v)
		}
	}
	if isText(a) || isText(b) {
		x, ok1 := textBytes(a)
		y, ok2 := textBytes(b)
		if ok1 && ok2 {
			return vText(append(append([]*Val(nil), x...), y...), rt)
		}
	}
	add(a)
	add(b)
	var r []*Val
	for _, p := range parts {
		if s, ok := p.strConst(); ok && s == "" && len(parts) > 1 {
			continue
		}
		if s, ok := p.strConst(); ok && len(r) > 0 {
			if q, ok := r[len(r)-1].strConst(); ok {
				r[len(r)-1] = vStr(q + s)
				continue
			}
		}
		r = append(r, p)
	}
	if len(r) == 0 {
		return vConst(constant.MakeString(""), rt)
	}
	if len(r) == 1 {
		return r[0]
	}
	if len(r) > 12 {
		return vSym("longstring", rt)
	}
	return vTerm("strcat", rt, r...)
}

// textsDiffer: two texts made of parts cannot be the same, what they start and end with in common put aside.
func textsDiffer(a, b *Val) bool {
	parts := func(v *Val) []*Val {
		if v.K == KTerm && v.S == "strcat" {
			return v.A
		}
		return []*Val{v}
	}
	x, y := parts(a), parts(b)
	for len(x) > 0 && len(y) > 0 && x[0].Key() == y[0].Key() {
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1].Key() == y[len(y)-1].Key() {
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 || len(y) == 0 {
		for _, p := range append(append([]*Val(nil), x...), y...) {
			if s, ok := p.strConst(); ok && s != "" {
				return true
			}
		}
		return false
	}
	s, ok1 := x[0].strConst()
	t, ok2 := y[0].strConst()
	if !ok1 || !ok2 {
		return false
	}
	if len(x) == 1 && len(y) == 1 {
		return s != t
	}
	return !strings.HasPrefix(s, t) && !strings.HasPrefix(t, s)
}

func addConst(a *Val, i int64, rt types.Type) *Val {
	if i == 0 {
		return a
	}
	if a.K == KTerm && a.S == "addc" {
		j, _ := a.A[1].intConst()
		return addConst(a.A[0], i+j, rt)
	}
	return vTerm("addc", rt, a, vInt(i))
}

func (in *Interp) lin(s string, n int, t types.Type) *Val {
	return &Val{K: KLin, S: s, N: n, T: t}
}

func isRootSym(v *Val) bool { return v.K == KSym || v.K == KTerm }

func (in *Interp) eq(st *State, a, b *Val) *Val {
	if a.K == KConst && b.K == KConst {
		return vBool(constant.Compare(a.C, token.EQL, b.C))
	}
	if a.Key() == b.Key() && a.K != KStruct {
		return vBool(true)
	}
	if isText(a) || isText(b) {
		if e := textEq(a, b); e != nil {
			return e
		}
	}
	if in.leaf != nil {
		one := func(v *Val) bool { return v.K == KSym && in.leaf(v.S) }
		node := func(v *Val) bool { return one(v) || v.K == KIface || v.K == KPtr || v.K == KNil }
		if one(a) && node(b) || one(b) && node(a) {
			return vBool(false)
		}
	}
	if isStr(a.T) && isStr(b.T) || a.K == KConst && isStr(b.T) || b.K == KConst && isStr(a.T) {
		// random names are different from all others
		if strings.Contains(a.Key(), "rnd~") || strings.Contains(b.Key(), "rnd~") {
			return vBool(false)
		}
	}
	known := func(v *Val) bool { // certainly non-nil
		switch v.K {
		case KPtr, KFunc, KMap, KIface:
			return true
		case KSlice:
			return v.N > 0
		}
		return false
	}
	if a.K == KNil && b.K == KNil {
		return vBool(true)
	}
	if a.K == KNil && known(b) || b.K == KNil && known(a) {
		return vBool(false)
	}
	if a.K == KNil && b.K == KSlice && b.S == "" && b.N == 0 || b.K == KNil && a.K == KSlice && a.S == "" && a.N == 0 {
		return vBool(false)
	}
	if a.K == KIface && b.K == KIface {
		if !types.Identical(a.T, b.T) {
			return vBool(false)
		}
		return in.eq(st, st.norm(a.A[0]), st.norm(b.A[0]))
	}
	if a.K == KPtr && b.K == KPtr {
		// distinct objects; only symbolic roots may alias one another
		sa, sb := strings.HasPrefix(a.O.ID, "@") && !strings.HasPrefix(a.O.ID, "@g:"), strings.HasPrefix(b.O.ID, "@") && !strings.HasPrefix(b.O.ID, "@g:")
		if !sa && !sb || sa != sb && (!a.O.Root || !b.O.Root) {
			return vBool(false)
		}
	}
	// fresh allocation vs a value that existed before
	fresh := func(v *Val) bool { return v.K == KPtr && !v.O.Root }
	old := func(v *Val) bool { return v.K == KSym }
	if (fresh(a) && old(b) && b.T != nil && !isIface(b.T)) || (fresh(b) && old(a) && a.T != nil && !isIface(a.T)) {
		return vBool(false)
	}
	if a.K == KIface && b.K == KSym {
		a, b = b, a
	}
	if a.K == KSym && b.K == KIface {
		if d, ok := st.dyn[a.S]; ok && !types.Identical(d, b.T) {
			return vBool(false)
		}
		if hasType(st.notdyn[a.S], b.T) {
			return vBool(false)
		}
		if fresh(b.A[0]) {
			return vBool(false)
		}
	}
	if a.K == KLin || b.K == KLin {
		l, o := a, b
		if l.K != KLin {
			l, o = b, a
		}
		if o.K == KLin && o.S == l.S {
			return vBool(l.N == o.N)
		}
		if i, ok := o.intConst(); ok && int64(l.N) > i {
			return vBool(false)
		}
		if i, ok := o.intConst(); ok {
			// len(base)+n == i  <=>  len(base) == i-n
			return vTerm("==", types.Typ[types.Bool], in.lin(l.S, 0, l.T), vInt(i-int64(l.N)))
		}
	}
	if a.K == KTerm && a.S == "addc" && b.isConst() {
		i, _ := a.A[1].intConst()
		if j, ok := b.intConst(); ok {
			d := constant.MakeInt64(j - i)
			if a.T != nil {
				d = wrapInt(d, a.T)
			}
			return in.eq(st, a.A[0], vConst(d, types.Typ[types.Int]))
		}
	}
	if a.K == KTerm && a.S == "strcat" {
		if s, ok := b.strConst(); ok && s == "" {
			for _, p := range a.A {
				if q, ok := p.strConst(); ok && q != "" {
					return vBool(false)
				}
			}
		}
	}
	if isStr(a.T) && isStr(b.T) && (a.K == KTerm && a.S == "strcat" || b.K == KTerm && b.S == "strcat") && textsDiffer(a, b) {
		return vBool(false)
	}
	x, y := a, b
	if x.Key() > y.Key() || x.K == KConst || x.K == KNil {
		x, y = y, x
	}
	if x.K == KConst || x.K == KNil {
		x, y = y, x
	}
	if b, ok := a.boolConst(); ok { // bool == const
		if b {
			return x
		}
		return vNot(x)
	}
	if bb, ok := y.boolConst(); ok {
		if bb {
			return x
		}
		return vNot(x)
	}
	return vTerm("==", types.Typ[types.Bool], x, y)
}

func (in *Interp) less(st *State, a, b *Val) *Val {
	if a.isConst() && b.isConst() {
		return vBool(constant.Compare(a.C, token.LSS, b.C))
	}
	if a.K == KLin && b.K == KLin && a.S == b.S {
		return vBool(a.N < b.N)
	}
	if a.Key() == b.Key() {
		return vBool(false)
	}
	if a.K == KLin {
		if i, ok := b.intConst(); ok {
			if int64(a.N) >= i {
				return vBool(false)
			}
			return vTerm("<", types.Typ[types.Bool], in.lin(a.S, 0, a.T), vInt(i-int64(a.N)))
		}
	}
	if b.K == KLin {
		if i, ok := a.intConst(); ok {
			if i < int64(b.N) {
				return vBool(true)
			}
			// i < len+n  <=> !(len < i-n+1)
			return vNot(vTerm("<", types.Typ[types.Bool], in.lin(b.S, 0, b.T), vInt(i-int64(b.N)+1)))
		}
	}
	if a.K == KTerm && a.S == "addc" && !wraps(a.T) {
		if j, ok := b.intConst(); ok {
			i, _ := a.A[1].intConst()
			return in.less(st, a.A[0], vInt(j-i))
		}
	}
	if b.K == KTerm && b.S == "addc" && !wraps(b.T) {
		if j, ok := a.intConst(); ok {
			i, _ := b.A[1].intConst()
			return in.less(st, vInt(j-i), b.A[0])
		}
	}
	if i, ok := a.intConst(); ok && b.K != KConst {
		// i < b <=> !(b < i+1) for integers
		if bt, ok2 := b.T, true; ok2 && bt != nil {
			if bb, ok3 := bt.Underlying().(*types.Basic); ok3 && bb.Info()&types.IsInteger != 0 {
				if bb.Info()&types.IsUnsigned != 0 && i < 0 {
					return vBool(true)
				}
				return vNot(vTerm("<", types.Typ[types.Bool], b, vInt(i+1)))
			}
		}
	}
	return vTerm("<", types.Typ[types.Bool], a, b)
}

// wraps: numbers of the type wrap around where sums of them are likely to.
func wraps(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (basicSize(b) < 64 || b.Info()&types.IsUnsigned != 0)
}

// interval facts: lower/upper bounds recorded in facts as "lt:<key>:<c>"
func (in *Interp) decide(st *State, c *Val) (bool, bool) {
	if b, ok := c.boolConst(); ok {
		return b, true
	}
	if c.K == KTerm && c.S == "!" {
		b, ok := in.decide(st, c.A[0])
		return !b, ok
	}
	if in.texts {
		if v, known, handled := byteDecide(st, c); handled {
			return v, known
		}
	}
	if c.K == KTerm && c.S == "==" {
		a, b := st.norm(c.A[0]), st.norm(c.A[1])
		if a != c.A[0] || b != c.A[1] {
			e := in.eq(st, a, b)
			if e.Key() != c.Key() {
				return in.decide(st, e)
			}
		}
		// bounds
		if i, ok := b.intConst(); ok {
			lo, hi, hasLo, hasHi := st.bounds(a.Key())
			if hasLo && i < lo || hasHi && i > hi {
				return false, true
			}
			if hasLo && hasHi && lo == hi && lo == i {
				return true, true
			}
		}
		if a.K == KSym && b.K == KNil {
			if _, ok := st.dyn[a.S]; ok {
				return false, true
			}
		}
	}
	if c.K == KTerm && c.S == "<" {
		a, b := st.norm(c.A[0]), st.norm(c.A[1])
		if a != c.A[0] || b != c.A[1] {
			e := in.less(st, a, b)
			if e.Key() != c.Key() {
				return in.decide(st, e)
			}
		}
		if i, ok := b.intConst(); ok {
			lo, hi, hasLo, hasHi := st.bounds(a.Key())
			if hasLo && lo >= i {
				return false, true
			}
			if hasHi && hi < i {
				return true, true
			}
		}
	}
	if v, ok := st.facts[c.Key()]; ok {
		return v, true
	}
	return false, false
}

func (s *State) bounds(k string) (lo, hi int64, hasLo, hasHi bool) {
	if v, ok := s.bind["lo:"+k]; ok {
		lo, _ = v.intConst()
		hasLo = true
	}
	if v, ok := s.bind["hi:"+k]; ok {
		hi, _ = v.intConst()
		hasHi = true
	}
	if !hasLo && strings.HasPrefix(k, "len(") {
		lo, hasLo = 0, true
	}
	return
}

// assume records c==want; false if contradictory.
func (in *Interp) assume(st *State, c *Val, want bool) bool {
	if c.K == KTerm && c.S == "!" {
		return in.assume(st, c.A[0], !want)
	}
	if b, ok := c.boolConst(); ok {
		return b == want
	}
	if in.texts {
		if possible, handled := byteAssume(st, c, want); handled {
			return possible
		}
	}
	st.facts[c.Key()] = want
	pre := ""
	if !want {
		pre = "!"
	}
	st.path = append(st.path, pre+c.Key())
	if c.K == KTerm && c.S == "==" {
		a, b := c.A[0], c.A[1]
		if want {
			if (a.K == KSym || a.K == KTerm || a.K == KLin) && (b.K == KConst || b.K == KPtr || b.K == KIface || b.K == KNil || b.K == KFunc || b.K == KSym) {
				st.bind[a.Key()] = b
				if b.K == KIface && isIface(a.T) {
					st.dyn[a.S] = b.T
				}
			} else if b.K == KSym || b.K == KTerm {
				st.bind[b.Key()] = a
			}
		} else if i, ok := b.intConst(); ok {
			lo, hi, hl, hh := st.bounds(a.Key())
			if hl && lo == i {
				st.bind["lo:"+a.Key()] = vInt(i + 1)
			}
			if hh && hi == i {
				st.bind["hi:"+a.Key()] = vInt(i - 1)
			}
		}
	}
	if c.K == KTerm && c.S == "<" {
		if i, ok := c.A[1].intConst(); ok {
			k := c.A[0].Key()
			lo, hi, hl, hh := st.bounds(k)
			if want {
				if !hh || i-1 < hi {
					st.bind["hi:"+k] = vInt(i - 1)
				}
			} else if !hl || i > lo {
				st.bind["lo:"+k] = vInt(i)
			}
			lo, hi, hl, hh = st.bounds(k)
			if hl && hh && lo > hi {
				return false
			}
			if hl && hh && lo == hi && c.A[0].K == KLin {
				st.bind[k] = vInt(lo)
			}
		}
	}
	return true
}

func indexVal(v, i *Val, t types.Type) *Val {
	n, ok := i.intConst()
	if s, isS := v.strConst(); isS && ok {
		if n >= 0 && n < int64(len(s)) {
			return vConst(constant.MakeInt64(int64(s[n])), t)
		}
	}
	if isText(v) && ok && n >= 0 && n < int64(len(v.A)) {
		return v.A[n]
	}
	if ok && (v.K == KArr || v.K == KSym) {
		r := component(v, int(n))
		if r.T == nil {
			r = retype(r, t)
		}
		return r
	}
	return vTerm("index", t, v, i)
}

// relative index of a slice: base-relative position
func relIndex(v, i *Val) (int, bool) {
	if n, ok := i.intConst(); ok {
		if v.S == "" {
			return v.Off + int(n), true
		}
		return 0, false
	}
	if i.K == KLin && v.S != "" && i.S == v.S {
		return i.N, true
	}
	return 0, false
}

func (in *Interp) indexAddr(f *frame, x *ssa.IndexAddr) (*Val, bool) {
	v, i := in.val(f, x.X), in.val(f, x.Index)
	et := x.Type().(*types.Pointer).Elem()
	if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
		if v.K == KNil {
			return nil, true
		}
		p := in.addr(f.st, v, elemOf(x.X.Type()))
		if n, ok := i.intConst(); ok {
			return vPtr(p.O, append(append([]int(nil), p.Path...), int(n))...), false
		}
		return vPtr(in.obj("@idx("+p.Key()+","+i.Key()+")", et, true)), false
	}
	if v.K == KNil {
		return nil, true
	}
	if v.K == KSlice {
		if r, ok := relIndex(v, i); ok {
			if v.S == "" {
				n := r - v.Off
				if n < 0 || n >= v.N {
					return nil, true
				}
				return vPtr(v.O, r), false
			}
			if r >= v.N {
				return nil, true
			}
			// base-relative: index len(base)+k
			return vPtr(v.O, r), false
		}
		return vPtr(in.obj("@idx("+v.Key()+","+i.Key()+")", et, true)), false
	}
	// symbolic slice: give constant indices their own element objects
	if n, ok := i.intConst(); ok {
		return vPtr(in.obj(fmt.Sprintf("@%s[%d]", v.Key(), n), et, true)), false
	}
	if i.K == KLin {
		return vPtr(in.vecOf(f.st, v, et), i.N), false
	}
	return vPtr(in.obj("@"+v.Key()+"["+i.Key()+"]", et, true)), false
}

// vecOf gives the backing object of a symbolic slice, indexed relative to its (unknown) length.
func (in *Interp) vecOf(st *State, v *Val, et types.Type) *Obj {
	o := in.obj("@vec:"+v.Key(), et, true)
	if _, ok := st.heap[o]; !ok {
		st.heap[o] = &Val{K: KVec, S: v.Key(), M: map[string]*Val{}, T: et}
	}
	return o
}

func (in *Interp) lenOf(st *State, v *Val) *Val {
	v = st.norm(v)
	switch v.K {
	case KNil:
		return vInt(0)
	case KConst:
		if s, ok := v.strConst(); ok {
			return vInt(int64(len(s)))
		}
	case KArr:
		return vInt(int64(len(v.A)))
	case KSlice:
		if v.S == "" {
			return vInt(int64(v.N))
		}
		l := in.lin(v.S, v.N, types.Typ[types.Int])
		if b, ok := st.bind[in.lin(v.S, 0, nil).Key()]; ok {
			if i, ok := b.intConst(); ok {
				return vInt(i + int64(v.N))
			}
		}
		if b, ok := st.bind["len("+v.S+")"]; ok {
			if i, ok := b.intConst(); ok {
				return vInt(i + int64(v.N))
			}
			if v.N == 0 {
				return b
			}
		}
		return l
	case KMap:
		c := st.content(v.O)
		if c.K == KMapV && c.S == "" {
			return vInt(int64(len(c.M)))
		}
		return vSym("len("+v.Key()+")", types.Typ[types.Int])
	}
	if isText(v) {
		return vInt(int64(len(v.A)))
	}
	k := v.Key()
	if b, ok := st.bind[in.lin(k, 0, nil).Key()]; ok {
		return b
	}
	if v.K == KTerm && v.S == "strcat" {
		return vSym("len("+k+")", types.Typ[types.Int])
	}
	return in.lin(k, 0, types.Typ[types.Int])
}

func (in *Interp) slice(f *frame, x *ssa.Slice) (*Val, bool) {
	v := in.val(f, x.X)
	var lo, hi *Val
	if x.Low != nil {
		lo = in.val(f, x.Low)
	}
	if x.High != nil {
		hi = in.val(f, x.High)
	}
	if s, ok := v.strConst(); ok {
		l, h := int64(0), int64(len(s))
		okk := true
		if lo != nil {
			l, okk = lo.intConst()
		}
		if hi != nil && okk {
			h, okk = hi.intConst()
		}
		if okk {
			if l < 0 || h > int64(len(s)) || l > h {
				return nil, true
			}
			return vConst(constant.MakeString(s[l:h]), x.Type()), false
		}
	}
	if isText(v) {
		l, h, okk := int64(0), int64(len(v.A)), true
		if lo != nil {
			l, okk = lo.intConst()
		}
		if hi != nil && okk {
			h, okk = hi.intConst()
		}
		if okk {
			if l < 0 || h > int64(len(v.A)) || l > h {
				return nil, true
			}
			return vText(v.A[l:h], x.Type()), false
		}
	}
	if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if lo == nil && hi == nil {
			return v, false
		}
		a := []*Val{v}
		for _, e := range []*Val{lo, hi} {
			if e == nil {
				a = append(a, vSym("_", nil))
			} else {
				a = append(a, e)
			}
		}
		return vTerm("substr", x.Type(), a...), false
	}
	if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
		// slicing an array variable: alias its elements
		p := in.addr(f.st, v, elemOf(x.X.Type()))
		arr, _ := elemOf(x.X.Type()).Underlying().(*types.Array)
		if arr == nil || len(p.Path) > 0 {
			return vSym("slice:"+v.Key(), x.Type()), false
		}
		n := int(arr.Len())
		l := 0
		if lo != nil {
			if i, ok := lo.intConst(); ok {
				l = int(i)
			}
		}
		h := n
		if hi != nil {
			if i, ok := hi.intConst(); ok {
				h = int(i)
			} else {
				return vSym("slice:"+v.Key(), x.Type()), false
			}
		}
		return &Val{K: KSlice, O: p.O, Off: l, N: h - l, T: x.Type()}, false
	}
	if v.K == KNil {
		return vNil(x.Type()), false
	}
	if v.K == KSlice && v.S == "" {
		l, h := 0, v.N
		if lo != nil {
			i, ok := lo.intConst()
			if !ok {
				return vSym("slice("+v.Key()+","+lo.Key()+")", x.Type()), false
			}
			l = int(i)
		}
		if hi != nil {
			i, ok := hi.intConst()
			if !ok {
				return vSym("slice("+v.Key()+",,"+hi.Key()+")", x.Type()), false
			}
			h = int(i)
		}
		if l < 0 || l > h {
			return nil, true
		}
		return &Val{K: KSlice, O: v.O, Off: v.Off + l, N: h - l, T: v.T}, false
	}
	// symbolic base
	base := v
	if v.K != KSlice {
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := in.vecOf(f.st, v, et)
		base = &Val{K: KSlice, O: o, S: v.Key(), N: 0, T: x.Type()}
	}
	if lo != nil {
		if i, ok := lo.intConst(); !ok || i != 0 {
			hk := ""
			if hi != nil {
				hk = hi.Key()
			}
			return vSym(base.Key()+"["+lo.Key()+":"+hk+"]", x.Type()), false
		}
	}
	if hi != nil {
		if hi.K == KLin && hi.S == base.S {
			if hi.N > base.N {
				return nil, true
			}
			return &Val{K: KSlice, O: base.O, S: base.S, N: hi.N, T: base.T}, false
		}
		if i, ok := hi.intConst(); ok && i == 0 {
			return &Val{K: KSlice, O: in.obj("empty", nil, true), N: 0, T: base.T}, false
		}
		return vSym(base.Key()+"[:"+hi.Key()+"]", x.Type()), false
	}
	return v, false
}

func (in *Interp) appendVals(st *State, v *Val, elems []*Val, t types.Type, id string) *Val {
	v = st.norm(v)
	et := t.Underlying().(*types.Slice).Elem()
	o := in.obj(id, et, false)
	nv := &Val{K: KVec, M: map[string]*Val{}, T: et}
	r := &Val{K: KSlice, O: o, T: t}
	switch v.K {
	case KNil:
	case KSlice:
		src := st.content(v.O)
		if src.K == KArr || src.K == KSym && v.S == "" {
			for i := 0; i < v.N; i++ {
				nv.M[strconv.Itoa(i)] = component(expand(src), v.Off+i)
			}
			r.N = v.N
			break
		}
		nv.S, r.S, r.N = v.S, v.S, v.N
		if v.S == "" {
			for i := 0; i < v.N; i++ {
				nv.M[strconv.Itoa(i)] = component(src, v.Off+i)
			}
		} else {
			for k, e := range src.M {
				n, _ := strconv.Atoi(k)
				if n < v.N {
					nv.M[k] = e
				}
			}
		}
	default:
		nv.S, r.S = v.Key(), v.Key()
		if o2, ok := in.objs["@vec:"+v.Key()]; ok {
			if c, ok := st.heap[o2]; ok {
				for k, e := range c.M {
					nv.M[k] = e
				}
			}
		}
	}
	for _, e := range elems {
		nv.M[strconv.Itoa(r.N)] = e
		r.N++
	}
	st.heap[o] = nv
	return r
}

// elems lists the elements of a slice whose length is known.
func (in *Interp) elems(st *State, v *Val) ([]*Val, bool) {
	v = st.norm(v)
	if v.K == KNil {
		return nil, true
	}
	if v.K != KSlice || v.S != "" {
		return nil, false
	}
	c := expand(st.content(v.O))
	var r []*Val
	for i := 0; i < v.N; i++ {
		r = append(r, st.norm(component(c, v.Off+i)))
	}
	return r, true
}

func (in *Interp) mapObj(st *State, m *Val) *Obj {
	m = st.norm(m)
	if m.K == KMap {
		return m.O
	}
	if m.K == KNil {
		return nil
	}
	o := in.obj("@map:"+m.Key(), m.T, true)
	if _, ok := st.heap[o]; !ok {
		st.heap[o] = &Val{K: KMapV, S: m.Key(), M: map[string]*Val{}, MK: map[string]*Val{}, T: m.T}
	}
	return o
}

func (in *Interp) mapSet(st *State, m, k, v *Val) {
	o := in.mapObj(st, m)
	if o == nil {
		return
	}
	c := st.content(o)
	nc := &Val{K: KMapV, S: c.S, M: cp(c.M), MK: cp(c.MK), T: c.T}
	nc.M[k.Key()] = v
	nc.MK[k.Key()] = k
	st.heap[o] = nc
}

func (in *Interp) lookup(f *frame, x *ssa.Lookup) []func(*frame) {
	m, k := in.val(f, x.X), in.val(f, x.Index)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := m.strConst(); ok {
			if n, ok2 := k.intConst(); ok2 && (n < 0 || n >= int64(len(s))) {
				return nil
			}
		}
		if isText(m) {
			if n, ok := k.intConst(); ok {
				if n < 0 || n >= int64(len(m.A)) {
					return nil
				}
				return []func(*frame){func(g *frame) { g.env[x] = m.A[n] }}
			}
		}
		return []func(*frame){func(g *frame) { g.env[x] = indexVal(m, k, x.Type()) }}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	set := func(v *Val, ok bool) func(*frame) {
		return func(g *frame) {
			if x.CommaOk {
				g.env[x] = &Val{K: KTuple, A: []*Val{g.st.norm(v), vBool(ok)}}
			} else {
				g.env[x] = g.st.norm(v)
			}
		}
	}
	o := in.mapObj(f.st, m)
	if o == nil {
		return []func(*frame){set(zeroVal(mt.Elem()), false)}
	}
	c := f.st.content(o)
	if c.K != KMapV {
		return []func(*frame){set(vSym("lookup("+m.Key()+","+k.Key()+")", mt.Elem()), true)}
	}
	if v, ok := c.M[k.Key()]; ok {
		if v.K == KSym && v.S == "<absent>" {
			return []func(*frame){set(zeroVal(mt.Elem()), false)}
		}
		return []func(*frame){set(v, true)}
	}
	found := vSym(o.ID[strings.Index(o.ID, ":")+1:]+"["+k.Key()+"]", mt.Elem())
	if c.S == "" {
		// fully known map
		if len(c.M) == 0 || k.isConst() && allConst(c) {
			return []func(*frame){set(zeroVal(mt.Elem()), false)}
		}
		// unknown key in a known map: one alternative per entry plus absence
		var alts []func(*frame)
		ks := make([]string, 0, len(c.M))
		for kk := range c.M {
			ks = append(ks, kk)
		}
		sort.Strings(ks)
		if len(ks) > 40 {
			return []func(*frame){set(found, true), set(zeroVal(mt.Elem()), false)}
		}
		for _, kk := range ks {
			kk := kk
			e := in.eq(f.st, k, c.MK[kk])
			if d, known := in.decide(f.st, e); known {
				if d {
					return []func(*frame){set(c.M[kk], true)}
				}
				continue
			}
			alts = append(alts, func(g *frame) {
				in.assume(g.st, e, true)
				set(c.M[kk], true)(g)
			})
		}
		alts = append(alts, func(g *frame) {
			for _, kk := range ks {
				in.assume(g.st, in.eq(g.st, k, c.MK[kk]), false)
			}
			set(zeroVal(mt.Elem()), false)(g)
		})
		return alts
	}
	has := vTerm("has", types.Typ[types.Bool], vSym(c.S, nil), k)
	if d, known := in.decide(f.st, has); known {
		if d {
			return []func(*frame){set(found, true)}
		}
		return []func(*frame){set(zeroVal(mt.Elem()), false)}
	}
	if !x.CommaOk {
		// no test of presence: the value is unknown either way
		return []func(*frame){set(found, true)}
	}
	return []func(*frame){
		func(g *frame) { in.assume(g.st, has, true); set(found, true)(g) },
		func(g *frame) { in.assume(g.st, has, false); set(zeroVal(mt.Elem()), false)(g) },
	}
}

func allConst(c *Val) bool {
	for _, k := range c.MK {
		if !k.isConst() {
			return false
		}
	}
	return true
}

func (in *Interp) next(f *frame, x *ssa.Next) []func(*frame) {
	it := in.val(f, x.Iter)
	tt := x.Type().(*types.Tuple)
	setv := func(ok bool, k, v *Val, adv int) func(*frame) {
		return func(g *frame) {
			if k == nil {
				k = vSym("_", tt.At(1).Type())
			}
			if v == nil {
				v = vSym("_", tt.At(2).Type())
			}
			g.env[x] = &Val{K: KTuple, A: []*Val{vBool(ok), g.st.norm(k), g.st.norm(v)}}
			n, _ := it.A[1].intConst()
			g.env[x.Iter] = &Val{K: KIter, A: []*Val{it.A[0], vInt(n + int64(adv))}, T: it.T}
		}
	}
	n, _ := it.A[1].intConst()
	src := it.A[0]
	if x.IsString {
		if s, ok := src.strConst(); ok {
			if n >= int64(len(s)) {
				return []func(*frame){setv(false, nil, nil, 0)}
			}
			for i, r := range s[n:] {
				_ = i
				w := len(string(r))
				return []func(*frame){setv(true, vInt(n), vConst(constant.MakeInt64(int64(r)), types.Typ[types.Rune]), w)}
			}
		}
		if n >= int64(in.maxUndec) {
			return []func(*frame){setv(false, nil, nil, 0)}
		}
		return []func(*frame){setv(false, nil, nil, 0), setv(true, vSym(fmt.Sprintf("ri%d", n), types.Typ[types.Int]), vSym(fmt.Sprintf("rune(%s)#%d", src.Key(), n), types.Typ[types.Rune]), 1)}
	}
	o := in.mapObj(f.st, src)
	if o == nil {
		return []func(*frame){setv(false, nil, nil, 0)}
	}
	c := f.st.content(o)
	if c.K == KMapV && c.S == "" {
		ks := make([]string, 0, len(c.M))
		for kk := range c.M {
			ks = append(ks, kk)
		}
		sort.Strings(ks)
		if int(n) >= len(ks) {
			return []func(*frame){setv(false, nil, nil, 0)}
		}
		return []func(*frame){setv(true, c.MK[ks[n]], c.M[ks[n]], 1)}
	}
	if n >= int64(in.maxUndec) {
		return []func(*frame){setv(false, nil, nil, 0)}
	}
	mt := it.T.Underlying().(*types.Map)
	return []func(*frame){
		setv(false, nil, nil, 0),
		setv(true, vSym(fmt.Sprintf("key#%d(%s)", n, src.Key()), mt.Key()), vSym(fmt.Sprintf("val#%d(%s)", n, src.Key()), mt.Elem()), 1),
	}
}

func (in *Interp) typeAssert(f *frame, x *ssa.TypeAssert) (more []*frame, done []Outcome, cont bool) {
	v := in.val(f, x.X)
	okv := func(g *frame, r *Val, ok bool) {
		if x.CommaOk {
			if !ok {
				r = zeroVal(x.AssertedType)
			}
			g.env[x] = &Val{K: KTuple, A: []*Val{g.st.norm(r), vBool(ok)}}
		} else {
			g.env[x] = g.st.norm(r)
		}
	}
	fail := func(g *frame) bool {
		if x.CommaOk {
			okv(g, nil, false)
			return true
		}
		done = append(done, Outcome{St: g.st, Kind: OPanic, Msg: "failed type assertion to " + shortType(x.AssertedType), Pos: x.Pos()})
		return false
	}
	toIface := isIface(x.AssertedType)
	if v.K == KNil {
		return nil, done, fail(f) || false
	}
	if v.K == KIface {
		if toIface {
			if types.Implements(v.T, x.AssertedType.Underlying().(*types.Interface)) {
				okv(f, v, true)
				return nil, done, true
			}
			r := fail(f)
			return nil, done, r
		}
		if types.Identical(v.T, x.AssertedType) {
			okv(f, v.A[0], true)
			return nil, done, true
		}
		r := fail(f)
		return nil, done, r
	}
	// symbolic
	k := v.Key()
	if in.plain != nil && x.CommaOk && !toIface && in.plain(k) {
		return nil, done, fail(f)
	}
	if toIface {
		fk := vTerm("implements:"+shortType(x.AssertedType), types.Typ[types.Bool], v)
		d, known := in.decide(f.st, fk)
		if !known && in.w.allImplement(v.T, x.AssertedType) {
			nn := in.eq(f.st, v, vNil(v.T))
			if dd, kk := in.decide(f.st, nn); kk {
				d, known = !dd, true
			}
		}
		if known {
			if d {
				okv(f, vSym(k, x.AssertedType), true)
				return nil, done, true
			}
			r := fail(f)
			return nil, done, r
		}
		if !x.CommaOk && !in.assumePanics {
			in.assume(f.st, fk, true)
			okv(f, vSym(k, x.AssertedType), true)
			return nil, done, true
		}
		g := f.clone()
		in.assume(g.st, fk, false)
		if fail(g) {
			more = append(more, g)
		}
		in.assume(f.st, fk, true)
		okv(f, vSym(k, x.AssertedType), true)
		return more, done, true
	}
	if b, ok := f.st.bind[in.eqNilKey(v)]; ok {
		_ = b
	}
	if hasType(f.st.notdyn[k], x.AssertedType) || !in.w.possibleDyn(v.T, x.AssertedType) {
		r := fail(f)
		return nil, done, r
	}
	if !x.CommaOk && !in.assumePanics {
		f.st.dyn[k] = x.AssertedType
		okv(f, vSym(k, x.AssertedType), true)
		return nil, done, true
	}
	g := f.clone()
	g.st.notdyn[k] = append(append([]types.Type(nil), g.st.notdyn[k]...), x.AssertedType)
	g.st.path = append(g.st.path, k+" is not "+shortType(x.AssertedType))
	// exhausted the possible dynamic types?
	if fail(g) {
		more = append(more, g)
	}
	f.st.dyn[k] = x.AssertedType
	f.st.path = append(f.st.path, k+" is "+shortType(x.AssertedType))
	okv(f, vSym(k, x.AssertedType), true)
	return more, done, true
}

func (in *Interp) eqNilKey(v *Val) string { return "==(" + v.Key() + ",nil)" }

func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
