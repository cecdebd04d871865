package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) call(f *frame, cc *ssa.CallCommon, site ssa.Instruction, ctx string, depth int, rt types.Type) []Outcome {
	var args []*Val
	for _, a := range cc.Args {
		args = append(args, in.val(f, a))
	}
	var fv *Val
	if cc.IsInvoke() {
		fv = in.val(f, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = in.val(f, cc.Value)
	}
	if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
		rt = nil
	}
	return in.dispatch(f, cc, fv, args, site, ctx, depth, rt)
}

func (in *Interp) dispatch(f *frame, cc *ssa.CallCommon, fv *Val, args []*Val, site ssa.Instruction, ctx string, depth int, rt types.Type) []Outcome {
	st := f.st
	v := 0
	if f.blk != nil {
		v = f.visits[f.blk.Index]
	}
	nm := "defer"
	if sv, ok := site.(ssa.Value); ok {
		nm = sv.Name()
	} else {
		nm = fmt.Sprintf("d%d", site.Pos())
	}
	nctx := hash(fmt.Sprintf("%s/%s.%s.%d", ctx, f.fn.String(), nm, v))
	c := &CallCtx{in: in, st: st, args: args, site: site, ctx: nctx, depth: depth + 1, caller: f.fn, rt: rt}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return in.builtin(f, b, c, cc)
	}
	if cc.IsInvoke() {
		fv = st.norm(fv)
		if fv.K == KNil {
			return []Outcome{{St: st, Kind: OPanic, Msg: "nil interface call", Pos: site.Pos()}}
		}
		c.name = "(" + shortType(cc.Value.Type()) + ")." + cc.Method.Name()
		if fv.K == KIface {
			c.args = append([]*Val{fv.A[0]}, args...)
			m := in.w.method(fv.T, cc.Method)
			if m != nil {
				return in.callFn(m, nil, c)
			}
		}
		c.args = append([]*Val{fv}, args...)
		for _, h := range in.hooks {
			if r, ok := h(c); ok {
				return r
			}
		}
		return single(st, in.opaque(c))
	}
	fv = st.norm(fv)
	if fv.K == KFunc {
		return in.callFn(fv.Fn, fv.A, c)
	}
	if fv.K == KNil {
		return []Outcome{{St: st, Kind: OPanic, Msg: "nil function call", Pos: site.Pos()}}
	}
	c.name = "dyncall:" + fv.Key()
	c.bind = []*Val{fv}
	for _, h := range in.hooks {
		if r, ok := h(c); ok {
			return r
		}
	}
	st.emit(&Event{Op: "dyncall", Args: append([]*Val{fv}, args...), Pos: site.Pos(), Fn: f.fn.Name()})
	return single(st, in.opaque(c))
}

func (in *Interp) callFn(fn *ssa.Function, bind []*Val, c *CallCtx) []Outcome {
	c.fn = fn
	c.bind = bind
	c.name = fn.String()
	in.callCount++
	for _, h := range in.hooks {
		if r, ok := h(c); ok {
			return r
		}
	}
	if fn.Blocks != nil && in.inline(fn) && c.depth < in.maxDepth {
		return in.Call(fn, c.args, bind, c.st, c.ctx, c.depth)
	}
	if fn.Blocks != nil && c.depth >= in.maxDepth && in.inline(fn) {
		in.truncated["depth:"+fn.String()] = true
	}
	return single(c.st, in.opaque(c))
}

func (in *Interp) inline(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		return in.inline(fn.Parent())
	}
	if p == nil {
		// wrappers: judged by the method's package
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return in.inlinePkg(o.Pkg().Path())
		}
		return strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")
	}
	return in.inlinePkg(p.Pkg.Path())
}

var purePkgs = []string{"strings.", "(*strings.", "(strings.", "fmt.Sprint", "fmt.Errorf", "errors.", "strconv.", "path.", "path/filepath.", "(error).", "unicode.", "(types.", "(*github.com/llir", "(github.com/llir", "github.com/llir", "math.", "bytes."}

func pureName(n string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	// getters on symbolic interfaces
	if i := strings.LastIndex(n, ")."); i >= 0 {
		m := n[i+2:]
		if strings.HasPrefix(m, "Get") || strings.HasPrefix(m, "Is") || m == "String" || m == "Type" || m == "Name" || m == "FullString" || m == "SizeOf" || m == "Alignment" || m == "Error" {
			return true
		}
	}
	return false
}

// opaque models a call that is not followed.
func (in *Interp) opaque(c *CallCtx) *Val {
	pure := pureName(c.name)
	var ks []string
	for _, a := range c.args {
		ks = append(ks, a.Key())
	}
	id := c.name + "(" + strings.Join(ks, ",") + ")"
	if len(id) > 300 {
		id = c.name + "(" + hash(id) + ")"
	}
	if !pure {
		id += "~" + hash(c.ctx)[:6]
		if c.site != nil {
			fn := ""
			if c.caller != nil {
				fn = c.caller.Name()
			}
			c.st.emit(&Event{Op: "ext:" + c.name, Args: c.args, Pos: c.site.Pos(), Fn: fn, Res: vSym(id, c.rt)})
		}
		for _, a := range c.args {
			in.havoc(c.st, a, id)
		}
	}
	if c.rt == nil {
		return nil
	}
	if t, ok := c.rt.(*types.Tuple); ok {
		r := &Val{K: KTuple}
		for i := 0; i < t.Len(); i++ {
			r.A = append(r.A, vSym(fmt.Sprintf("%s#%d", id, i), t.At(i).Type()))
		}
		return r
	}
	return vSym(id, c.rt)
}

func (in *Interp) havoc(st *State, v *Val, id string) {
	v = v.inner()
	if v.K == KPtr && !v.O.Root && len(v.Path) == 0 {
		if _, isIR := st.attrs["ty:"+v.O.ID]; isIR {
			return
		}
		st.heap[v.O] = vSym("havoc("+v.O.ID+","+hash(id)[:6]+")", v.O.T)
	}
}

func (in *Interp) builtin(f *frame, b *ssa.Builtin, c *CallCtx, cc *ssa.CallCommon) []Outcome {
	st := c.st
	a := c.args
	switch b.Name() {
	case "len":
		return single(st, in.lenOf(st, a[0]))
	case "cap":
		return single(st, vSym("cap("+a[0].Key()+")", c.rt))
	case "append":
		t := cc.Args[0].Type()
		if c.rt != nil {
			t = c.rt
		}
		id := "ap" + c.ctx
		src := st.norm(a[1])
		if bt, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return single(st, vTerm("appendstr", t, a[0], src))
		}
		if es, ok := in.elems(st, src); ok {
			return single(st, in.appendVals(st, a[0], es, t, id))
		}
		// unknown suffix
		bv := st.norm(a[0])
		pre := bv.Key()
		if es, ok := in.elems(st, bv); ok {
			pre = "["
			for _, e := range es {
				pre += e.Key() + " "
			}
			pre += "]"
		}
		return single(st, vSym("concat("+pre+","+src.Key()+")", t))
	case "copy":
		st.emit(&Event{Op: "copy", Args: a, Pos: c.site.Pos(), Fn: f.fn.Name()})
		return single(st, vSym("copied", c.rt))
	case "delete":
		o := in.mapObj(st, a[0])
		if o != nil {
			mc := st.content(o)
			nc := &Val{K: KMapV, S: mc.S, M: cp(mc.M), MK: cp(mc.MK), T: mc.T}
			if mc.S == "" {
				delete(nc.M, a[1].Key())
				delete(nc.MK, a[1].Key())
			} else {
				nc.M[a[1].Key()] = vSym("<absent>", nil)
				nc.MK[a[1].Key()] = a[1]
			}
			st.heap[o] = nc
		}
		return single(st, nil)
	case "print", "println":
		st.emit(&Event{Op: "ext:builtin.print", Pos: c.site.Pos(), Fn: f.fn.Name()})
		return single(st, nil)
	case "recover":
		return single(st, vNil(c.rt))
	case "close":
		return single(st, nil)
	case "ssa:wrapnilchk":
		return single(st, a[0])
	case "min", "max":
		return single(st, vTerm(b.Name(), c.rt, a...))
	case "clear":
		return single(st, nil)
	}
	return single(st, vSym("builtin:"+b.Name()+"~"+c.ctx, c.rt))
}
