package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the library calls the analysed code makes: the LLVM instruction builder records what it is asked to
// emit, together with the LLVM type of the result; everything else has the effect its documentation promises.

const llir = "github.com/llir/llvm/ir"

func recvName(fn *ssa.Function) (pkg, name string) {
	if fn == nil || fn.Signature.Recv() == nil {
		return "", ""
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

func (in *Interp) llt(name string) types.Type { return in.w.typ(llir+"/types", name) }

// lltGlobal returns the value of a package variable of llir's types package (types.I1, ...).
func (in *Interp) lltGlobal(name string) *Val {
	sp := in.w.ssaPkg(llir + "/types")
	g, _ := sp.Members[name].(*ssa.Global)
	o := in.globalObj(g)
	v := in.w.globalHeap[o]
	if v == nil {
		return vSym("types."+name, elemOf(g.Type()))
	}
	if v.K != KIface {
		return vIface(elemOf(g.Type()), v)
	}
	return v
}

func fieldIndex(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldPath finds a (possibly promoted) field.
func fieldPath(t types.Type, name string) ([]int, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, true
		}
	}
	return nil, false
}

func (in *Interp) field(st *State, ptr *Val, name string) *Val {
	p := st.norm(ptr).inner()
	var t types.Type
	if p.K == KPtr {
		t = p.O.T
	} else {
		t = elemOf(p.T)
		p = in.addr(st, p, t)
	}
	if t == nil {
		return nil
	}
	i := fieldIndex(t, name)
	if i < 0 {
		return nil
	}
	return st.norm(st.load(vPtr(p.O, append(append([]int(nil), p.Path...), i)...)))
}

func (in *Interp) setField(st *State, ptr *Val, name string, v *Val) {
	p := st.norm(ptr).inner()
	var t types.Type
	if p.K == KPtr {
		t = p.O.T
	} else {
		t = elemOf(p.T)
		p = in.addr(st, p, t)
	}
	i := fieldIndex(t, name)
	if i < 0 {
		panic("no field " + name + " in " + t.String())
	}
	st.store(vPtr(p.O, append(append([]int(nil), p.Path...), i)...), v)
}

func (in *Interp) llPtr(st *State, elem *Val) *Val {
	t := in.llt("PointerType")
	o := in.obj("pt("+elem.Key()+")", t, false)
	if _, ok := st.heap[o]; !ok {
		st.heap[o] = zeroVal(t)
		in.setField(st, vPtr(o), "ElemType", elem)
	}
	return vIface(types.NewPointer(t), vPtr(o))
}

// typeOf gives the LLVM type of an IR value.
func (in *Interp) typeOf(st *State, v *Val) *Val {
	v = st.norm(v)
	i := v.inner()
	k := ""
	if i.K == KPtr {
		k = i.O.ID
	} else {
		k = i.Key()
	}
	if t, ok := st.attrs["ty:"+k]; ok {
		return st.norm(t)
	}
	if t, ok := in.w.globalAttrs["ty:"+k]; ok {
		return st.norm(t)
	}
	return vSym("ty("+k+")", in.w.typ(llir+"/types", "Type"))
}

func (in *Interp) def(st *State, v *Val) *Val {
	i := v.inner()
	if i == nil {
		return nil
	}
	if i.K == KPtr {
		if d, ok := st.attrs["def:"+i.O.ID]; ok {
			return d
		}
		if d, ok := in.w.globalAttrs["def:"+i.O.ID]; ok {
			return d
		}
		if strings.HasPrefix(i.O.ID, "@g:") {
			if d, ok := in.w.globalAttrs["def:"+i.O.ID[3:]]; ok {
				return d
			}
		}
	}
	return i
}

// newIR makes the object standing for a new IR value.
func (in *Interp) newIR(st *State, id, op string, t types.Type, llty *Val, args []*Val) *Val {
	o := in.obj(id, elemOf(t), false)
	if llty != nil {
		st.attrs["ty:"+o.ID] = llty
	}
	st.attrs["def:"+o.ID] = vTerm(op, nil, args...)
	return vPtr(o)
}

func (in *Interp) flatten(st *State, args []*Val, variadic bool) []*Val {
	if !variadic || len(args) == 0 {
		return args
	}
	last := st.norm(args[len(args)-1])
	es, ok := in.elems(st, last)
	if !ok {
		return args
	}
	return append(append([]*Val(nil), args[:len(args)-1]...), es...)
}

var castOps = map[string]bool{"Trunc": true, "ZExt": true, "SExt": true, "FPTrunc": true, "FPExt": true, "FPToUI": true, "FPToSI": true, "UIToFP": true, "SIToFP": true, "PtrToInt": true, "IntToPtr": true, "BitCast": true, "AddrSpaceCast": true}
var termOps = map[string]bool{"Ret": true, "Br": true, "CondBr": true, "Switch": true, "Unreachable": true}

func (in *Interp) gepType(st *State, elem *Val, idx []*Val) *Val {
	t := st.norm(elem)
	for k, ix := range idx {
		if k == 0 {
			continue
		}
		if t.K == KIface {
			switch shortType(t.T) {
			case "*types.ArrayType", "*types.VectorType":
				t = in.field(st, t, "ElemType")
				continue
			case "*types.StructType":
				fs := in.field(st, t, "Fields")
				d := in.def(st, ix)
				if d != nil && d.K == KTerm && len(d.A) > 1 {
					if n, ok := d.A[1].intConst(); ok {
						if es, ok := in.elems(st, fs); ok {
							if int(n) >= 0 && int(n) < len(es) {
								t = es[n]
								continue
							}
						} else if fs.K == KSym {
							t = vSym(fmt.Sprintf("%s[%d]", fs.S, n), in.w.typ(llir+"/types", "Type"))
							continue
						}
					}
					if len(d.A) > 1 {
						t = vSym(fs.Key()+"["+d.A[1].Key()+"]", in.w.typ(llir+"/types", "Type"))
						continue
					}
				}
			}
		}
		t = vSym("gepelem("+elem.Key()+")", in.w.typ(llir+"/types", "Type"))
	}
	return in.llPtr(st, st.norm(t))
}

func (in *Interp) retTypeOf(st *State, callee *Val) *Val {
	t := in.typeOf(st, callee)
	if t.K == KIface && shortType(t.T) == "*types.PointerType" {
		e := in.field(st, t, "ElemType")
		if e != nil && e.K == KIface && shortType(e.T) == "*types.FuncType" {
			if r := in.field(st, e, "RetType"); r != nil {
				return r
			}
		}
	}
	return vSym("retty("+callee.Key()+")", in.w.typ(llir+"/types", "Type"))
}

// llEqual compares two LLVM types; ok is false when that is not decided by what is known about them.
func (in *Interp) llEqual(st *State, a, b *Val) (eq, ok bool) {
	a, b = st.norm(a), st.norm(b)
	kind := func(v *Val) string {
		if v.K == KIface {
			return shortType(v.T)
		}
		if v.K == KPtr && v.O.T != nil {
			return shortType(types.NewPointer(v.O.T))
		}
		return ""
	}
	if a.inner().Key() == b.inner().Key() {
		return true, true
	}
	ka, kb := kind(a), kind(b)
	if ka == "" || kb == "" {
		return false, false
	}
	if ka != kb {
		return false, true
	}
	na, nb := llName(in, st, a), llName(in, st, b)
	switch ka {
	case "*types.IntType", "*types.FloatType":
		return na == nb, na == nb || !strings.Contains(na+nb, "<") && !strings.Contains(na+nb, "float<")
	case "*types.VoidType":
		return true, true
	case "*types.PointerType":
		return in.llEqual(st, in.field(st, a, "ElemType"), in.field(st, b, "ElemType"))
	}
	return false, false
}

func modelHook(c *CallCtx) ([]Outcome, bool) {
	in, st := c.in, c.st
	ret := func(v *Val) ([]Outcome, bool) { return single(st, v), true }
	pos := func() (p Event) {
		if c.site != nil {
			p.Pos = c.site.Pos()
		}
		if c.caller != nil {
			p.Fn = c.caller.Name()
		}
		return
	}
	switch {
	case c.name == "os.Exit" || strings.HasPrefix(c.name, "log.Fatal") || strings.HasPrefix(c.name, "(*log.Logger).Fatal"):
		e := pos()
		e.Op, e.Args = "exit", c.args
		st.emit(&e)
		return []Outcome{{St: st, Kind: OExit, Msg: c.name, Pos: e.Pos}}, true
	case strings.HasPrefix(c.name, modPath+"/pkg/logger."):
		return ret(nil)
	case strings.HasPrefix(c.name, modPath+"/pkg/random."):
		return ret(vSym("rnd~"+c.ctx[:8], c.rt))
	case strings.HasPrefix(c.name, modPath+"/pkg/format."):
		return ret(vSym("fmt", c.rt))
	case c.name == "errors.New" || c.name == "fmt.Errorf":
		return ret(vIface(in.w.errType(), vSym("err", in.w.errType())))
	case strings.HasPrefix(c.name, "(*strings.Builder).") || strings.HasPrefix(c.name, "(*bytes.Buffer)."):
		return in.builderModel(c)
	}
	if c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "strings" || c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "strconv" {
		if v := stringsFold(in, st, c); v != nil {
			return ret(v)
		}
	}
	if in.texts || stdNames[c.name] {
		if v := in.stdTerm(c); v != nil {
			return ret(v)
		}
	}
	// methods called through symbolic or known IR values
	if c.fn == nil {
		if strings.HasSuffix(c.name, ").Type") && len(c.args) == 1 && (strings.HasPrefix(c.name, "(value.") || strings.HasPrefix(c.name, "(constant.")) {
			return ret(in.typeOf(st, c.args[0]))
		}
		if strings.HasSuffix(c.name, ").Ident") && len(c.args) == 1 && (strings.HasPrefix(c.name, "(value.") || strings.HasPrefix(c.name, "(constant.")) {
			// the same text exactly for the same value
			return ret(vStr(termOf(in, st, st.norm(c.args[0]), 0)))
		}
		return nil, false
	}
	rp, rn := recvName(c.fn)
	pk := ""
	if p := fnPkg(c.fn); p != nil {
		pk = p.Path()
	} else if o := c.fn.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if pk == llir+"/types" && c.fn.Name() == "Equal" && len(c.args) == 2 {
		if eq, ok := in.llEqual(st, c.args[0], c.args[1]); ok {
			return ret(vBool(eq))
		}
		return nil, false
	}
	if !strings.HasPrefix(pk, llir) || pk == llir+"/types" {
		return nil, false
	}
	name := c.fn.Name()
	if rn != "" && name == "Type" && len(c.args) == 1 {
		return ret(in.typeOf(st, c.args[0]))
	}
	if (name == "Ident" || name == "String" && pk == llir+"/constant") && len(c.args) == 1 {
		// the same text exactly for the same value
		return ret(vStr(termOf(in, st, st.norm(c.args[0]), 0)))
	}
	id := "ir" + c.ctx
	typeI := in.w.typ(llir+"/types", "Type")
	_ = typeI
	switch {
	case rp == llir && rn == "Block" && strings.HasPrefix(name, "New"):
		op := name[3:]
		args := in.flatten(st, c.args[1:], c.fn.Signature.Variadic())
		blk := st.norm(c.args[0])
		if blk.K != KPtr {
			blk = in.addr(st, blk, in.w.typ(llir, "Block"))
		}
		var ty *Val
		switch {
		case op == "Alloca":
			ty = in.llPtr(st, st.norm(args[0]))
		case op == "Load":
			ty = st.norm(args[0])
		case op == "ICmp" || op == "FCmp":
			ty = in.lltGlobal("I1")
		case castOps[op]:
			ty = st.norm(args[1])
		case op == "GetElementPtr":
			ty = in.gepType(st, args[0], args[2:])
		case op == "Call":
			ty = in.retTypeOf(st, args[0])
		case op == "Store" || termOps[op]:
		case op == "Select":
			ty = in.typeOf(st, args[1])
		case op == "Phi":
		default:
			if len(args) > 0 {
				ty = in.typeOf(st, args[0])
			}
		}
		res := in.newIR(st, id, op, c.rt, ty, args)
		e := pos()
		e.Op, e.Args, e.Res, e.Blk = "ir:"+op, args, res, blk.O
		st.emit(&e)
		// instructions stand before the end of their block, and reserving a place can happen at any time before
		if !termOps[op] && op != "Alloca" {
			if cur := in.field(st, blk, "Term"); cur == nil || cur.K != KNil {
				st.emit(&Event{Op: "late", Args: []*Val{vSym(op, nil)}, Blk: blk.O, Pos: e.Pos, Fn: e.Fn})
			}
		}
		if termOps[op] {
			cur := in.field(st, blk, "Term")
			if cur == nil || cur.K != KNil {
				st.emit(&Event{Op: "reterm", Blk: blk.O, Pos: e.Pos, Fn: e.Fn})
			}
			in.setField(st, blk, "Term", vIface(c.rt, res))
		}
		return ret(res)
	case rp == llir && rn == "Func" && name == "NewBlock", pk == llir && rn == "" && name == "NewBlock":
		bt := in.w.typ(llir, "Block")
		o := in.obj("blk"+c.ctx, bt, false)
		st.heap[o] = zeroVal(bt)
		b := vPtr(o)
		nm := c.args[len(c.args)-1]
		st.attrs["name:"+o.ID] = nm
		if rn == "Func" {
			in.setField(st, b, "Parent", c.args[0])
			old := in.field(st, c.args[0], "Blocks")
			nb := in.appendVals(st, old, []*Val{b}, in.fieldType(llir, "Func", "Blocks"), "bl"+c.ctx)
			in.setField(st, c.args[0], "Blocks", nb)
			e := pos()
			e.Op, e.Args, e.Blk = "newblock", []*Val{c.args[0]}, o
			st.emit(&e)
		}
		return ret(b)
	case rp == llir && rn == "Module" && name == "NewFunc", pk == llir && rn == "" && name == "NewFunc":
		a := c.args
		if rn == "Module" {
			a = a[1:]
		}
		ft := in.w.typ(llir, "Func")
		o := in.obj("func"+c.ctx, ft, false)
		st.heap[o] = zeroVal(ft)
		f := vPtr(o)
		sig := in.llFunc(st, "sig"+c.ctx, st.norm(a[1]), a[2])
		in.setField(st, f, "Sig", sig.inner())
		in.setField(st, f, "Params", a[2])
		gi := expand(zeroVal(in.w.typ(llir, "GlobalIdent")))
		gi.A[fieldIndex(in.w.typ(llir, "GlobalIdent"), "GlobalName")] = a[0]
		in.setField(st, f, "GlobalIdent", gi)
		st.attrs["name:"+o.ID] = a[0]
		st.attrs["ty:"+o.ID] = in.llPtr(st, sig)
		st.attrs["def:"+o.ID] = vTerm("func", nil, a[0])
		e := pos()
		e.Op, e.Args, e.Res = "newfunc", a, f
		st.emit(&e)
		return ret(f)
	case rp == llir && rn == "Module" && (name == "NewGlobalDef" || name == "NewGlobal"):
		o := in.obj("glob"+c.ctx, elemOf(c.rt), false)
		g := vPtr(o)
		st.heap[o] = zeroVal(elemOf(c.rt))
		var et *Val
		if name == "NewGlobalDef" {
			et = in.typeOf(st, c.args[2])
			in.setField(st, g, "Init", c.args[2])
		} else {
			et = c.args[2]
		}
		st.attrs["ty:"+o.ID] = in.llPtr(st, et)
		st.attrs["def:"+o.ID] = vTerm("global", nil, c.args[1], c.args[2])
		e := pos()
		e.Op, e.Args, e.Res = "newglobal", c.args[1:], g
		st.emit(&e)
		return ret(g)
	case rp == llir && rn == "Module" && name == "NewTypeDef":
		e := pos()
		e.Op, e.Args = "newtypedef", c.args[1:]
		st.emit(&e)
		if p := st.norm(c.args[2]).inner(); p.K == KPtr {
			if fieldIndex(p.O.T, "TypeName") >= 0 {
				in.setField(st, p, "TypeName", st.norm(c.args[1]))
			}
		}
		return ret(c.args[2])
	case pk == llir && name == "NewModule":
		o := in.obj("mod"+c.ctx, elemOf(c.rt), false)
		st.heap[o] = zeroVal(elemOf(c.rt))
		return ret(vPtr(o))
	case pk == llir && name == "NewParam":
		o := in.obj("param"+c.ctx, elemOf(c.rt), false)
		st.attrs["ty:"+o.ID] = st.norm(c.args[1])
		st.attrs["name:"+o.ID] = c.args[0]
		st.attrs["def:"+o.ID] = vTerm("param", nil, c.args[0], c.args[1])
		li := expand(zeroVal(in.w.typ(llir, "LocalIdent")))
		li.A[fieldIndex(in.w.typ(llir, "LocalIdent"), "LocalName")] = c.args[0]
		in.setField(st, vPtr(o), "LocalIdent", li)
		return ret(vPtr(o))
	case pk == llir && name == "NewCase":
		return ret(in.newIR(st, id, "case", c.rt, nil, c.args))
	case pk == llir && name == "NewInlineAsm":
		return ret(in.newIR(st, id, "inlineasm", c.rt, st.norm(c.args[0]), c.args))
	case rn != "" && (name == "Name" || name == "LocalName" || name == "GlobalName"):
		i := st.norm(c.args[0]).inner()
		if i.K == KPtr {
			if n, ok := st.attrs["name:"+i.O.ID]; ok {
				return ret(n)
			}
		}
		if i.K == KStruct {
			for _, x := range i.A {
				if n, ok := st.norm(x).strConst(); ok && n != "" {
					return ret(x)
				}
			}
		}
		return ret(vSym("name("+i.Key()+")", c.rt))
	case pk == llir+"/constant" && rn == "" && strings.HasPrefix(name, "New"):
		return ret(in.constModel(c, name[3:], id))
	}
	return nil, false
}

func (in *Interp) fieldType(pkg, typ, f string) types.Type {
	t := in.w.typ(pkg, typ)
	return t.Underlying().(*types.Struct).Field(fieldIndex(t, f)).Type()
}

func (in *Interp) llFunc(st *State, id string, ret, params *Val) *Val {
	t := in.llt("FuncType")
	o := in.obj(id, t, false)
	st.heap[o] = zeroVal(t)
	in.setField(st, vPtr(o), "RetType", ret)
	if es, ok := in.elems(st, st.norm(params)); ok { // the parameters are given with their names
		l := []*Val{}
		for _, p := range es {
			l = append(l, in.typeOf(st, p))
		}
		in.setField(st, vPtr(o), "Params", in.list(st, "params:"+id, in.w.typ(llir+"/types", "Type"), l...))
	} else {
		in.setField(st, vPtr(o), "Params", vSym("params:"+id, in.fieldType(llir+"/types", "FuncType", "Params")))
	}
	return vIface(types.NewPointer(t), vPtr(o))
}

func (in *Interp) constModel(c *CallCtx, op, id string) *Val {
	st := c.st
	args := in.flatten(st, c.args, c.fn.Signature.Variadic())
	for i := range args {
		args[i] = st.norm(args[i])
	}
	var ty *Val
	wrapT := func(v *Val, name string) *Val {
		if v.K == KIface || isIface(v.T) {
			return v
		}
		return vIface(types.NewPointer(in.llt(name)), v)
	}
	nm := op
	switch op {
	case "Int":
		ty = wrapT(args[0], "IntType")
	case "Float":
		ty = wrapT(args[0], "FloatType")
	case "Bool":
		ty = in.lltGlobal("I1")
	case "Null":
		ty = wrapT(args[0], "PointerType")
	case "Undef", "ZeroInitializer":
		ty = args[0]
	case "CharArrayFromString", "CharArray":
		at := in.llt("ArrayType")
		o := in.obj("chararr"+c.ctx, at, false)
		st.heap[o] = zeroVal(at)
		in.setField(st, vPtr(o), "ElemType", in.lltGlobal("I8"))
		in.setField(st, vPtr(o), "Len", in.lenOf(st, args[0]))
		ty = vIface(types.NewPointer(at), vPtr(o))
	case "ICmp", "FCmp":
		ty = in.lltGlobal("I1")
	case "GetElementPtr":
		ty = in.gepType(st, args[0], args[2:])
	default:
		if castOps[op] {
			ty = args[1]
		} else if len(args) > 0 {
			ty = in.typeOf(st, args[0])
		}
	}
	var ks []string
	for _, a := range args {
		ks = append(ks, a.Key())
	}
	oid := "const:" + nm + "(" + strings.Join(ks, ",") + ")"
	if len(oid) > 120 {
		oid = "const:" + nm + "(" + hash(oid) + ")"
	}
	r := in.newIR(st, oid, "const."+nm, c.rt, ty, args)
	if castOps[op] && len(args) == 2 {
		if t := elemOf(c.rt); t != nil && fieldIndex(t, "From") >= 0 && fieldIndex(t, "To") >= 0 {
			if _, ok := st.heap[r.O]; !ok {
				st.heap[r.O] = zeroVal(t)
				in.setField(st, r, "From", args[0])
				in.setField(st, r, "To", args[1])
			}
		}
	}
	if c.site != nil && nm != "Int" && nm != "Bool" && nm != "Float" {
		fn := ""
		if c.caller != nil {
			fn = c.caller.Name()
		}
		st.emit(&Event{Op: "const:" + nm, Args: args, Res: r, Pos: c.site.Pos(), Fn: fn})
	}
	return r
}

func (in *Interp) builderModel(c *CallCtx) ([]Outcome, bool) {
	st := c.st
	m := c.fn.Name()
	p := st.norm(c.args[0])
	k := "sb:" + p.Key()
	cur, ok := st.attrs[k]
	if !ok {
		cur = vStr("")
	}
	str := types.Typ[types.String]
	errnil := vNil(types.Universe.Lookup("error").Type())
	switch m {
	case "WriteString":
		st.attrs[k] = in.binop(st, tokADD, cur, c.args[1], str, str)
		return single(st, &Val{K: KTuple, A: []*Val{in.lenOf(st, c.args[1]), errnil}}), true
	case "WriteByte":
		b := st.norm(c.args[1])
		var s *Val
		if n, ok := b.intConst(); ok {
			s = vStr(string([]byte{byte(n)}))
		} else if isByteSym(b) {
			s = vText([]*Val{b}, str)
		} else {
			s = vTerm("bytestr", str, b)
		}
		st.attrs[k] = in.binop(st, tokADD, cur, s, str, str)
		return single(st, errnil), true
	case "WriteRune":
		b := st.norm(c.args[1])
		var s *Val
		if n, ok := b.intConst(); ok {
			s = vStr(string(rune(n)))
		} else if t := in.runeText(st, b); t != nil {
			s = t
		} else {
			s = vTerm("runestr", str, b)
		}
		st.attrs[k] = in.binop(st, tokADD, cur, s, str, str)
		return single(st, &Val{K: KTuple, A: []*Val{vInt(1), errnil}}), true
	case "String":
		return single(st, cur), true
	case "Len":
		return single(st, in.lenOf(st, cur)), true
	case "Reset":
		st.attrs[k] = vStr("")
		return single(st, nil), true
	case "Grow":
		return single(st, nil), true
	}
	return nil, false
}

func stringsFold(in *Interp, st *State, c *CallCtx) *Val {
	str := func(i int) (string, bool) {
		if i >= len(c.args) {
			return "", false
		}
		return st.norm(c.args[i]).strConst()
	}
	a, okA := str(0)
	b, okB := str(1)
	if !okA {
		return nil
	}
	mk := func(ss []string) *Val {
		o := in.obj("split"+c.ctx, types.Typ[types.String], false)
		v := &Val{K: KVec, M: map[string]*Val{}, T: types.Typ[types.String]}
		for i, s := range ss {
			v.M[strconv.Itoa(i)] = vStr(s)
		}
		st.heap[o] = v
		return &Val{K: KSlice, O: o, N: len(ss), T: c.rt}
	}
	switch c.fn.Name() {
	case "HasPrefix":
		if okB {
			return vBool(strings.HasPrefix(a, b))
		}
	case "HasSuffix":
		if okB {
			return vBool(strings.HasSuffix(a, b))
		}
	case "Contains":
		if okB {
			return vBool(strings.Contains(a, b))
		}
	case "Index":
		if okB {
			return vInt(int64(strings.Index(a, b)))
		}
	case "LastIndex":
		if okB {
			return vInt(int64(strings.LastIndex(a, b)))
		}
	case "TrimPrefix":
		if okB {
			return vStr(strings.TrimPrefix(a, b))
		}
	case "TrimSuffix":
		if okB {
			return vStr(strings.TrimSuffix(a, b))
		}
	case "TrimSpace":
		return vStr(strings.TrimSpace(a))
	case "ToLower":
		return vStr(strings.ToLower(a))
	case "ToUpper":
		return vStr(strings.ToUpper(a))
	case "Split":
		if okB {
			return mk(strings.Split(a, b))
		}
	case "Repeat":
		if n, ok := c.args[1].intConst(); ok && n >= 0 && n < 200 {
			return vStr(strings.Repeat(a, int(n)))
		}
	case "ParseInt", "ParseUint":
		base, ok1 := c.args[1].intConst()
		bits, ok2 := c.args[2].intConst()
		if ok1 && ok2 {
			if c.fn.Name() == "ParseUint" {
				n, err := strconv.ParseUint(a, int(base), int(bits))
				return &Val{K: KTuple, A: []*Val{vConst(constant.MakeUint64(n), types.Typ[types.Uint64]), numError(in, st, c, err)}}
			}
			n, err := strconv.ParseInt(a, int(base), int(bits))
			return &Val{K: KTuple, A: []*Val{vConst(constant.MakeInt64(n), types.Typ[types.Int64]), numError(in, st, c, err)}}
		}
	case "ParseFloat":
		if bits, ok := c.args[1].intConst(); ok {
			n, err := strconv.ParseFloat(a, int(bits))
			return &Val{K: KTuple, A: []*Val{vConst(constant.MakeFloat64(n), types.Typ[types.Float64]), numError(in, st, c, err)}}
		}
	case "Atoi":
		n, err := strconv.Atoi(a)
		return &Val{K: KTuple, A: []*Val{vInt(int64(n)), numError(in, st, c, err)}}
	}
	return nil
}

// numError is the error a conversion of package strconv returns.
func numError(in *Interp, st *State, c *CallCtx, err error) *Val {
	if err == nil {
		return vNil(types.Universe.Lookup("error").Type())
	}
	generic := vIface(in.w.errType(), vSym("err", in.w.errType()))
	ne, ok := err.(*strconv.NumError)
	nt, ok2 := c.fn.Pkg.Members["NumError"].(*ssa.Type)
	if !ok || !ok2 {
		return generic
	}
	var which *Val
	for name, e := range map[string]error{"ErrRange": strconv.ErrRange, "ErrSyntax": strconv.ErrSyntax} {
		g, ok := c.fn.Pkg.Members[name].(*ssa.Global)
		if !ok {
			return generic
		}
		v := vIface(in.w.errType(), vPtr(in.obj("strconv."+name, elemOf(in.w.errType()), false)))
		st.heap[in.globalObj(g)] = v
		if ne.Err == e {
			which = v
		}
	}
	if which == nil {
		return generic
	}
	p := in.newObj(st, "numerror"+c.ctx, nt.Type())
	in.setField(st, p, "Err", which)
	return vIface(types.NewPointer(nt.Type()), p)
}
