package main

// The command line tools: every path through them is followed, with each step outside of them (reading and writing files, parsing,
// analysing, running a program) both succeeding and failing. What a path does in what order, what it prints and its exit status is
// compared with what went wrong on it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{id: "C23", explanation: "every path through the command line tools, with parsing and analysis failing or not", rules: []string{"errors stop the build", "errors and warnings are printed"}, assumptions: []string{"libraries do what their documentation says"}, run: func(w *World, a *Anchors, r *Report) { pipeline(w, a, r, "errors") }})
	register(&Prop{id: "C35", explanation: "every path through the command line tools, with every outside step failing or not", rules: []string{"exit status", "failures stop the rest", "failures are printed"}, assumptions: []string{"libraries do what their documentation says"}, run: func(w *World, a *Anchors, r *Report) { pipeline(w, a, r, "status") }})
	register(&Prop{id: "C34", explanation: "every path through the command line tools that gets to run the compiler or the program", rules: []string{"what is compiled", "command of the compiler", "the program that is run"}, assumptions: []string{"libraries do what their documentation says"}, run: func(w *World, a *Anchors, r *Report) { pipeline(w, a, r, "build") }})
}

type pipe struct {
	w            *World
	in           *Interp
	a            *Anchors
	pa           *ParseAnchors
	sa           *SemAnchors
	args         []string
	kind, bin    string
	n            int
	closure      []*Val
	reachesExec  map[*ssa.Function]bool
	failsPerPath int
}

var errorI = types.Universe.Lookup("error").Type()

func (p *pipe) emit(c *CallCtx, st *State, op string, args []*Val, res *Val) {
	e := &Event{Op: op, Args: args, Res: res}
	if c.site != nil {
		e.Pos = c.site.Pos()
	}
	if c.caller != nil {
		e.Fn = c.caller.Name()
	}
	st.emit(e)
}

// fork: the step succeeds or fails.
func (p *pipe) fork(c *CallCtx, what string, args []*Val, ok func(st *State) *Val, bad func(st *State, err *Val) *Val) ([]Outcome, bool) {
	es := vSym(fmt.Sprintf("err:%s~%s", what, c.ctx[:8]), errorI)
	s2 := c.st.clone()
	p.emit(c, c.st, "ok:"+what, args, nil)
	p.emit(c, s2, "fail:"+what, args, es)
	s2.facts[p.in.eqNilKey(es)] = false
	return []Outcome{{St: c.st, Res: ok(c.st)}, {St: s2, Res: bad(s2, es)}}, true
}

// simpleFormat is the text of a format that only puts strings one after the other.
func simpleFormat(args []*Val) *Val {
	f := args[0]
	if f.K != KConst || f.C.Kind() != constant.String {
		return nil
	}
	str := types.Typ[types.String]
	parts := strings.Split(strings.ReplaceAll(constant.StringVal(f.C), "%v", "%s"), "%s")
	if len(parts) != len(args) || strings.Contains(strings.Join(parts, ""), "%") {
		return nil
	}
	r := vStr(parts[0])
	for i, a := range args[1:] {
		v := a.inner()
		if b, ok := v.T.(*types.Basic); !ok || b.Kind() != types.String && b.Kind() != types.UntypedString {
			return nil
		}
		if r.Key() == vStr("").Key() {
			r = v
		} else {
			r = strCat(r, v, str)
		}
		if parts[i+1] != "" {
			r = strCat(r, vStr(parts[i+1]), str)
		}
	}
	return r
}

func tuple(a ...*Val) *Val { return &Val{K: KTuple, A: a} }

func (p *pipe) zero(c *CallCtx, i int) *Val {
	return zeroVal(c.rt.(*types.Tuple).At(i).Type())
}

func (p *pipe) hook(c *CallCtx) ([]Outcome, bool) {
	in, st := c.in, c.st
	name := c.name
	ret := func(v *Val) ([]Outcome, bool) { return single(st, v), true }
	noErr := vNil(errorI)
	onlyErr := func(what string, args []*Val) ([]Outcome, bool) {
		return p.fork(c, what, args, func(*State) *Val { return noErr }, func(_ *State, e *Val) *Val { return e })
	}
	valErr := func(what string, args []*Val, v func(st *State) *Val) ([]Outcome, bool) {
		return p.fork(c, what, args, func(st *State) *Val { return tuple(v(st), noErr) }, func(_ *State, e *Val) *Val { return tuple(p.zero(c, 0), e) })
	}
	flat := func() []*Val {
		variadic := c.fn != nil && c.fn.Signature.Variadic()
		var r []*Val
		for _, a := range in.flatten(st, c.args, variadic) {
			r = append(r, st.norm(a))
		}
		if l := len(r) - 1; variadic && l >= 0 && r[l].K == KSlice && r[l].S != "" && r[l].O != nil {
			// an unknown list that was added to
			v := r[l]
			r[l] = vSym("list:"+v.S, v.T)
			for i := 0; i < v.N; i++ {
				if e := st.content(v.O).M[fmt.Sprint(v.Off+i)]; e != nil {
					r = append(r, st.norm(e))
				}
			}
		}
		return r
	}
	sym := func(k string, t types.Type) func(*State) *Val { return func(*State) *Val { return vSym(k, t) } }
	rt0 := func() types.Type { return c.rt.(*types.Tuple).At(0).Type() }
	file := func(k string) func(*State) *Val {
		return func(st *State) *Val {
			o := in.obj(k, elemOf(rt0()), true)
			return vPtr(o)
		}
	}
	switch {
	case strings.HasPrefix(name, modPath+"/pkg/logger."), strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "(*log.Logger).Print"):
		p.emit(c, st, "print", flat(), vSym(name, nil))
		if c.rt == nil {
			return ret(nil)
		}
		return ret(tuple(vSym("n", types.Typ[types.Int]), noErr))
	case name == "os.ReadFile" || name == "io/ioutil.ReadFile":
		return valErr("read", flat(), sym("bytes("+st.norm(c.args[0]).Key()+")", rt0()))
	case name == "os.Open":
		return valErr("open", flat(), file("file("+st.norm(c.args[0]).Key()+")"))
	case name == "os.Create":
		return valErr("create", flat(), file("created("+st.norm(c.args[0]).Key()+")"))
	case name == "os.OpenFile":
		return valErr("create", flat(), file("created("+st.norm(c.args[0]).Key()+")"))
	case name == "os.WriteFile":
		return onlyErr("write", flat())
	case name == "os.Remove" || name == "os.RemoveAll":
		p.emit(c, st, "remove", flat(), nil)
		return ret(noErr)
	case name == "os.Getwd":
		return ret(tuple(vSym("cwd", types.Typ[types.String]), noErr))
	case strings.HasPrefix(name, "(*os.File).Write"):
		return valErr("write", flat(), sym("n", types.Typ[types.Int]))
	case name == "(*os.File).Close":
		if f := st.norm(c.args[0]).inner(); f.K != KPtr || !strings.HasPrefix(f.O.ID, "created(") {
			return ret(noErr)
		}
		return onlyErr("close", flat())
	case strings.HasSuffix(name, "llir/llvm/ir.Module).WriteTo"):
		return valErr("write", flat(), sym("n", types.Typ[types.Int64]))
	case strings.HasSuffix(name, "llir/llvm/ir.Module).String"):
		return ret(vSym("module", types.Typ[types.String]))
	case strings.HasSuffix(name, "WriterTo).WriteTo"):
		return valErr("write", flat(), sym("n", types.Typ[types.Int64]))
	case name == "encoding/json.NewDecoder":
		o := in.obj("decoder", elemOf(c.rt), true)
		st.attrs["decoder"] = st.norm(c.args[0])
		return ret(vPtr(o))
	case name == "(*encoding/json.Decoder).Decode", name == "encoding/json.Unmarshal":
		dst := st.norm(c.args[1])
		return p.fork(c, "decode", flat(), func(st *State) *Val { p.config(st, dst.inner()); return noErr }, func(_ *State, e *Val) *Val { return e })
	case name == "os/exec.LookPath":
		s2 := st.clone()
		es := vSym("err:look", errorI)
		s2.facts[in.eqNilKey(es)] = false
		return []Outcome{{St: st, Res: tuple(vSym("path", types.Typ[types.String]), noErr)}, {St: s2, Res: tuple(vStr(""), es)}}, true
	case name == "os/exec.Command":
		o := in.obj("cmd"+c.ctx, elemOf(c.rt), true)
		st.heap[o] = zeroVal(o.T)
		st.attrs["cmd:"+o.ID] = tuple(flat()...)
		return ret(vPtr(o))
	case strings.HasPrefix(name, "(*os/exec.Cmd)."):
		cmd := st.norm(c.args[0])
		if cmd.K != KPtr {
			return ret(in.opaque(c))
		}
		args := append([]*Val{cmd}, st.attrs["cmd:"+cmd.O.ID])
		for _, f := range []string{"Stdin", "Stdout", "Stderr"} {
			args = append(args, st.norm(in.field(st, cmd, f)))
		}
		switch strings.TrimPrefix(name, "(*os/exec.Cmd).") {
		case "Run", "Wait":
			return onlyErr("exec", args)
		case "Output", "CombinedOutput":
			return valErr("exec", args, sym("output"+c.ctx[:6], rt0()))
		case "Start":
			return ret(noErr)
		}
	case strings.HasSuffix(name, "ProcessState).ExitCode") || strings.HasSuffix(name, "ExitError).ExitCode"):
		return ret(vSym("exitcode", types.Typ[types.Int]))
	case name == "flag.Args":
		var l []*Val
		for i := 1; i < len(p.args); i++ {
			l = append(l, vStr(p.args[i]))
		}
		return ret(in.list(st, "flagargs", types.Typ[types.String], l...))
	case name == "flag.NArg":
		return ret(vInt(int64(len(p.args) - 1)))
	case name == "flag.Arg":
		if i := st.norm(c.args[0]); i.K == KConst {
			if n, ok := constant.Int64Val(i.C); ok && int(n)+1 < len(p.args) {
				return ret(vStr(p.args[n+1]))
			}
			return ret(vStr(""))
		}
	case name == "flag.StringVar":
		in.storeTo(st, c.args[0], vSym("flag:"+c.args[1].Key(), types.Typ[types.String]))
		return ret(nil)
	case strings.HasPrefix(name, "flag."), strings.HasPrefix(name, "(*flag."):
		if c.rt == nil {
			return ret(nil)
		}
		return ret(vSym(name, c.rt))
	case name == "errors.New" || name == "fmt.Errorf":
		return ret(vIface(in.w.errType(), vTerm("errorf", in.w.errType(), flat()...)))
	case name == "fmt.Sprintf" && len(flat()) > 0 && simpleFormat(flat()) != nil:
		return ret(simpleFormat(flat()))
	case strings.HasPrefix(name, "fmt.Sprint"):
		return ret(vTerm("sprint", types.Typ[types.String], flat()...))
	case strings.HasSuffix(name, ".Error") && len(c.args) == 1 && c.rt == types.Typ[types.String]:
		return ret(vTerm("errtext", types.Typ[types.String], st.norm(c.args[0])))
	case strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "(*time."):
		return ret(vSym("time"+c.ctx[:6], c.rt))
	case name == "path.Join" || name == "path/filepath.Join":
		return ret(vTerm("join", types.Typ[types.String], flat()...))
	}
	if c.fn == nil {
		return nil, false
	}
	pk := ""
	if q := fnPkg(c.fn); q != nil {
		pk = strings.TrimPrefix(q.Path(), modPath+"/")
	}
	sig := c.fn.Signature
	named := func(t types.Type, n string) bool {
		nt, ok := types.Unalias(t).(*types.Named)
		return ok && nt.Obj().Name() == n
	}
	node := func() *Val {
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasSuffix(nt.Obj().Pkg().Path(), "/internals/ast") {
				j := i
				if sig.Recv() != nil {
					j++
				}
				return st.norm(c.args[j])
			}
		}
		return nil
	}
	object := func(k string) *Val {
		o := in.obj(k+c.ctx[:6], elemOf(c.rt), true)
		st.heap[o] = zeroVal(o.T)
		return vPtr(o)
	}
	var errs func(st *State, n int, of string) *Val
	errs = func(st *State, n int, of string) *Val {
		var l []*Val
		for i := 0; i < n; i++ {
			e := vSym(fmt.Sprintf("%s%d", of, i), errorI)
			st.facts[in.eqNilKey(e)] = false
			l = append(l, e)
		}
		return in.list(st, "list:"+of, errorI, l...)
	}
	switch pk {
	case "internals/lexer":
		if sig.Recv() == nil && sig.Params().Len() == 1 && c.rt != nil {
			v := object("lexer")
			st.attrs["of:"+v.O.ID] = st.norm(c.args[0])
			return ret(v)
		}
		return ret(in.opaque(c))
	case "internals/parser":
		switch {
		case c.fn == p.pa.newFn:
			v := object("parser")
			st.attrs["of:"+v.O.ID] = st.norm(c.args[0])
			return ret(v)
		case c.fn == p.pa.parse:
			ps := st.norm(c.args[0])
			var src *Val
			if ps.K == KPtr {
				if l := st.attrs["of:"+ps.O.ID]; l != nil && l.K == KPtr {
					src = st.attrs["of:"+l.O.ID]
				}
			}
			mk := func(st *State, n int) *Val {
				in.setField(st, ps, "Errors", errs(st, n, "parse-error"))
				o := in.obj("tree"+c.ctx[:6], elemOf(c.rt), true)
				st.attrs["of:"+o.ID] = src
				return vPtr(o)
			}
			return p.fork(c, "parse", []*Val{src}, func(st *State) *Val { return mk(st, 0) }, func(st *State, _ *Val) *Val { return mk(st, 2) })
		}
		return ret(in.opaque(c))
	case "internals/semantic":
		switch {
		case c.fn == p.sa.newFn:
			return ret(object("analyzer"))
		case c.fn == p.sa.analyze:
			s := st.norm(c.args[0])
			tr := st.norm(c.args[1])
			warned := st.clone()
			st.attrs["of:"+s.O.ID] = tr
			warned.attrs["of:"+s.O.ID] = tr
			mk := func(st *State, n int) *Val { in.setField(st, s, "Errors", errs(st, n, "analyze-error")); return nil }
			r, _ := p.fork(c, "analyze", []*Val{tr}, func(st *State) *Val { return mk(st, 0) }, func(st *State, _ *Val) *Val { return mk(st, 2) })
			in.setField(warned, s, "Warnings", errs(warned, 2, "warning"))
			c2 := *c
			c2.st = warned
			r2, _ := p.fork(&c2, "analyze", []*Val{tr}, func(st *State) *Val { return mk(st, 0) }, func(st *State, _ *Val) *Val { return mk(st, 2) })
			for _, o := range r2 {
				p.emit(c, o.St, "warnings", nil, nil)
			}
			return append(r, r2...), true
		}
		return ret(in.opaque(c))
	case "internals/compiler":
		if sig.Recv() == nil && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), p.a.compT) {
			v := object("compiler")
			var of []*Val
			for _, a := range c.args {
				of = append(of, st.norm(a))
			}
			st.attrs["of:"+v.O.ID] = tuple(of...)
			m := in.obj("module:"+v.O.ID, nil, true)
			in.setField(st, v, "m", &Val{K: KPtr, O: m, T: p.w.ptrTyp(llir, "Module")})
			return ret(v)
		}
		if n := node(); n != nil {
			// a handler of events is called with the flags the program asks for
			p.emit(c, st, "compile", append([]*Val{n}, c.args[0]), nil)
			for i, a := range c.args {
				f := st.norm(a)
				if f.K != KFunc || f.Fn.Signature.Params().Len() != 1 || !named(f.Fn.Signature.Params().At(0).Type(), "Event") {
					continue
				}
				_ = i
				et := f.Fn.Signature.Params().At(0).Type()
				ev := zeroVal(et)
				k, _ := p.w.constInt("internals/compiler", "AddFlags")
				ev = setPath(ev, []int{fieldIndex(et, "Kind")}, vInt(k))
				ev = setPath(ev, []int{fieldIndex(et, "Data")}, vSym("flag-of-program", types.Typ[types.String]))
				plain := st.clone()
				p.emit(c, st, "flag", nil, nil)
				c2 := *c
				c2.args = []*Val{ev}
				c2.st = st
				c2.depth++
				outs := in.callFn(f.Fn, f.A, &c2)
				return append(outs, Outcome{St: plain}), true
			}
			if c.rt == nil {
				return ret(nil)
			}
			return ret(in.opaque(c))
		}
		return nil, false
	case "internals/tree_printer":
		if node() != nil {
			return ret(vTerm("tree-text", c.rt, node()))
		}
	}
	return nil, false
}

func (in *Interp) storeTo(st *State, ptr, v *Val) {
	ptr = st.norm(ptr)
	if ptr.K == KPtr {
		st.store(ptr, v)
	}
}

// config fills in what the project file says, by the names the fields have in the file.
func (p *pipe) config(st *State, dst *Val) {
	if dst.K != KPtr {
		return
	}
	ct := dst.O.T
	for _, i := range dst.Path {
		st, ok := ct.Underlying().(*types.Struct)
		if !ok {
			return
		}
		ct = st.Field(i).Type()
	}
	t, ok := ct.Underlying().(*types.Struct)
	if !ok {
		return
	}
	str := func(s string) *Val { return vSym("config:"+s, types.Typ[types.String]) }
	vals := map[string]*Val{"name": str("name"), "entrypoint": str("entrypoint"), "cxx": str("cxx"), "output": str("output"), "kind": vStr(p.kind), "binary": vStr(p.bin),
		"flags": p.in.list(st, "config:flags", types.Typ[types.String], vSym("config:flag0", types.Typ[types.String]), vSym("config:flag1", types.Typ[types.String]))}
	for i := 0; i < t.NumFields(); i++ {
		n := strings.Split(reflect.StructTag(t.Tag(i)).Get("json"), ",")[0]
		if n == "" {
			n = t.Field(i).Name()
		}
		for k, v := range vals {
			if strings.EqualFold(k, n) {
				st.store(&Val{K: KPtr, O: dst.O, Path: append(append([]int(nil), dst.Path...), i), T: types.NewPointer(t.Field(i).Type())}, retype(v, t.Field(i).Type()))
			}
		}
	}
}

// mentions: v is made of something that has the key.
func mentions(st *State, v *Val, key string, depth int) bool {
	if v == nil || depth > 12 {
		return false
	}
	v = st.norm(v)
	if v.Key() == key {
		return true
	}
	for _, a := range v.A {
		if mentions(st, a, key, depth+1) {
			return true
		}
	}
	if v.K == KSlice && v.O != nil {
		if c := st.content(v.O); c != nil {
			for _, m := range c.M {
				if mentions(st, m, key, depth+1) {
					return true
				}
			}
		}
	}
	if v.K == KPtr && v.O != nil {
		for _, a := range st.content(v.O).A {
			if mentions(st, a, key, depth+1) {
				return true
			}
		}
	}
	return false
}

func pipeline(w *World, a *Anchors, r *Report, what string) {
	pa, sa := w.parseAnchors(), w.semAnchors(a)
	if pa.problem != "" || sa.problem != "" || a.compT == nil {
		r.Ob(false, "anchors", pa.problem+sa.problem, 0, "not found")
		return
	}
	type run struct {
		tool, kind, bin string
		args            []string
	}
	var runs []run
	for _, mode := range []string{"run", "build"} {
		for _, rel := range []bool{false, true} {
			for _, kind := range []string{"cxx", "llvm", "other"} {
				for _, bin := range []string{"", "exe", "obj"} {
					args := []string{"candice", mode, "dir"}
					if rel {
						args = append(args, "--release")
					}
					runs = append(runs, run{"cmd/build", kind, bin, args})
				}
			}
		}
	}
	for _, args := range [][]string{{"candice"}, {"candice", "run"}, {"candice", "init", "dir"}, {"candice", "tree", "file"}} {
		runs = append(runs, run{"cmd/build", "cxx", "", args})
	}
	for _, args := range [][]string{{"candice", "file"}, {"candice"}} {
		runs = append(runs, run{"cmd/compiler", "", "", args})
	}
	for _, rn := range runs {
		sp := w.ssaPkg(rn.tool)
		if sp == nil || sp.Func("main") == nil {
			r.Ob(false, "anchors", "main of "+rn.tool, 0, "not found")
			continue
		}
		in := NewInterp(w)
		p := &pipe{w: w, in: in, a: a, pa: pa, sa: sa, args: rn.args, kind: rn.kind, bin: rn.bin}
		in.hooks = []Hook{p.hook, modelHook}
		in.mergeFacts = false
		st := newState(w.globalHeap)
		if osp := w.prog.ImportedPackage("os"); osp != nil {
			if g, ok := osp.Members["Args"].(*ssa.Global); ok {
				var l []*Val
				for _, s := range rn.args {
					l = append(l, vStr(s))
				}
				st.heap[in.globalObj(g)] = in.list(st, "os.Args", types.Typ[types.String], l...)
			}
		}
		outs := in.Call(sp.Func("main"), nil, nil, st, "main", 0)
		name := rn.tool + " " + strings.Join(rn.args[1:], " ")
		if rn.tool == "cmd/build" && len(rn.args) > 2 {
			name += fmt.Sprintf(" (kind %q, binary %q)", rn.kind, rn.bin)
		}
		dbg("RUN %s: %d paths", name, len(outs))
		for _, o := range outs {
			p.judgePath(r, what, rn.tool, name, o)
		}
		r.Analysed(in)
	}
}

func (p *pipe) judgePath(r *Report, what, tool, name string, o Outcome) {
	in, st := p.in, o.St
	evs := st.events()
	var fails []*Event
	status, statusKnown := int64(0), true
	var exitArg *Val
	failAt := -1
	route := name
	for i, e := range evs {
		if strings.HasPrefix(e.Op, "fail:") {
			fails = append(fails, e)
			route += ", " + strings.TrimPrefix(e.Op, "fail:") + " fails"
			if failAt < 0 {
				failAt = i
			}
		}
		if e.Op == "exit" && o.Kind == OExit {
			if len(e.Args) == 1 {
				exitArg = st.norm(e.Args[0])
			}
		}
		dbg("   %s %v -> %v", e.Op, valKeys(e.Args), e.Res)
	}
	dbg("  = %d %s", o.Kind, o.Msg)
	pos := token.NoPos
	if len(fails) > 0 {
		pos = fails[0].Pos
	}
	if o.Kind == OExit {
		if o.Pos.IsValid() && pos == token.NoPos {
			pos = o.Pos
		}
		switch {
		case exitArg == nil:
			status = 1 // log.Fatal
		case exitArg.K == KConst:
			status, _ = constant.Int64Val(exitArg.C)
		default:
			lo, hi, hasLo, hasHi := st.bounds(exitArg.Key())
			switch {
			case hasLo && lo > 0 || hasHi && hi < 0:
				status = 1
			default:
				statusKnown = false
			}
		}
	}
	anyFail := func(ops ...string) bool {
		for _, f := range fails {
			for _, op := range ops {
				if f.Op == "fail:"+op {
					return true
				}
			}
		}
		return false
	}
	mode := ""
	if tool == "cmd/build" && len(p.args) > 2 {
		mode = p.args[1]
	}
	if tool == "cmd/compiler" && len(p.args) > 1 {
		mode = "build"
	}
	printed := func(key string) bool {
		for _, e := range evs {
			if e.Op == "print" {
				for _, a := range e.Args {
					if mentions(st, a, key, 0) {
						return true
					}
				}
			}
		}
		return false
	}
	switch what {
	case "errors":
		if mode != "run" && mode != "build" {
			return
		}
		bad := anyFail("parse", "analyze")
		warned := false
		for _, e := range evs {
			warned = warned || e.Op == "warnings"
		}
		if o.Kind == OPanic {
			if bad || warned {
				r.Ob(false, "errors stop the build", route, pos, "the tool crashes: %s", o.Msg)
			}
			return
		}
		if warned && tool == "cmd/build" {
			for i := 0; i < 2; i++ {
				r.Ob(printed(fmt.Sprintf("warning%d", i)), "errors and warnings are printed", route+", warning", pos, "warning %d of the analysis is not printed", i+1)
			}
		}
		if !bad {
			return
		}
		for i := failAt + 1; i < len(evs); i++ {
			e := evs[i]
			if e.Op == "compile" || strings.HasSuffix(e.Op, ":exec") || strings.HasSuffix(e.Op, ":create") || strings.HasSuffix(e.Op, ":write") {
				r.Ob(false, "errors stop the build", route, e.Pos, "after errors in the program the tool goes on: %s", e.Op)
				break
			}
		}
		r.Ob(true, "errors stop the build", route, pos, "")
		r.Ob(status != 0 || !statusKnown, "errors stop the build", route+", status", pos, "the exit status is zero")
		of := "parse"
		if anyFail("analyze") {
			of = "analyze"
		}
		for i := 0; i < 2; i++ {
			r.Ob(printed(fmt.Sprintf("%s-error%d", of, i)), "errors and warnings are printed", route, pos, "error %d is not printed", i+1)
		}
	case "status":
		if o.Kind == OPanic {
			r.Ob(false, "exit status", route, o.Pos, "the tool crashes: %s", o.Msg)
			return
		}
		must := len(fails) > 0 || len(p.args) < 3 && tool == "cmd/build" || len(p.args) < 2
		if (mode == "run" || mode == "build") && tool == "cmd/build" && (p.kind == "other" || mode == "run" && p.bin == "obj") {
			must = true
		}
		r.Ob(!statusKnown || must == (status != 0), "exit status", route, pos, "the exit status is %d", status)
		if !statusKnown {
			r.Ob(false, "exit status", route, pos, "the exit status can be zero or not: %s", exitArg.Key())
		}
		if failAt >= 0 {
			var after string
			ap := pos
			for i := failAt + 1; i < len(evs); i++ {
				switch e := evs[i]; {
				case strings.HasSuffix(e.Op, ":close"), e.Op == "remove", e.Op == "print", e.Op == "exit", e.Op == "warnings":
				case mode == "tree" && (strings.HasSuffix(e.Op, ":write") || e.Op == "print"):
				default:
					after, ap = e.Op, e.Pos
				}
			}
			r.Ob(after == "", "failures stop the rest", route, ap, "although it failed, the tool goes on: %s", after)
			if !anyFail("parse", "analyze") && statusKnown {
				ok := false
				for _, f := range fails {
					ok = ok || printed(f.Res.Key())
				}
				if f := fails[len(fails)-1]; f.Op == "fail:exec" && len(f.Args) > 1 {
					// the output of the compiler says what is wrong
					for _, a := range f.Args[2:] {
						if a != nil && a.inner().K == KPtr && printed("contents:"+a.inner().O.ID) {
							ok = true
						}
					}
					for _, e := range evs {
						ok = ok || e.Op == "print" && e.Pos > f.Pos
					}
				}
				for i := failAt; i < len(evs); i++ {
					ok = ok || evs[i].Op == "print" && anyFail("exec")
				}
				r.Ob(ok, "failures are printed", route, pos, "the error is not printed")
			}
			for i := failAt + 1; i < len(evs); i++ {
				if evs[i].Op == "print" && evs[i].Res != nil && strings.HasSuffix(evs[i].Res.S, "Success") {
					r.Ob(false, "exit status", route+", success", evs[i].Pos, "success is announced after a failure")
				}
			}
		}
		// the status of a program that was run is the status of the tool
		if f := lastFail(fails); f != nil && f.Op == "fail:exec" && mode == "run" && len(p.execs(evs)) == 2 {
			isExit := false
			for k, t := range st.dyn {
				if strings.HasPrefix(k, "err:exec") && strings.HasSuffix(t.String(), "exec.ExitError") {
					isExit = true
				}
			}
			lo, _, hasLo, _ := st.bounds("exitcode")
			if isExit && hasLo && lo > 0 {
				r.Ob(exitArg != nil && exitArg.Key() == "exitcode", "exit status", route+", status of the program", pos, "the exit status of the program is not passed on")
			}
		}
	case "build":
		if mode != "run" && mode != "build" || o.Kind == OPanic {
			return
		}
		p.judgeBuild(r, tool, mode, route, evs, st, o)
	}
	_ = in
}

func lastFail(f []*Event) *Event {
	if len(f) == 0 {
		return nil
	}
	return f[len(f)-1]
}

func (p *pipe) execs(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		if strings.HasSuffix(e.Op, ":exec") {
			r = append(r, e)
		}
	}
	return r
}

func valKeys(vs []*Val) []string {
	var r []string
	for _, v := range vs {
		r = append(r, v.Key())
	}
	return r
}

func (p *pipe) judgeBuild(r *Report, tool, mode, route string, evs []*Event, st *State, o Outcome) {
	str := func(v *Val) string {
		v = st.norm(v)
		if v.K == KConst && v.C.Kind() == constant.String {
			return constant.StringVal(v.C)
		}
		return v.Key()
	}
	var parse, analyze, compile *Event
	flagged := false
	var written []string
	for _, e := range evs {
		switch e.Op {
		case "ok:parse":
			parse = e
		case "ok:analyze":
			analyze = e
		case "compile":
			compile = e
		case "flag":
			flagged = true
		case "ok:write", "fail:write":
			written = append(written, fmt.Sprint(valKeys(e.Args)))
		}
	}
	if tool == "cmd/build" {
		// the project is the one of the directory that was given
		for _, e := range evs {
			if e.Op == "ok:open" || e.Op == "ok:read" {
				k := fmt.Sprint(valKeys(e.Args))
				r.Ob(strings.Contains(k, "candice.json") && strings.Contains(k, strconv.Quote(p.args[2])), "what is compiled", route+", project", e.Pos, "the project that is read is not the one of the directory: %s", k)
				break
			}
		}
	}
	// the text that is compiled is the one of the entry point
	if parse != nil {
		want := "config:entrypoint"
		if tool == "cmd/compiler" {
			want = fmt.Sprintf("%q", p.args[1])
		}
		src := parse.Args[0]
		r.Ob(src != nil && strings.Contains(src.Key(), "bytes(") && strings.Contains(src.Key(), want), "what is compiled", route+", text", parse.Pos, "the text that is parsed is not the one of the entry point")
	}
	if compile != nil {
		if analyze == nil || parse == nil {
			r.Ob(false, "what is compiled", route+", order", compile.Pos, "code is generated for a program that was not parsed and analysed without errors")
		} else {
			r.Ob(compile.Args[0].inner().Key() == analyze.Args[0].inner().Key(), "what is compiled", route+", program", compile.Pos, "the program that is compiled is not the one that was analysed")
		}
	}
	xs := p.execs(evs)
	if len(xs) == 0 {
		// everything worked, so something must have been made
		if o.Kind == ORet && !strings.Contains(route, " fails") {
			r.Ob(false, "command of the compiler", route, o.Pos, "nothing is made out of the generated code")
		}
		return
	}
	x := xs[0]
	var args []string
	for _, a := range x.Args[1].A {
		args = append(args, str(a))
	}
	if tool == "cmd/build" {
		r.Ob(args[0] == "config:cxx", "command of the compiler", route+", compiler", x.Pos, "the compiler that is run is %s", args[0])
	}
	find := func(s string, from int) int {
		for i := from; i < len(args); i++ {
			if args[i] == s {
				return i
			}
		}
		return -1
	}
	if tool == "cmd/build" {
		want := []string{"config:flag0", "config:flag1"}
		if flagged {
			want = append(want, "flag-of-program")
		}
		i := 1
		okAll := true
		for _, f := range want {
			j := find(f, i)
			if j < 0 {
				okAll = false
				break
			}
			i = j + 1
		}
		r.Ob(okAll, "command of the compiler", route+", flags", x.Pos, "the flags of the project and of the program are not all passed on in order: %v", args)
		for _, f := range want {
			n := 0
			for _, g := range args {
				if g == f {
					n++
				}
			}
			r.Ob(n <= 1, "command of the compiler", route+", flags", x.Pos, "a flag is passed on %d times: %v", n, args)
		}
		rel := false
		for _, s := range p.args {
			rel = rel || s == "--release"
		}
		r.Ob((find("-O3", 1) >= 0) == rel, "command of the compiler", route+", release", x.Pos, "the code is optimised only for releases: %v", args)
		r.Ob((find("-c", 1) >= 0) == (p.bin == "obj"), "command of the compiler", route+", object", x.Pos, "the program is linked unless an object is asked for: %v", args)
	}
	out := "config:output"
	if tool == "cmd/compiler" {
		out = "flag:\"name\""
	}
	i := find("-o", 1)
	okOut := i > 0 && i+1 < len(args) && strings.Contains(args[i+1], out)
	if p.bin == "obj" && okOut {
		okOut = args[i+1] != out && strings.Contains(args[i+1], ".o")
	} else if okOut {
		okOut = args[i+1] == out
	}
	r.Ob(okOut, "command of the compiler", route+", output", x.Pos, "the output is not what the project says: %v", args)
	// what is compiled is the file the code was written to
	var src []string
	for _, g := range args[1:] {
		for _, wr := range written {
			// the raw text of a constant is quoted in keys
			if strings.Contains(wr, "created("+g+")") || strings.Contains(wr, "created("+fmt.Sprintf("%q", g)+")") {
				src = append(src, g)
			}
		}
	}
	sort.Strings(src)
	r.Ob(len(uniq(src)) == 1, "command of the compiler", route+", code", x.Pos, "the compiler is not given the file with the generated code: %v", args)
	if mode == "run" && len(xs) > 1 {
		y := xs[1]
		prog := y.Args[1].A[0]
		want := strCat(vStr("./"), vSym("config:output", types.Typ[types.String]), types.Typ[types.String]).Key()
		r.Ob(st.norm(prog).Key() == want && len(y.Args[1].A) == 1, "the program that is run", route, y.Pos, "the program that is run is %s", prog.Key())
		for i, f := range []string{"Stdin", "Stdout", "Stderr"} {
			v := y.Args[2+i]
			r.Ob(v != nil && strings.Contains(v.Key(), "os."+f), "the program that is run", route+", "+f, y.Pos, "the program is not connected to %s of the tool", f)
		}
		if x.Op != "ok:exec" {
			r.Ob(false, "the program that is run", route, y.Pos, "a program is run although it was not built")
		}
	}
	if mode == "run" && tool == "cmd/build" && o.Kind == ORet {
		r.Ob(len(xs) == 2, "the program that is run", route+", run", o.Pos, "the program is run %d times", len(xs)-1)
	}
	if mode == "build" {
		r.Ob(len(xs) == 1, "the program that is run", route+", not run", x.Pos, "building runs %d commands", len(xs))
	}
}
