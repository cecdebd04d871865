package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gabivlj/candice"

type World struct {
	dir         string
	pkgs        []*packages.Package
	byPath      map[string]*packages.Package
	prog        *ssa.Program
	fset        *token.FileSet
	globalHeap  map[*Obj]*Val
	globalObjs  map[*ssa.Global]*Obj
	implCache   map[string][]types.Type
	allFuncs    []*ssa.Function
	globalAttrs map[string]*Val
}

func Load(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{dir: dir, pkgs: pkgs, byPath: map[string]*packages.Package{}, globalHeap: map[*Obj]*Val{}, globalObjs: map[*ssa.Global]*Obj{}, implCache: map[string][]types.Type{}}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.byPath[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	w.prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog.Build()
	w.fset = w.prog.Fset
	for fn := range ssautil.AllFunctions(w.prog) {
		p := fnPkg(fn)
		if p != nil && strings.HasPrefix(p.Path(), modPath) {
			w.allFuncs = append(w.allFuncs, fn)
		}
	}
	sort.Slice(w.allFuncs, func(i, j int) bool {
		if w.allFuncs[i].String() != w.allFuncs[j].String() {
			return w.allFuncs[i].String() < w.allFuncs[j].String()
		}
		return w.allFuncs[i].Pos() < w.allFuncs[j].Pos()
	})
	w.initGlobals()
	return w, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (w *World) inlineable(p string) bool {
	if strings.HasPrefix(p, modPath) {
		return !strings.HasSuffix(p, "/pkg/logger") && !strings.HasSuffix(p, "/pkg/random") && !strings.HasSuffix(p, "/pkg/format")
	}
	return p == "github.com/llir/llvm/ir/types"
}

func (w *World) ssaPkg(suffix string) *ssa.Package {
	p := w.byPath[modPath+"/"+suffix]
	if p == nil {
		p = w.byPath[suffix]
	}
	if p == nil {
		return nil
	}
	return w.prog.Package(p.Types)
}

func (w *World) typ(pkg, name string) types.Type {
	p := w.byPath[modPath+"/"+pkg]
	if p == nil {
		p = w.byPath[pkg]
	}
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (w *World) ptrTyp(pkg, name string) types.Type {
	t := w.typ(pkg, name)
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

func (w *World) constInt(pkg, name string) (int64, bool) {
	p := w.byPath[modPath+"/"+pkg]
	if p == nil {
		p = w.byPath[pkg]
	}
	if p == nil {
		return 0, false
	}
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return (&Val{K: KConst, C: c.Val()}).intConst()
}

func (w *World) fn(pkg, name string) *ssa.Function {
	sp := w.ssaPkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// methods declared on the (pointer to the) named type, in name order
func (w *World) methods(t types.Type) []*ssa.Function {
	var r []*ssa.Function
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f := w.prog.MethodValue(ms.At(i)); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if isIface(t) {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) possibleDyn(iface, t types.Type) bool { return true }

// allImplement: every implementation of iface found in the repository also implements want.
func (w *World) allImplement(iface, want types.Type) bool {
	if iface == nil {
		return false
	}
	impl := w.implementers(iface)
	if len(impl) == 0 {
		return false
	}
	wi := want.Underlying().(*types.Interface)
	for _, t := range impl {
		if !types.Implements(t, wi) {
			return false
		}
	}
	return true
}

func (w *World) implementers(iface types.Type) []types.Type {
	k := iface.String()
	if r, ok := w.implCache[k]; ok {
		return r
	}
	var r []types.Type
	it, ok := iface.Underlying().(*types.Interface)
	if ok && it.NumMethods() > 0 {
		for _, p := range w.pkgs {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				continue
			}
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() || isIface(tn.Type()) {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if types.Implements(tn.Type(), it) {
					r = append(r, tn.Type())
				} else if types.Implements(types.NewPointer(tn.Type()), it) {
					r = append(r, types.NewPointer(tn.Type()))
				}
			}
		}
	}
	w.implCache[k] = r
	return r
}

// initGlobals analyses the package initialisers abstractly, so tables and shared type objects are known.
func (w *World) initGlobals() {
	in := NewInterp(w)
	in.hooks = []Hook{modelHook}
	st := newState(map[*Obj]*Val{})
	in.base = st.base
	done := map[*ssa.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	seen := map[*types.Package]bool{}
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := w.prog.Package(p); sp != nil && (strings.HasPrefix(p.Path(), modPath) || p.Path() == "github.com/llir/llvm/ir/types") {
			order = append(order, sp)
		}
	}
	for _, p := range w.pkgs {
		visit(p.Types)
	}
	_ = done
	for _, sp := range order {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := in.globalObj(g)
				st.heap[o] = zeroVal(o.T)
			}
		}
	}
	for _, sp := range order {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		in.hooks = []Hook{func(c *CallCtx) ([]Outcome, bool) {
			if c.fn != nil && c.fn.Name() == "init" && c.fn.Pkg != sp && c.fn.Synthetic != "" {
				return single(c.st, nil), true
			}
			return nil, false
		}, modelHook}
		outs := in.Call(init, nil, nil, st, "init:"+sp.Pkg.Path(), 0)
		if len(outs) > 0 {
			st = outs[0].St
		}
	}
	for o, v := range st.heap {
		o.Root = true
		if !strings.HasPrefix(o.ID, "@") {
			o.ID = "@g:" + o.ID
		}
		w.globalHeap[o] = v
	}
	// values keyed by object id were cached before the renaming
	for _, v := range w.globalHeap {
		clearKeys(v, map[*Val]bool{})
	}
	for k, v := range st.attrs {
		_ = k
		_ = v
	}
	w.globalAttrs = map[string]*Val{}
	for k, v := range st.attrs {
		if strings.HasPrefix(k, "ty:") {
			w.globalAttrs["ty:@g:"+k[3:]] = v
			clearKeys(v, map[*Val]bool{})
		}
		w.globalAttrs[k] = v
	}
}

func clearKeys(v *Val, seen map[*Val]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	v.key = ""
	for _, a := range v.A {
		clearKeys(a, seen)
	}
	for _, a := range v.M {
		clearKeys(a, seen)
	}
	for _, a := range v.MK {
		clearKeys(a, seen)
	}
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.fset.Position(p)
	r, err := filepath.Rel(w.dir, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

func (w *World) fnPos(fn *ssa.Function) string { return fn.String() + " (" + w.pos(fn.Pos()) + ")" }
