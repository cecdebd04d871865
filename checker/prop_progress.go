package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Progress of a reader: a package of functions that read items (tokens, characters) one after another from a source. While nothing
// is read, the item at hand stays the same, so the analysis follows the functions with a fixed item and drops the branches that
// this item doesn't take. A way around a loop, or from a function back to itself, that reads nothing would be taken forever; so
// would one that only reads the end of the source, which stays at hand however often it is read.

type progress struct {
	w     *World
	r     *Report
	fns   map[*ssa.Function]bool
	prim  func(fn *ssa.Function) bool                                // reads an item
	known func(v ssa.Value) string                                   // which item at hand the value is: "current", "next" or none
	atEnd func(v ssa.Value) *Val                                     // what the rest of the reader is certain to be at the end
	look  func(m ssa.Value, key *Val) (v *Val, ok, complete bool)    // an entry of a map that never changes
	call  func(fn *ssa.Function, args []*Val, k *Val, eof bool) *Val // result of a call that reads nothing, if it is certain
	kinds []*Val
	end   *Val
	back  map[string]bool // (function, item): can return without reading
	cache map[string]*Val
	insts map[string]*inst
	order []*inst
	bind  map[*ssa.Parameter]*Val // of the function that is followed
	from  map[*ssa.Phi]ssa.Value  // what the variables of a loop were given at the end of its last time around
}

// nonEmpty tells whether something has certainly been appended to a slice.
func (p *progress) nonEmpty(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if e, ok := p.from[x]; ok {
			return p.nonEmpty(e, d+1)
		}
		for _, e := range x.Edges {
			if !p.nonEmpty(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" {
			return false
		}
		if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				if at, ok := elemOf(al.Type()).Underlying().(*types.Array); ok && at.Len() > 0 {
					return true
				}
			}
		}
		return p.nonEmpty(x.Call.Args[0], d+1)
	}
	return false
}

// positive tells whether a number is certainly at least one.
func (p *progress) positive(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && p.nonEmpty(c.Call.Args[0], 0)
}

func pkey(it *inst, k *Val) string { return it.key + "/" + k.Key() }

// inst is a function, with the functions it is given as parameters.
type inst struct {
	fn   *ssa.Function
	bind map[*ssa.Parameter]*Val
	key  string
}

func isFunc(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func (p *progress) instance(f *ssa.Function, bind map[*ssa.Parameter]*Val) *inst {
	key := f.String()
	for _, q := range f.Params {
		if b, ok := bind[q]; ok {
			key += "(" + q.Name() + "=" + b.Fn.String() + ")"
		}
	}
	if it, ok := p.insts[key]; ok {
		return it
	}
	it := &inst{f, bind, key}
	p.insts[key] = it
	if !p.fns[f] {
		return it
	}
	p.order = append(p.order, it)
	return it
}

// instOf is the called function with the functions that this call gives to it.
func (p *progress) instOf(c *ssa.Call, g *ssa.Function, n pnode, inWalk map[*ssa.BasicBlock]bool, k *Val, eof bool) *inst {
	bind := map[*ssa.Parameter]*Val{}
	if c.Call.StaticCallee() == g {
		for i, q := range g.Params {
			if i < len(c.Call.Args) && isFunc(q.Type()) {
				if v := p.value(c.Call.Args[i], n, inWalk, k, eof, 0); v != nil && v.K == KFunc {
					bind[q] = v
				}
			}
		}
	}
	return p.instance(g, bind)
}

// instances are those of all functions; a function that is given others is followed for those it is really given.
func (p *progress) start() {
	p.insts = map[string]*inst{}
	p.order = nil
	for _, f := range p.sorted() {
		given := false
		for _, q := range f.Params {
			given = given || isFunc(q.Type())
		}
		if !given {
			p.instance(f, nil)
		}
	}
}

type pnode struct {
	b     *ssa.BasicBlock
	pred  int
	again bool // the loop has been entered again before
}

// walkFrom follows fn from a block, with the item k at hand. visit is told about the calls; it returns false where the walk ends.
func (p *progress) walkFrom(it *inst, start *ssa.BasicBlock, k *Val, eof bool, call func(c ssa.CallInstruction, callee *inst) bool, atRet func(), atBack func(n pnode)) {
	p.bind = it.bind
	seen := map[pnode]bool{}
	inWalk := map[*ssa.BasicBlock]bool{}
	var todo []pnode
	push := func(n pnode) {
		if !seen[n] {
			seen[n] = true
			todo = append(todo, n)
		}
	}
	push(pnode{start, -1, false})
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		inWalk[n.b] = true
		stop := false
		for _, i := range n.b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			callees := p.callees(c, n, inWalk, k, eof)
			if len(callees) == 0 {
				continue
			}
			goesOn := false
			for _, g := range callees {
				if call(c, p.instOf(c, g, n, inWalk, k, eof)) {
					goesOn = true
				}
			}
			if !goesOn {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		switch t := n.b.Instrs[len(n.b.Instrs)-1].(type) {
		case *ssa.Return:
			if atRet != nil {
				atRet()
			}
			continue
		case *ssa.If:
			take := []bool{true, true}
			if v := p.value(t.Cond, n, inWalk, k, eof, 0); v != nil {
				if b, ok := v.boolConst(); ok {
					take = []bool{b, !b}
				}
			}
			for i, s := range n.b.Succs {
				if take[i] {
					p.edge(n, s, start, push, atBack)
				}
			}
			continue
		}
		for _, s := range n.b.Succs {
			p.edge(n, s, start, push, atBack)
		}
	}
}

func (p *progress) edge(n pnode, s *ssa.BasicBlock, start *ssa.BasicBlock, push func(pnode), atBack func(n pnode)) {
	pi := -1
	for i, q := range s.Preds {
		if q == n.b {
			pi = i
		}
	}
	again := n.again
	if s == start && atBack != nil {
		// what the loop tests may be what its last time around computed, so it has to get through that test once more
		if again {
			atBack(n)
		}
		again = true
	}
	push(pnode{s, pi, again})
}

// callees are the functions of the package a call may run.
func (p *progress) callees(c *ssa.Call, n pnode, inWalk map[*ssa.BasicBlock]bool, k *Val, eof bool) []*ssa.Function {
	if f := c.Call.StaticCallee(); f != nil {
		if p.prim(f) || p.fns[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.Call.IsInvoke() {
		return nil
	}
	if v := p.value(c.Call.Value, n, inWalk, k, eof, 0); v != nil && v.K == KFunc {
		if f := p.unbind(v.Fn); p.fns[f] {
			return []*ssa.Function{f}
		}
		return nil
	} else if v != nil && v.K == KNil {
		return nil
	}
	// any function of that type whose address is taken
	var l []*ssa.Function
	for f := range p.fns {
		if p.unbind(f) == f && f.Signature.Recv() != nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), c.Call.Value.Type().Underlying()) && p.taken(f) {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func (p *progress) taken(f *ssa.Function) bool {
	for g := range p.fns {
		if g.Synthetic != "" && p.unbind(g) == f {
			return true
		}
	}
	return false
}

func (p *progress) unbind(f *ssa.Function) *ssa.Function {
	if f == nil || !strings.HasSuffix(f.Name(), "$bound") {
		return f
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					return g
				}
			}
		}
	}
	return f
}

// value is what a value certainly is while k is at hand, or nil.
func (p *progress) value(v ssa.Value, n pnode, inWalk map[*ssa.BasicBlock]bool, k *Val, eof bool, d int) *Val {
	if d > 12 {
		return nil
	}
	sub := func(x ssa.Value) *Val { return p.value(x, n, inWalk, k, eof, d+1) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		return vConst(x.Value, x.Type())
	case *ssa.Function:
		return &Val{K: KFunc, Fn: x, T: x.Type()}
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok {
			return &Val{K: KFunc, Fn: f, T: x.Type()}
		}
		return nil
	case *ssa.Parameter:
		if b, ok := p.bind[x]; ok {
			return b
		}
		return nil
	case *ssa.ChangeType:
		return sub(x.X)
	case *ssa.Convert:
		if a := sub(x.X); a != nil && a.K == KConst {
			if types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
				return a
			}
			if c := convert(a, x.X.Type(), x.Type()); c.K == KConst {
				return c
			}
		}
		return nil
	case *ssa.Phi:
		if x.Block() == n.b && n.pred >= 0 {
			return sub(x.Edges[n.pred])
		}
		return nil
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !inWalk[in.Block()] {
		return nil
	}
	switch p.known(v) {
	case "current":
		return k
	case "next":
		if eof {
			return k
		}
		return nil
	}
	if eof && p.atEnd != nil {
		if e := p.atEnd(v); e != nil {
			return e
		}
	}
	switch x := v.(type) {
	case *ssa.Slice:
		// the arguments of a variadic function
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		at, ok := elemOf(al.Type()).Underlying().(*types.Array)
		if !ok || at.Len() > 16 || al.Referrers() == nil {
			return nil
		}
		l := &Val{K: KTuple, A: make([]*Val, at.Len()), T: x.Type()}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok || ia.Referrers() == nil {
				return nil
			}
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					if n := c.Int64(); n >= 0 && n < at.Len() {
						l.A[n] = sub(st.Val)
					}
				}
			}
		}
		for _, e := range l.A {
			if e == nil {
				return nil
			}
		}
		return l
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if a := sub(x.X); a != nil {
				if b, ok := a.boolConst(); ok {
					return vBool(!b)
				}
			}
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && p.positive(x.X) && c.Value != nil && c.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(c.Value); ok {
				switch {
				case x.Op == token.GTR && n <= 0, x.Op == token.GEQ && n <= 1, x.Op == token.NEQ && n <= 0:
					return vBool(true)
				case x.Op == token.EQL && n <= 0, x.Op == token.LEQ && n <= 0, x.Op == token.LSS && n <= 1:
					return vBool(false)
				}
			}
		}
		a, b := sub(x.X), sub(x.Y)
		if a == nil || b == nil {
			return nil
		}
		if a.K == KConst && b.K == KConst {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if a.C.Kind() == b.C.Kind() {
					return vBool(constant.Compare(a.C, x.Op, b.C))
				}
			case token.AND, token.OR:
			}
		}
		if (a.K == KNil || a.K == KFunc) && (b.K == KNil || b.K == KFunc) && (a.K == KNil || b.K == KNil) {
			eq := a.K == b.K
			return vBool(eq == (x.Op == token.EQL))
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			if key := sub(l.Index); key != nil {
				e, has, complete := p.look(l.X, key)
				if !complete {
					return nil
				}
				if x.Index == 1 {
					return vBool(has)
				}
				if !has {
					return zeroVal(x.Type())
				}
				return e
			}
		}
	case *ssa.Lookup:
		if !x.CommaOk {
			if key := sub(x.Index); key != nil {
				e, has, complete := p.look(x.X, key)
				if !complete {
					return nil
				}
				if !has {
					return zeroVal(x.Type())
				}
				return e
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := sub(x.Call.Args[0]); a != nil {
				if t, ok := a.strConst(); ok {
					return vInt(int64(len(t)))
				}
			}
			return nil
		}
		f := x.Call.StaticCallee()
		if f == nil && !x.Call.IsInvoke() {
			if v := sub(x.Call.Value); v != nil && v.K == KFunc && p.unbind(v.Fn) == v.Fn {
				f = v.Fn
			}
		}
		if f == nil || p.prim(f) || x.Type() == nil {
			return nil
		}
		if _, basic := x.Type().Underlying().(*types.Basic); !basic {
			return nil
		}
		var args []*Val
		for _, a := range x.Call.Args {
			args = append(args, sub(a))
		}
		if stdNames[f.String()] {
			var cs []constant.Value
			for _, a := range args {
				if a == nil || a.K != KConst {
					return nil
				}
				cs = append(cs, a.C)
			}
			if r, ok := stdEval(f.String(), cs); ok {
				return vConst(r, x.Type())
			}
			return nil
		}
		key := f.String() + "/" + k.Key() + fmt.Sprint(eof)
		for _, a := range args {
			if a == nil {
				key += ",?"
			} else {
				key += "," + a.Key()
			}
		}
		if r, ok := p.cache[key]; ok {
			return r
		}
		p.cache[key] = nil
		r := p.call(f, args, k, eof)
		p.cache[key] = r
		return r
	}
	return nil
}

// loops are the blocks that are reached again from within what they dominate.
func loopHeads(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	r := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				r[s] = append(r[s], b)
			}
		}
	}
	return r
}

// counted tells whether a loop ends by counting: each time around, its head compares something that grows by a constant to something
// that is fixed, or takes the next entry of what is ranged over.
func counted(h *ssa.BasicBlock, tails []*ssa.BasicBlock) bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	todo := append([]*ssa.BasicBlock(nil), tails...)
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if in[b] {
			continue
		}
		in[b] = true
		todo = append(todo, b.Preds...)
	}
	for _, i := range h.Instrs {
		if _, ok := i.(*ssa.Next); ok {
			return true
		}
	}
	t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || in[h.Succs[0]] && in[h.Succs[1]] {
		return false
	}
	c, ok := t.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	steps := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, ok := b.Y.(*ssa.Const); ok {
				v = b.X
			}
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != h {
			return false
		}
		for i, e := range ph.Edges {
			if !in[h.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB {
				return false
			}
			if _, ok := b.Y.(*ssa.Const); !ok || b.X != ssa.Value(ph) {
				return false
			}
		}
		return true
	}
	var fixed func(v ssa.Value, d int) bool
	fixed = func(v ssa.Value, d int) bool {
		i, ok := v.(ssa.Instruction)
		if !ok || !in[i.Block()] {
			return true
		}
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return fixed(x.Call.Args[0], d+1)
			}
			return false
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.BinOp, *ssa.Convert:
			var ops []*ssa.Value
			for _, o := range i.Operands(ops) {
				if *o != nil && !fixed(*o, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	switch c.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		return steps(c.X) && fixed(c.Y, 0) || steps(c.Y) && fixed(c.X, 0)
	}
	return false
}

func (p *progress) sorted() []*ssa.Function {
	var l []*ssa.Function
	for f := range p.fns {
		if len(f.Blocks) > 0 && !strings.HasSuffix(f.Name(), "$bound") {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func (p *progress) check(what string) {
	p.start()
	// what can return without reading
	p.back = map[string]bool{}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(p.order); i++ {
			it := p.order[i]
			for _, k := range p.kinds {
				key := pkey(it, k)
				if p.back[key] {
					continue
				}
				n := len(p.order)
				p.walkFrom(it, it.fn.Blocks[0], k, false, p.through(k), func() {
					if !p.back[key] {
						p.back[key] = true
						changed = true
					}
				}, nil)
				changed = changed || len(p.order) > n
			}
		}
		if !changed {
			// functions that no call gives anything known
			have := map[*ssa.Function]bool{}
			for _, it := range p.order {
				have[it.fn] = true
			}
			for _, f := range p.sorted() {
				if !have[f] {
					p.instance(f, nil)
					changed = true
				}
			}
		}
	}
	insts := append([]*inst(nil), p.order...)
	sort.Slice(insts, func(i, j int) bool { return insts[i].key < insts[j].key })
	// loops
	for _, it := range insts {
		f := it.fn
		for h, tails := range loopHeads(f) {
			name := fmt.Sprintf("%s, the loop in %s", what, shortFn(f))
			if counted(h, tails) {
				p.r.Ob(true, "loops read or count", name, blockPos(h), "")
				continue
			}
			bad := ""
			for _, t := range tails {
				p.from = map[*ssa.Phi]ssa.Value{}
				for _, i := range h.Instrs {
					if ph, ok := i.(*ssa.Phi); ok {
						for e, q := range h.Preds {
							if q == t {
								p.from[ph] = ph.Edges[e]
							}
						}
					}
				}
				for _, k := range p.kinds {
					p.walkFrom(it, h, k, false, p.through(k), nil, func(n pnode) {
						if bad == "" {
							bad = k.Key()
						}
					})
				}
			}
			p.from = nil
			p.r.Ob(bad == "", "loops read or count", name, blockPos(h), "the loop in %s goes around without reading anything while %s is at hand", f.String(), bad)
			ends := true
			p.walkFrom(it, h, p.end, true, func(c ssa.CallInstruction, g *inst) bool { return true }, nil, func(n pnode) { ends = false })
			p.r.Ob(ends, "loops end at the end", name, blockPos(h), "the loop in %s goes on at the end of the text", f.String())
		}
	}
	// recursion
	for _, eof := range []bool{false, true} {
		rule := "recursion reads"
		ks := p.kinds
		if eof {
			rule, ks = "recursion ends at the end", []*Val{p.end}
		}
		next := map[string]map[string]bool{}
		fnOf := map[string]*ssa.Function{}
		for _, it := range insts {
			f := it.fn
			for _, k := range ks {
				key := pkey(it, k)
				fnOf[key] = f
				next[key] = map[string]bool{}
				through := p.through(k)
				p.walkFrom(it, f.Blocks[0], k, eof, func(c ssa.CallInstruction, g *inst) bool {
					if p.fns[g.fn] {
						next[key][pkey(g, k)] = true
					}
					return eof || through(c, g)
				}, nil, nil)
			}
		}
		state := map[string]int{}
		var stack []string
		var dfs func(k string) string
		dfs = func(k string) string {
			state[k] = 1
			stack = append(stack, k)
			var l []string
			for m := range next[k] {
				l = append(l, m)
			}
			sort.Strings(l)
			for _, m := range l {
				if state[m] == 1 {
					i := 0
					for stack[i] != m {
						i++
					}
					var names []string
					for _, s := range append(stack[i:], m) {
						names = append(names, shortFn(fnOf[s]))
					}
					return strings.Join(names, " -> ") + " with " + m[strings.LastIndex(m, "/")+1:] + " at hand"
				}
				if state[m] == 0 {
					if c := dfs(m); c != "" {
						return c
					}
				}
			}
			stack = stack[:len(stack)-1]
			state[k] = 2
			return ""
		}
		for _, it := range insts {
			f := it.fn
			for _, k := range ks {
				key := pkey(it, k)
				cyc := ""
				if state[key] == 0 {
					stack = nil
					cyc = dfs(key)
				}
				p.r.Ob(cyc == "", rule, what+", "+shortFn(f), f.Pos(), "calls itself without reading anything: %s", cyc)
				if cyc != "" {
					return
				}
			}
		}
	}
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.Name()
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

// through follows a call if it can return without reading.
func (p *progress) through(k *Val) func(c ssa.CallInstruction, g *inst) bool {
	return func(c ssa.CallInstruction, g *inst) bool {
		if p.prim(g.fn) {
			return false
		}
		return p.back[pkey(g, k)]
	}
}
