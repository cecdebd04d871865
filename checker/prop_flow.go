package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ---- a small language of control flow: each tree is both built as an AST for the generator and given its meaning ------------

type Sp struct {
	k        string // leaf ret break continue if for switch block macro bexpr
	n        string
	conds    []string // if: one per part
	slots    [][]*Sp  // if: parts then else; for: body; switch: cases then default
	els      bool     // if/switch: the last slot is the else / default part
	init, op bool
	md       int // condition form
}

var condForms = []struct {
	m Mode
	b bool
	n string
}{{LV, true, "boolean variable"}, {RV, true, "boolean value"}, {RVF, true, "boolean call"}, {LV, false, "integer variable"}, {RV, false, "integer value"}, {RVF, false, "integer call"}}

type spBuilder struct {
	s     *Scen
	n     map[string]int
	valT  *CT  // type of returned values, nil for none
	valM  Mode // how returned values come
	early bool
}

func (b *spBuilder) id(p string) string { b.n[p]++; return fmt.Sprintf("%s%d", p, b.n[p]) }

// name gives the parts of a tree their names, in source order.
func nameSp(l []*Sp, n map[string]int) []*Sp {
	id := func(p string) string { n[p]++; return fmt.Sprintf("%s%d", p, n[p]) }
	var r []*Sp
	for _, x := range l {
		y := *x
		switch x.k {
		case "leaf":
			y.n = id("S")
		case "ret":
			y.n = id("R")
		default:
			y.n = id(strings.ToUpper(x.k[:1]) + x.k[1:])
		}
		switch x.k {
		case "if":
			y.conds = nil
			k := len(x.slots)
			if x.els {
				k--
			}
			for i := 0; i < k; i++ {
				y.conds = append(y.conds, id("C"))
			}
		case "for", "switch", "bexpr":
			y.conds = []string{id("C")}
		}
		y.slots = nil
		for _, s := range x.slots {
			y.slots = append(y.slots, nameSp(s, n))
		}
		r = append(r, &y)
	}
	return r
}

func (b *spBuilder) cond(n string, md int) *Val {
	f := condForms[md%len(condForms)]
	if f.b {
		return b.s.addChild(n, b.s.shared("I1"), f.m)
	}
	return b.s.addChild(n, b.s.shared("I32"), f.m)
}

func (b *spBuilder) list(l []*Sp) []*Val {
	var r []*Val
	for _, x := range l {
		r = append(r, b.stmt(x))
	}
	return r
}

func (b *spBuilder) stmt(x *Sp) *Val {
	s := b.s
	switch x.k {
	case "leaf":
		return s.leaf(x.n, "")
	case "ret":
		if b.valT == nil {
			return s.retStmt(x.n, nil, s.voidCT())
		}
		return s.retStmt(x.n+".stmt", s.addChild(x.n, b.valT, b.valM), b.valT)
	case "break":
		return s.simple(x.n, "BreakStatement")
	case "continue":
		return s.simple(x.n, "ContinueStatement")
	case "block":
		return s.through(s.block(x.n, b.list(x.slots[0])...))
	case "macro":
		m := s.node(x.n, "MacroBlock")
		s.in.setField(s.st, m, "Block", s.block(x.n+".Block", b.list(x.slots[0])...))
		return s.through(m)
	case "bexpr":
		return s.exprStmt(x.n, b.expr(x))
	case "lambda", "rlambda", "fdecl":
		in := &spBuilder{s: s, n: b.n, valM: LV}
		if x.k == "rlambda" {
			in.valT = s.shared("I32")
		}
		if x.k == "fdecl" {
			f, _ := s.fnc(x.n+"-id", nil, nil, nil, in.list(x.slots[0])...)
			return f
		}
		return s.vdecl(x.n+"-id", nil, s.lambda(in.valT, nil, nil, in.list(x.slots[0])...), false)
	case "if":
		n := len(x.conds)
		blk := func(i int) *Val { return s.block(fmt.Sprintf("%s.part%d", x.n, i), b.list(x.slots[i])...) }
		var elifs [][2]*Val
		first, part := b.cond(x.conds[0], x.md), blk(0)
		for i := 1; i < n; i++ {
			elifs = append(elifs, [2]*Val{b.cond(x.conds[i], x.md+i), blk(i)})
		}
		var els *Val
		if x.els {
			els = blk(n)
		}
		return s.ifStmt(x.n, first, part, elifs, els)
	case "for":
		var init, op *Val
		if x.init {
			init = s.leaf(x.n+".init", "")
		}
		if x.op {
			op = s.leaf(x.n+".update", "")
		}
		return s.forStmt(x.n, init, b.cond(x.conds[0], x.md), op, s.block(x.n+".body", b.list(x.slots[0])...))
	case "switch":
		n := len(x.slots)
		var def *Val
		if x.els {
			n--
			def = s.block(x.n+".defbody", b.list(x.slots[n])...)
		}
		var cs [][2]*Val
		for i := 0; i < n; i++ {
			cs = append(cs, [2]*Val{s.addChild(fmt.Sprintf("%s.K%d", x.n, i), s.shared("I32"), RV), s.block(fmt.Sprintf("%s.body%d", x.n, i), b.list(x.slots[i])...)})
		}
		m := condForms[x.md%len(condForms)].m
		return s.switchStmt(x.n, s.addChild(x.conds[0], s.shared("I32"), m), cs, def)
	}
	panic("unknown statement " + x.k)
}

// expr is a block expression used for its effects.
func (b *spBuilder) expr(x *Sp) *Val {
	in := &spBuilder{s: b.s, n: b.n, valT: b.s.shared("I32"), valM: LV}
	return b.s.exprBlock(x.n+".expr", b.s.shared("I32"), in.list(x.slots[0])...)
}

// ---- meaning ----------------------------------------------------------------------------------------------

type spEnv struct {
	brk, cont func(t []string)
	ret       func(t []string, name string)
}

type spMeaning struct {
	max int
	out map[string]bool
}

func (m *spMeaning) end(t []string, e string) {
	m.out[strings.Join(append(append([]string(nil), t...), e), " ")] = true
}

func (m *spMeaning) add(t []string, x string) ([]string, bool) {
	t = append(append([]string(nil), t...), x)
	if len(t) >= m.max {
		m.end(t, "…")
		return t, false
	}
	return t, true
}

func (m *spMeaning) list(l []*Sp, t []string, e spEnv, k func(t []string)) {
	if len(l) == 0 {
		k(t)
		return
	}
	m.stmt(l[0], t, e, func(t []string) { m.list(l[1:], t, e, k) })
}

// tested is how the i-th condition of a statement is tested.
func (x *Sp) tested(i int) string {
	return "[" + operand(x.conds[i], condForms[(x.md+i)%len(condForms)].m) + "]"
}

func (m *spMeaning) stmt(x *Sp, t []string, e spEnv, k func(t []string)) {
	ok := true
	switch x.k {
	case "leaf":
		if t, ok = m.add(t, x.n); ok {
			k(t)
		}
	case "ret":
		e.ret(t, x.n)
	case "break":
		e.brk(t)
	case "continue":
		e.cont(t)
	case "block", "macro":
		m.list(x.slots[0], t, e, k)
	case "bexpr":
		e.ret = func(t []string, n string) {
			if t, ok := m.add(t, n); ok {
				k(t)
			}
		}
		m.list(x.slots[0], t, e, k)
	case "if":
		var part func(i int, t []string)
		part = func(i int, t []string) {
			if i == len(x.conds) {
				if x.els {
					m.list(x.slots[i], t, e, k)
				} else {
					k(t)
				}
				return
			}
			t, ok := m.add(t, x.conds[i])
			if !ok {
				return
			}
			if u, ok := m.add(t, x.tested(i)+"T"); ok {
				m.list(x.slots[i], u, e, k)
			}
			if u, ok := m.add(t, x.tested(i)+"F"); ok {
				part(i+1, u)
			}
		}
		part(0, t)
	case "for":
		if x.init {
			if t, ok = m.add(t, x.n+".init"); !ok {
				return
			}
		}
		var round func(t []string)
		next := func(t []string) {
			ok := true
			if x.op {
				if t, ok = m.add(t, x.n+".update"); !ok {
					return
				}
			}
			round(t)
		}
		round = func(t []string) {
			t, ok := m.add(t, x.conds[0])
			if !ok {
				return
			}
			if u, ok := m.add(t, x.tested(0)+"F"); ok {
				k(u)
			}
			if u, ok := m.add(t, x.tested(0)+"T"); ok {
				e2 := e
				e2.brk, e2.cont = k, next
				m.list(x.slots[0], u, e2, next)
			}
		}
		round(t)
	case "switch":
		if t, ok = m.add(t, x.conds[0]); !ok {
			return
		}
		n := len(x.slots)
		if x.els {
			n--
		}
		for i := 0; i < n; i++ {
			if u, ok := m.add(t, fmt.Sprintf("%scase %s.K%d", x.tested(0), x.n, i)); ok {
				m.list(x.slots[i], u, e, k)
			}
		}
		if u, ok := m.add(t, x.tested(0)+"default"); ok {
			if x.els {
				m.list(x.slots[n], u, e, k)
			} else {
				k(u)
			}
		}
	}
}

// ---- routes of the generated code ------------------------------------------------------------------------------

var reRound = regexp.MustCompile(`#\d+`)

// truthOf normalises a branch condition to the operand whose truth it tests.
func truthOf(c string) (string, bool) {
	pos := true
	for {
		switch {
		case strings.HasPrefix(c, "ICmp.NE(0,") || strings.HasPrefix(c, "ICmp.EQ(0,"):
			if strings.HasPrefix(c, "ICmp.EQ") {
				pos = !pos
			}
			c = c[len("ICmp.NE(0,") : len(c)-1]
		case (strings.HasPrefix(c, "ICmp.NE(") || strings.HasPrefix(c, "ICmp.EQ(")) && strings.HasSuffix(c, ",0)"):
			if strings.HasPrefix(c, "ICmp.EQ") {
				pos = !pos
			}
			c = c[len("ICmp.NE(") : len(c)-len(",0)")]
		case strings.HasPrefix(c, "Xor(1,"):
			pos, c = !pos, c[len("Xor(1,"):len(c)-1]
		default:
			return c, pos
		}
	}
}

type tracer struct {
	f       *Flow
	max     int
	traces  map[string]*Walk
	bad     string
	retV    *Val
	n       int
	defs    map[*Obj]*Event
	entered map[*Obj]bool
	vals    map[string]*Event
}

// traces enumerates the observable behaviour of the code from block b on, up to max observable steps per route.
func (s *Scen) traces(o Outcome, b *Obj, max int) (map[string]*Walk, string) {
	f := s.flow(o)
	t := &tracer{f: f, max: max, traces: map[string]*Walk{}, defs: map[*Obj]*Event{}, entered: map[*Obj]bool{}, vals: map[string]*Event{}}
	for _, e := range o.St.events() {
		if e.Res == nil {
			continue
		}
		r := o.St.norm(e.Res).inner()
		switch {
		case e.Op == "eval" && r.K == KSym:
			t.vals[r.S] = e
		case strings.HasPrefix(e.Op, "ir:") && r.K == KPtr:
			t.defs[r.O] = e
		}
	}
	t.visit(b, nil, nil, map[*Obj]int{})
	return t.traces, t.bad
}

func (t *tracer) fail(f string, a ...any) {
	if t.bad == "" {
		t.bad = fmt.Sprintf(f, a...)
	}
}

func (t *tracer) done(steps []Step, toks []string, end string, b *Obj) {
	k := strings.Join(append(append([]string(nil), toks...), end), " ")
	if _, dup := t.traces[k]; dup {
		return
	}
	w := &Walk{steps: append([]Step(nil), steps...), end: end, endB: b, retV: t.retV}
	for q := range t.entered {
		w.blocks = append(w.blocks, q)
	}
	t.traces[k] = w
}

// at: the step at which an operand was last computed on the walk.
func (t *tracer) at(steps []Step, v *Val) (int, *Event) {
	w := t.f.st.norm(v).inner()
	if w == nil {
		return -1, nil
	}
	var e *Event
	switch {
	case w.K == KPtr && len(w.Path) == 0:
		e = t.defs[w.O]
	case w.K == KSym:
		e = t.vals[w.S]
	}
	if e == nil {
		return -1, nil
	}
	for i := len(steps) - 1; i >= 0; i-- {
		if steps[i].ev == e {
			return i, e
		}
	}
	return -2, e
}

// current: the value is computed from the latest evaluation of its operands.
func (t *tracer) current(steps []Step, v *Val, d int) string {
	i, e := t.at(steps, v)
	if e == nil || d > 12 {
		return ""
	}
	if i == -2 {
		return "is used on a route that does not compute it"
	}
	if e.Op == "eval" {
		for j := len(steps) - 1; j > i; j-- {
			if x := steps[j].ev; x != nil && x.Op == "eval" && x.Args[0].Key() == e.Args[0].Key() {
				return "comes from an earlier evaluation of " + e.Args[0].Key()
			}
		}
		return ""
	}
	for _, a := range e.Args {
		if j, de := t.at(steps, a); de != nil {
			if j > i {
				return "was computed before its operand was evaluated again"
			}
			if m := t.current(steps, a, d+1); m != "" {
				return m
			}
		}
	}
	return ""
}

func (t *tracer) uses(steps []Step, e *Event) bool {
	for _, a := range e.Args {
		if i, d := t.at(steps, a); d != nil && i == -2 && !termOps[strings.TrimPrefix(d.Op, "ir:")] {
			t.fail("%s (generated in %s) uses %s on a route that has not computed it", e.Op, e.Fn, t.f.s.term(t.f.st, a))
			return false
		}
	}
	return true
}

func (t *tracer) visit(b *Obj, steps []Step, toks []string, seen map[*Obj]int) {
	t.n++
	t.entered[b] = true
	if t.bad != "" {
		return
	}
	if t.n > 200000 {
		t.fail("too many routes")
		return
	}
	if n, ok := seen[b]; ok && n == len(toks)+1 {
		t.done(steps, toks, "diverges", b)
		return
	}
	old, had := seen[b]
	seen[b] = len(toks) + 1
	defer func() {
		if had {
			seen[b] = old
		} else {
			delete(seen, b)
		}
	}()
	st := t.f.st
	steps = append([]Step(nil), steps...)
	toks = append([]string(nil), toks...)
	tok := func(x string) bool {
		toks = append(toks, x)
		if len(toks) >= t.max {
			t.done(steps, toks, "…", b)
			return false
		}
		return true
	}
	var term *Event
	for _, e := range t.f.byBlk[b] {
		if strings.HasPrefix(e.Op, "ir:") && termOps[e.Op[3:]] {
			term = e
			continue
		}
		if strings.HasPrefix(e.Op, "ir:") && !t.uses(steps, e) {
			return
		}
		steps = append(steps, Step{ev: e})
		if e.Op == "eval" || e.Op == "stmt" {
			if !tok(e.Args[0].Key()) {
				return
			}
		}
	}
	if n, ok := st.attrs["next:"+b.ID]; ok {
		t.visit(n.O, steps, toks, seen)
		return
	}
	if n, ok := st.attrs["ends:"+b.ID]; ok {
		t.done(steps, toks, "ends "+n.Key(), b)
		return
	}
	if term == nil {
		if _, known := t.f.byBlk[b]; !known && !strings.HasPrefix(b.ID, "blk") && !strings.HasPrefix(b.ID, "after") && b.ID != "B0" {
			t.done(steps, toks, "outside:"+b.ID, b)
			return
		}
		t.done(steps, toks, "open:"+b.ID, b)
		return
	}
	if !t.uses(steps, term) {
		return
	}
	a := term.Args
	to := func(v *Val, x string) {
		n := blkOf(st, v)
		if n == nil {
			t.done(steps, toks, "outside:"+st.norm(v).Key(), b)
			return
		}
		k := toks
		s2 := steps
		if x != "" {
			k = append(append([]string(nil), toks...), x)
			s2 = append(append([]Step(nil), steps...), Step{cond: x})
			if len(k) >= t.max {
				t.done(s2, k, "…", b)
				return
			}
		}
		t.visit(n, s2, k, seen)
	}
	tested := func(v *Val) (string, bool) {
		if m := t.current(steps, v, 0); m != "" {
			t.fail("the branch condition %s %s (generated in %s)", t.f.s.term(st, v), m, term.Fn)
			return "", false
		}
		return reRound.ReplaceAllString(t.f.s.term(st, v), ""), true
	}
	switch term.Op {
	case "ir:Br":
		to(a[0], "")
	case "ir:CondBr":
		c, ok := tested(a[0])
		if !ok {
			return
		}
		c, pos := truthOf(c)
		y, n := "T", "F"
		if !pos {
			y, n = n, y
		}
		to(a[1], "["+c+"]"+y)
		to(a[2], "["+c+"]"+n)
	case "ir:Switch":
		c, ok := tested(a[0])
		if !ok {
			return
		}
		for _, k := range a[2:] {
			d := t.f.s.in.def(st, k)
			if d == nil || len(d.A) < 2 {
				t.fail("a switch case cannot be read")
				return
			}
			to(d.A[1], "["+c+"]case "+reRound.ReplaceAllString(t.f.s.term(st, d.A[0]), ""))
		}
		to(a[1], "["+c+"]default")
	case "ir:Ret":
		if len(a) > 0 && st.norm(a[0]).K != KNil {
			if m := t.current(steps, a[0], 0); m != "" {
				t.fail("the returned value %s", m)
			}
			t.retV = a[0]
			t.done(steps, toks, "ret "+reRound.ReplaceAllString(t.f.s.term(st, a[0]), ""), b)
			t.retV = nil
		} else {
			t.done(steps, toks, "ret", b)
		}
	case "ir:Unreachable":
		t.done(steps, toks, "unreachable", b)
	default:
		t.done(steps, toks, "?"+term.Op, b)
	}
}

// ---- enumeration ---------------------------------------------------------------------------------------------

func leaf() *Sp         { return &Sp{k: "leaf"} }
func atom(k string) *Sp { return &Sp{k: k} }

// bodies are the ways a part of a statement can end.
func bodies(loop bool) [][]*Sp {
	r := [][]*Sp{{leaf()}, {}, {leaf(), atom("ret")}}
	if loop {
		r = append(r, []*Sp{leaf(), atom("break")}, []*Sp{atom("continue")}, []*Sp{atom("break"), leaf()})
	}
	return r
}

type spForm struct {
	name  string
	n     int // slots
	loop  bool
	build func(slots [][]*Sp, md int) *Sp
}

func spForms() []spForm {
	r := []spForm{
		{"if", 1, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "if", slots: x, md: md} }},
		{"if else", 2, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "if", slots: x, els: true, md: md} }},
		{"if else-if", 2, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "if", slots: x, md: md} }},
		{"if else-if else", 3, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "if", slots: x, els: true, md: md} }},
		{"if else-if else-if else", 4, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "if", slots: x, els: true, md: md} }},
		{"switch without default", 2, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "switch", slots: x, md: md} }},
		{"switch with default", 2, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "switch", slots: x, els: true, md: md} }},
		{"switch with two cases and default", 3, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "switch", slots: x, els: true, md: md} }},
		{"switch with only a default", 1, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "switch", slots: x, els: true, md: md} }},
		{"block", 1, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "block", slots: x} }},
		{"macro block", 1, false, func(x [][]*Sp, md int) *Sp { return &Sp{k: "macro", slots: x} }},
	}
	for _, init := range []bool{true, false} {
		for _, op := range []bool{true, false} {
			init, op := init, op
			n := "for"
			if !init {
				n += " without initialiser"
			}
			if !op {
				n += " without update"
			}
			r = append(r, spForm{n, 1, true, func(x [][]*Sp, md int) *Sp { return &Sp{k: "for", slots: x, init: init, op: op, md: md} }})
		}
	}
	return r
}

func endsIn(b []*Sp) string {
	if len(b) == 0 {
		return "nothing"
	}
	switch b[len(b)-1].k {
	case "leaf":
		if b[0].k != "leaf" {
			return b[0].k + " and more"
		}
		return "falls through"
	}
	return b[len(b)-1].k
}

type spProg struct {
	name string
	body []*Sp
}

// level1: every construct with every combination of part endings.
func level1(loop bool, full bool) []spProg {
	var r []spProg
	md := 0
	for _, f := range spForms() {
		bs := bodies(loop || f.loop)
		if f.n >= 3 && !full {
			bs = bs[:min(len(bs), 4)]
		}
		idx := make([]int, f.n)
		for {
			if !(f.n >= 4 && !full && idx[0] == 1) {
				var sl [][]*Sp
				var nm []string
				for _, i := range idx {
					sl = append(sl, bs[i])
					nm = append(nm, endsIn(bs[i]))
				}
				r = append(r, spProg{f.name + " (" + strings.Join(nm, ", ") + ")", []*Sp{f.build(sl, md)}})
				md++
			}
			k := f.n - 1
			for k >= 0 {
				idx[k]++
				if idx[k] < len(bs) {
					break
				}
				idx[k] = 0
				k--
			}
			if k < 0 {
				break
			}
		}
	}
	return r
}

// level2: every construct with every level-1 construct in each of its parts.
func level2(thorough bool) []spProg {
	var r []spProg
	n := 0
	step := 7
	if thorough {
		step = 1
	}
	in := map[bool][]spProg{false: level1(false, false), true: level1(true, thorough)}
	for _, f := range spForms() {
		for slot := 0; slot < f.n; slot++ {
			for _, p := range in[f.loop] {
				n++
				if n%step != 0 {
					continue
				}
				var sl [][]*Sp
				for i := 0; i < f.n; i++ {
					if i != slot {
						sl = append(sl, []*Sp{leaf()})
					} else if n%2 == 0 {
						sl = append(sl, append(append([]*Sp{}, p.body...), leaf()))
					} else {
						sl = append(sl, p.body)
					}
				}
				r = append(r, spProg{fmt.Sprintf("%s with %s in part %d", f.name, p.name, slot), []*Sp{f.build(sl, n)}})
			}
		}
	}
	return r
}

// afterInner: a construct has ended, then the statement around it is left.
func afterInner() []spProg {
	var r []spProg
	n := 0
	outer := func(b []*Sp, op bool) *Sp {
		n++
		return &Sp{k: "for", slots: [][]*Sp{b}, op: op, md: n}
	}
	for _, f := range spForms() {
		for _, inner := range []string{"", "break", "continue"} {
			if inner != "" && !f.loop {
				continue
			}
			for _, lv := range []string{"break", "continue"} {
				in := []*Sp{}
				if inner != "" {
					in = append(in, atom(inner))
				} else {
					in = append(in, leaf())
				}
				var sl [][]*Sp
				for i := 0; i < f.n; i++ {
					sl = append(sl, in)
				}
				x := f.build(sl, n)
				x.init = false
				g := &Sp{k: "if", slots: [][]*Sp{{atom(lv)}}, md: n}
				r = append(r, spProg{"loop in which a " + lv + " follows a " + f.name + " (" + inner + ")", []*Sp{outer([]*Sp{x, g}, n%2 == 0)}})
				if f.loop {
					r = append(r, spProg{"loop that ends in " + lv + " after a " + f.name + " (" + inner + ")", []*Sp{outer([]*Sp{x, atom(lv)}, n%2 == 1)}})
				}
			}
		}
	}
	return r
}

const traceMax = 13

type spWrap struct {
	name string
	run  func(s *Scen, p []*Sp) (want map[string]bool, outs []Outcome, start func(o Outcome) (*Obj, string))
}

func meaning(p []*Sp, ret func(m *spMeaning) func(t []string, n string), fall string) map[string]bool {
	m := &spMeaning{max: traceMax, out: map[string]bool{}}
	m.list(p, nil, spEnv{ret: ret(m)}, func(t []string) { m.end(t, fall) })
	return m.out
}

func retsWith(render func(n string) string) func(m *spMeaning) func(t []string, n string) {
	return func(m *spMeaning) func(t []string, n string) {
		return func(t []string, n string) {
			if t, ok := m.add(t, n); ok {
				m.end(t, render(n))
			}
		}
	}
}

func spWraps() []spWrap {
	root := func(s *Scen, p []*Sp, valT *CT, m Mode) []*Val {
		b := &spBuilder{s: s, n: map[string]int{}, valT: valT, valM: m}
		return b.list(p)
	}
	atB0 := func(s *Scen) func(o Outcome) (*Obj, string) {
		before := s.targets(s.st)
		return func(o Outcome) (*Obj, string) {
			if t := s.targets(o.St); t != before {
				return nil, "the targets of break, continue or return are not restored: " + t + " instead of " + before
			}
			return s.b0.O, ""
		}
	}
	inFunc := func(o Outcome, s *Scen) (*Obj, string) {
		for _, e := range o.St.events() {
			if e.Op == "newblock" && e.Blk != nil {
				return e.Blk, ""
			}
		}
		return nil, "the function has no block"
	}
	var r []spWrap
	r = append(r, spWrap{"in a function body", func(s *Scen, p []*Sp) (map[string]bool, []Outcome, func(o Outcome) (*Obj, string)) {
		s.clearTargets()
		s.withVars()
		p = nameSp(p, map[string]int{})
		blk := s.through(s.block("root", root(s, p, s.shared("I32"), LV)...))
		st := atB0(s)
		return meaning(p, retsWith(func(n string) string { return "ret *" + n }), "out"), s.run(s.a.compileStmt, blk), st
	}})
	r = append(r, spWrap{"as the body of a function without result", func(s *Scen, p []*Sp) (map[string]bool, []Outcome, func(o Outcome) (*Obj, string)) {
		s.clearTargets()
		s.withVars()
		s.global()
		s.emptyMap("globalVariables")
		p = nameSp(p, map[string]int{})
		fn := s.fn("fn", "foo", false, nil, []string{"x"}, []*CT{s.shared("I32")}, root(s, p, nil, LV)...)
		want := meaning(p, func(m *spMeaning) func(t []string, n string) { return func(t []string, n string) { m.end(t, "ret") } }, "ret")
		return want, s.run(s.a.compileStmt, fn), func(o Outcome) (*Obj, string) { return inFunc(o, s) }
	}})
	r = append(r, spWrap{"as the body of a function with a result", func(s *Scen, p []*Sp) (map[string]bool, []Outcome, func(o Outcome) (*Obj, string)) {
		s.clearTargets()
		s.withVars()
		s.global()
		s.emptyMap("globalVariables")
		p = nameSp(append(append([]*Sp{}, p...), atom("ret")), map[string]int{})
		fn := s.fn("fn", "foo", false, s.shared("I32"), []string{"x"}, []*CT{s.shared("I32")}, root(s, p, s.shared("I32"), LV)...)
		return meaning(p, retsWith(func(n string) string { return "ret *" + n }), "?"), s.run(s.a.compileStmt, fn), func(o Outcome) (*Obj, string) { return inFunc(o, s) }
	}})
	for _, m := range []Mode{LV, RV, RVF} {
		m := m
		r = append(r, spWrap{"in a block expression yielding a " + modeName(m), func(s *Scen, p []*Sp) (map[string]bool, []Outcome, func(o Outcome) (*Obj, string)) {
			s.clearTargets()
			s.withVars()
			p = nameSp(append(append([]*Sp{}, p...), atom("ret")), map[string]int{})
			e := s.exprBlock("root", s.shared("I32"), root(s, p, s.shared("I32"), m)...)
			st := atB0(s)
			return meaning(p, retsWith(func(n string) string { return "out =" + operand(n, m) }), "?"), s.run(s.a.compileExpr, e), st
		}})
	}
	return r
}

// sameTraces compares the behaviour of the generated code with the meaning of the program.
func sameTraces(s *Scen, o Outcome, start *Obj, want map[string]bool) (bool, string) {
	if ok, d := s.hygiene(o); !ok {
		return false, d
	}
	tr, bad := s.traces(o, start, traceMax)
	if bad != "" {
		return false, bad
	}
	cur, _ := s.curBlock(o.St, s.c)
	got := map[string]bool{}
	for k, w := range tr {
		if strings.HasPrefix(w.end, "open:") {
			if cur == nil || w.end != "open:"+cur.O.ID {
				return false, "a route ends in a block without a terminator that generation does not continue in: " + k
			}
			e := "out"
			if o.Res != nil {
				if rv := s.st; rv != nil {
					t := o.St.norm(o.Res)
					if t.K != KNil {
						v, _ := w.mem(s, o.St, o.Res)
						e = "out =" + v
					}
				}
			}
			k = strings.TrimSuffix(k, w.end) + e
		}
		got[k] = true
	}
	for k := range want {
		if !got[k] {
			return false, "no route behaves like \"" + k + "\"; the routes are:\n      " + strings.Join(sortedKeys(got, 14), "\n      ")
		}
	}
	for k := range got {
		if !want[k] {
			return false, "a route behaves like \"" + k + "\"; the meaning is:\n      " + strings.Join(sortedKeys(want, 14), "\n      ")
		}
	}
	return true, ""
}

func sortedKeys(m map[string]bool, n int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > n {
		l = append(l[:n], "…")
	}
	return l
}
