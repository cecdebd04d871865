package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---- which control-flow trees are valid programs ---------------------------------------------------------------------

// returns: every route through the list returns.
func spReturns(l []*Sp) bool {
	for _, x := range l {
		if x.returns() {
			return true
		}
	}
	return false
}

func (x *Sp) returns() bool {
	switch x.k {
	case "ret":
		return true
	case "block", "macro":
		return spReturns(x.slots[0])
	case "if", "switch":
		if !x.els {
			return false
		}
		for _, s := range x.slots {
			if !spReturns(s) {
				return false
			}
		}
		return true
	}
	return false
}

// live leaves out what follows a returning statement: the language neither checks nor compiles it.
func live(l []*Sp) []*Sp {
	for i, x := range l {
		if x.returns() {
			return l[:i+1]
		}
	}
	return l
}

// invalid is the rule that a list of statements breaks, "" for none.
func invalid(l []*Sp, inLoop bool) string {
	for _, x := range live(l) {
		sub := inLoop
		switch x.k {
		case "break", "continue":
			if !inLoop {
				return x.k + " outside of a loop of its function"
			}
		case "for":
			sub = true
		case "lambda", "rlambda", "fdecl":
			sub = false
		}
		if (x.k == "rlambda" || x.k == "bexpr") && !spReturns(x.slots[0]) {
			return "a route without a value"
		}
		for _, s := range x.slots {
			if m := invalid(s, sub); m != "" {
				return m
			}
		}
	}
	return ""
}

// leaves of the live part of a tree.
func liveLeaves(l []*Sp, valued bool, r map[string]bool) {
	for _, x := range live(l) {
		switch x.k {
		case "leaf":
			r[x.n] = true
		case "ret":
			if valued {
				r[x.n] = true
			}
		}
		if x.k != "bexpr" {
			for _, c := range x.conds {
				r[c] = true
			}
		}
		if x.init {
			r[x.n+".init"] = true
		}
		if x.op {
			r[x.n+".update"] = true
		}
		if x.k == "switch" {
			n := len(x.slots)
			if x.els {
				n--
			}
			for i := 0; i < n; i++ {
				r[fmt.Sprintf("%s.K%d", x.n, i)] = true
			}
		}
		in := valued
		switch x.k {
		case "rlambda", "bexpr":
			in = true
		case "lambda", "fdecl":
			in = false
		}
		for _, s := range x.slots {
			liveLeaves(s, in, r)
		}
	}
}

// ---- what is left in the tree ------------------------------------------------------------------------------------------

// leavesLeft are the abstract parts that the program still holds in a final state.
func (s *Scen) leavesLeft(o Outcome, roots []*Val) map[string]bool {
	r := map[string]bool{}
	seen := map[string]bool{}
	var visit func(v *Val, d int)
	visit = func(v *Val, d int) {
		if v == nil || d > 60 {
			return
		}
		v = o.St.norm(v)
		switch v.K {
		case KIface:
			visit(v.inner(), d+1)
		case KSym:
			if _, ok := s.child[v.S]; ok {
				r[v.S] = true
			} else if _, ok := s.stmtTerm[v.S]; ok {
				r[v.S] = true
			}
		case KPtr:
			k := v.Key()
			if seen[k] || strings.Contains(v.O.T.String(), "internals/semantic") || strings.Contains(v.O.T.String(), "internals/ctypes") {
				return
			}
			seen[k] = true
			visit(o.St.load(v), d+1)
		case KSlice:
			es, _ := s.in.elems(o.St, v)
			for _, e := range es {
				visit(e, d+1)
			}
		case KStruct:
			for _, f := range v.A {
				visit(f, d+1)
			}
		}
	}
	for _, v := range roots {
		visit(v, 0)
	}
	return r
}

// analysed are the parts that the analyzer looked at on a path.
func analysed(o Outcome) map[string]int {
	r := map[string]int{}
	for _, e := range o.St.events() {
		if e.Op == "expr" || e.Op == "stmt" {
			r[e.Args[0].S]++
		}
	}
	return r
}

func setDiff(a map[string]bool, has func(string) bool) string {
	var r []string
	for k := range a {
		if !has(k) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

// allAnalysed: nothing reaches the code generation unseen.
func (s *Scen) allAnalysed(o Outcome, roots []*Val) (bool, string) {
	seen := analysed(o)
	if d := setDiff(s.leavesLeft(o, roots), func(k string) bool { return seen[k] > 0 }); d != "" {
		return false, "the analyzer accepts the program without looking at " + d + ", which stays in the tree"
	}
	return true, ""
}

// ---- trees -----------------------------------------------------------------------------------------------------------

func sp(k string, slots ...[]*Sp) *Sp { return &Sp{k: k, slots: slots} }

var (
	spLeaf = sp("leaf")
	spRet  = sp("ret")
	spBrk  = sp("break")
	spCont = sp("continue")
)

func spName(l []*Sp) string {
	var r []string
	for _, x := range l {
		n := x.k
		switch x.k {
		case "leaf":
			n = "s"
		case "rlambda":
			n = "func i32"
		case "lambda":
			n = "func"
		}
		if len(x.slots) > 0 {
			var ss []string
			for i, s := range x.slots {
				t := "{" + spName(s) + "}"
				if x.els && i == len(x.slots)-1 {
					t = "else" + t
				}
				ss = append(ss, t)
			}
			n += strings.Join(ss, "")
		}
		r = append(r, n)
	}
	return strings.Join(r, " ")
}

// combos fills the parts of every form with the given bodies.
func combos(bs [][]*Sp, max int) [][]*Sp {
	var r [][]*Sp
	md := 0
	for _, f := range spForms() {
		k := len(bs)
		if f.n >= 3 && k > max {
			k = max
		}
		idx := make([]int, f.n)
		for {
			var sl [][]*Sp
			for _, i := range idx {
				sl = append(sl, bs[i])
			}
			r = append(r, []*Sp{f.build(sl, md)})
			md++
			j := f.n - 1
			for j >= 0 {
				if idx[j]++; idx[j] < k {
					break
				}
				idx[j] = 0
				j--
			}
			if j < 0 {
				break
			}
		}
	}
	return r
}

func returnTrees(thorough bool) [][]*Sp {
	bs := [][]*Sp{{spLeaf}, {spRet}, {}, {spRet, spLeaf}, {spLeaf, spRet}}
	one := combos(bs, 3)
	r := append([][]*Sp{{}, {spLeaf}, {spRet}, {spRet, spLeaf}, {spRet, spRet}}, one...)
	// something after the construct
	for i, t := range one {
		if thorough || i%2 == 0 {
			r = append(r, append(append([]*Sp{}, t...), spRet), append(append([]*Sp{}, t...), spLeaf))
		}
	}
	// a construct in each part of another one, the other parts return
	n := 0
	for _, f := range spForms() {
		for slot := 0; slot < f.n; slot++ {
			for _, t := range one {
				n++
				if !thorough && n%5 != 0 {
					continue
				}
				var sl [][]*Sp
				for i := 0; i < f.n; i++ {
					if i == slot {
						sl = append(sl, t)
					} else {
						sl = append(sl, []*Sp{spRet})
					}
				}
				r = append(r, []*Sp{f.build(sl, n)})
			}
		}
	}
	// functions and block expressions do not return for the function around them
	for _, k := range []string{"lambda", "fdecl"} {
		r = append(r, []*Sp{sp(k, []*Sp{spRet})}, []*Sp{sp(k, []*Sp{spRet}), spRet}, []*Sp{sp(k, []*Sp{spLeaf}), spRet}, []*Sp{sp(k, []*Sp{spRet}), spLeaf})
	}
	for _, k := range []string{"rlambda", "bexpr"} {
		for _, b := range append(append([][]*Sp{}, bs...), one...) {
			r = append(r, []*Sp{sp(k, b), spRet})
			if spReturns(b) {
				r = append(r, []*Sp{sp(k, b)}, []*Sp{sp(k, b), spLeaf})
				r = append(r, []*Sp{sp("if", []*Sp{sp(k, b)}), spRet})
			}
		}
	}
	return r
}

func loopTrees(thorough bool) [][]*Sp {
	var r [][]*Sp
	form := 0 // whether the loops have a declaration and a step
	wrap := func(t []*Sp) [][]*Sp {
		loop := func(b ...*Sp) *Sp {
			return &Sp{k: "for", slots: [][]*Sp{b}, init: form&1 == 0, op: form&2 == 0}
		}
		all := func(b ...*Sp) []*Sp { return b }
		w := [][]*Sp{
			t,
			all(loop(t...)),
			all(append([]*Sp{loop(spLeaf)}, t...)...),
			all(loop(append([]*Sp{loop(spLeaf)}, t...)...)),
			all(loop(append([]*Sp{loop(spBrk)}, t...)...)),
			all(sp("lambda", t)),
			all(loop(sp("lambda", t))),
			all(sp("lambda", all(loop(t...)))),
			all(loop(append([]*Sp{sp("lambda", []*Sp{spLeaf})}, t...)...)),
			all(loop(append([]*Sp{sp("lambda", all(loop(spBrk)))}, t...)...)),
			all(loop(append([]*Sp{sp("rlambda", []*Sp{spRet})}, t...)...)),
			all(append([]*Sp{sp("lambda", all(loop(spCont)))}, t...)...),
			all(append([]*Sp{loop(sp("lambda", []*Sp{spLeaf}))}, t...)...),
			all(loop(sp("fdecl", t))),
			all(loop(append([]*Sp{sp("fdecl", all(loop(spBrk)))}, t...)...)),
			all(loop(sp("bexpr", append(append([]*Sp{}, t...), spRet)))),
			all(sp("bexpr", append(append([]*Sp{}, t...), spRet))),
			all(loop(append([]*Sp{sp("bexpr", []*Sp{spRet})}, t...)...)),
			all(sp("bexpr", all(loop(spBrk), spRet)), sp("block", t)),
			all(loop(sp("lambda", all(sp("lambda", t))))),
			all(loop(sp("lambda", all(loop(sp("lambda", t)))))),
		}
		return w
	}
	inner := [][]*Sp{{spBrk}, {spCont}, {spLeaf, spBrk}, {spBrk, spLeaf}, {spRet, spBrk}}
	for i, t := range inner {
		for form = 0; form < 4; form++ {
			if thorough || i < 2 || form == 0 {
				r = append(r, wrap(t)...)
			}
		}
	}
	n := 0
	for i, t := range combos([][]*Sp{{spBrk}, {spLeaf}, {spCont}}, 2) {
		form = i % 4
		for _, w := range wrap(t) {
			n++
			if thorough || n%3 == 0 {
				r = append(r, w)
			}
		}
	}
	return r
}

// spRun hands a tree to the analyzer as the body of a function of the given kind.
func spRun(w *World, a *Anchors, sa *SemAnchors, kind string, l []*Sp) (*Scen, []Outcome, []*Val, []*Sp) {
	s := NewSem(w, a, sa)
	named := nameSp(l, map[string]int{})
	b := &spBuilder{s: s, n: map[string]int{}, valM: LV}
	var prog []*Val
	switch kind {
	case "function":
		b.valT = s.shared("I32")
		f, _ := s.fnc("f-id", b.valT, nil, nil, b.list(named)...)
		prog = []*Val{f}
	case "procedure":
		prog = []*Val{s.inMain(b.list(named)...)}
	}
	outs := s.verdicts(prog...)
	return s, outs, prog, named
}

func init() {
	trees := func(kind string, gen func(thorough bool) [][]*Sp, rule string, valid func(l []*Sp) bool, more func(s *Scen, kind string, o Outcome, prog []*Val, l []*Sp) (bool, string)) func(w *World, a *Anchors, r *Report) {
		return func(w *World, a *Anchors, r *Report) {
			sa := w.semAnchors(a)
			if sa.problem != "" {
				r.Ob(false, "anchors", sa.problem, 0, "not found")
				return
			}
			for _, l := range gen(r.thorough) {
				s, outs, prog, named := spRun(w, a, sa, kind, l)
				ok := valid(named)
				if more != nil && !ok {
					continue
				}
				var m func(o Outcome) (bool, string)
				if more != nil {
					m = func(o Outcome) (bool, string) { return more(s, kind, o, prog, named) }
				}
				r.judge(s, outs, rule, kind+" {"+spName(l)+"}", ok, m)
			}
		}
	}
	c17 := func(l []*Sp) bool { return invalid(l, false) == "" && spReturns(l) }
	c18 := func(l []*Sp) bool { return invalid(l, false) == "" }
	register(&Prop{id: "C17",
		explanation: "Functions with a result built from every control-flow construct, nested, with each part returning or not, are followed through the analyzer on every path; the accepted ones are compared with the meaning of the trees.",
		rules:       []string{"a function, function expression or block expression with a result is accepted exactly when every route through it returns"},
		run:         trees("function", returnTrees, "returns on every route", c17, nil)})
	register(&Prop{id: "C18",
		explanation: "Programs with break and continue in every control-flow construct, in and after loops, function expressions, nested functions and block expressions are followed through the analyzer on every path.",
		rules:       []string{"break and continue are accepted exactly inside a loop of their own function"},
		run:         trees("procedure", loopTrees, "inside a loop", c18, nil)})
	register(&Prop{id: "C21",
		explanation: "Accepted programs (control-flow trees with dead code, and every expression form of the operator and type properties) are followed through the analyzer; the abstract parts still in the tree at the end are compared with the parts it looked at.",
		rules:       []string{"what an accepted program hands to the code generation was analysed", "what can be reached stays in the program"},
		run: func(w *World, a *Anchors, r *Report) {
			more := func(s *Scen, kind string, o Outcome, prog []*Val, l []*Sp) (bool, string) {
				if ok, d := s.allAnalysed(o, prog); !ok {
					return ok, d
				}
				want := map[string]bool{}
				liveLeaves(l, kind == "function", want)
				left := s.leavesLeft(o, prog)
				if d := setDiff(want, func(k string) bool { return left[k] }); d != "" {
					return false, "the analyzer drops " + d + ", which can be reached, from the program"
				}
				return true, ""
			}
			trees("function", returnTrees, "all of it is analysed", c17, more)(w, a, r)
			trees("procedure", loopTrees, "all of it is analysed", c18, more)(w, a, r)
			all := func(s *Scen, o Outcome) (bool, string) { return s.allAnalysed(o, s.prog) }
			for _, id := range []string{"C14", "C15"} {
				r.again(w, a, id, "all of it is analysed", all)
			}
		}})
}
