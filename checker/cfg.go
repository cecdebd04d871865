package main

import (
	"fmt"
	"strings"
)

// The generator builds a control-flow graph out of blocks and terminators. A Walk is one route through that graph from the block the
// construct was entered in until it leaves (falls out of the construct, returns, or revisits a block too often).

type Step struct {
	ev   *Event // eval / stmt / ir event
	cond string // branch on this condition
	cval *Val
	take string // "T", "F", "case <c>", "default"
}

type Walk struct {
	steps  []Step
	end    string // "open:<block>" (control falls out here), "ret <v>", "unreachable", "ends <stmt>", "loop", "outside:<block>"
	endB   *Obj
	retV   *Val
	blocks []*Obj
}

type Flow struct {
	s     *Scen
	st    *State
	byBlk map[*Obj][]*Event
	limit int
	walks []*Walk
	over  bool
}

func (s *Scen) flow(o Outcome) *Flow {
	f := &Flow{s: s, st: o.St, byBlk: map[*Obj][]*Event{}, limit: 2}
	for _, e := range o.St.events() {
		if e.Blk != nil && (e.Op == "eval" || e.Op == "evalconst" || e.Op == "stmt" || strings.HasPrefix(e.Op, "ir:")) {
			f.byBlk[e.Blk] = append(f.byBlk[e.Blk], e)
		}
	}
	return f
}

func blkOf(st *State, v *Val) *Obj {
	v = st.norm(v).inner()
	if v != nil && v.K == KPtr {
		return v.O
	}
	return nil
}

func (f *Flow) from(b *Obj) []*Walk {
	f.walks = nil
	f.visit(b, nil, map[*Obj]int{})
	return f.walks
}

func (f *Flow) visit(b *Obj, pre []Step, seen map[*Obj]int) {
	if len(f.walks) > 3000 {
		f.over = true
		return
	}
	steps := append([]Step(nil), pre...)
	done := func(end string) { f.walks = append(f.walks, &Walk{steps: steps, end: end, endB: b}) }
	if seen[b] >= f.limit {
		done("loop")
		return
	}
	seen[b]++
	defer func() { seen[b]-- }()
	st := f.st
	var term *Event
	for _, e := range f.byBlk[b] {
		if strings.HasPrefix(e.Op, "ir:") && termOps[e.Op[3:]] {
			term = e
			continue
		}
		steps = append(steps, Step{ev: e})
	}
	if n, ok := st.attrs["next:"+b.ID]; ok {
		f.visit(n.O, steps, seen)
		return
	}
	if n, ok := st.attrs["ends:"+b.ID]; ok {
		done("ends " + n.Key())
		return
	}
	if term == nil {
		if _, known := f.byBlk[b]; !known && !strings.HasPrefix(b.ID, "blk") && !strings.HasPrefix(b.ID, "after") && b.ID != "B0" {
			done("outside:" + b.ID)
			return
		}
		done("open:" + b.ID)
		return
	}
	a := term.Args
	to := func(v *Val, extra *Step) {
		n := blkOf(st, v)
		s2 := steps
		if extra != nil {
			s2 = append(append([]Step(nil), steps...), *extra)
		}
		if n == nil {
			f.walks = append(f.walks, &Walk{steps: s2, end: "outside:" + st.norm(v).Key(), endB: b})
			return
		}
		f.visit(n, s2, seen)
	}
	switch term.Op {
	case "ir:Br":
		to(a[0], nil)
	case "ir:CondBr":
		c := f.s.term(st, a[0])
		to(a[1], &Step{cond: c, cval: a[0], take: "T"})
		to(a[2], &Step{cond: c, cval: a[0], take: "F"})
	case "ir:Switch":
		c := f.s.term(st, a[0])
		for _, k := range a[2:] {
			d := f.s.in.def(st, k)
			if d == nil || len(d.A) < 2 {
				steps = append(steps, Step{cond: c, take: "?"})
				done("outside:case")
				continue
			}
			to(d.A[1], &Step{cond: c, take: "case " + f.s.term(st, d.A[0])})
		}
		to(a[1], &Step{cond: c, take: "default"})
	case "ir:Ret":
		if len(a) > 0 && st.norm(a[0]).K != KNil {
			done("ret " + f.s.term(st, a[0]))
		} else {
			done("ret")
		}
	case "ir:Unreachable":
		done("unreachable")
	default:
		done("?" + term.Op)
	}
}

// shape renders a walk: evaluations, statements and branch decisions only.
func (w *Walk) shape() string {
	var r []string
	for _, s := range w.steps {
		switch {
		case s.ev == nil:
			r = append(r, "["+s.cond+"]"+s.take)
		case s.ev.Op == "eval" || s.ev.Op == "evalconst":
			r = append(r, s.ev.Args[0].Key())
		case s.ev.Op == "stmt":
			r = append(r, s.ev.Args[0].Key())
		}
	}
	e := w.end
	if strings.HasPrefix(e, "open:") {
		e = "out"
	}
	return strings.Join(append(r, e), " ")
}

// mem is the content of a stack slot at the end of the walk.
func (w *Walk) mem(s *Scen, st *State, slot *Val) (string, *Val) {
	r, rv := "uninitialised", (*Val)(nil)
	q := st.norm(slot).inner()
	for _, x := range w.steps {
		if x.ev != nil && x.ev.Op == "ir:Store" {
			p := st.norm(x.ev.Args[1]).inner()
			if p.K == KPtr && q.K == KPtr && p.O == q.O {
				rv = x.ev.Args[0]
				r = s.term(st, rv)
			}
		}
	}
	return r, rv
}

// decided: the truth value a condition term is known to have on the walk.
func (w *Walk) decided(c string) string {
	for _, x := range w.steps {
		if x.ev == nil && x.cond == c {
			if x.take == "T" {
				return "1"
			}
			return "0"
		}
	}
	return c
}

// hygiene: rules every piece of generated control flow obeys.
func (s *Scen) hygiene(o Outcome) (bool, string) {
	for _, e := range o.St.events() {
		switch e.Op {
		case "reterm":
			return false, fmt.Sprintf("a block that already ends is given a second terminator (in %s)", e.Fn)
		case "late":
			return false, fmt.Sprintf("instruction %s is emitted into a block that already ends (in %s)", e.Args[0].Key(), e.Fn)
		}
		if (e.Op == "eval" || e.Op == "evalconst") && len(e.Args) > 1 {
			return false, fmt.Sprintf("operand %s is generated while the do-not-load flag of an earlier operand is still pending (in %s)", e.Args[0].Key(), e.Fn)
		}
	}
	return true, ""
}
