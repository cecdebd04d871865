package main

import (
	"fmt"
	"strconv"
	"strings"
)

// members lists the known blocks of a function.
func (s *Scen) members(st *State, fn *Val) []*Obj {
	l := s.in.field(st, fn, "Blocks")
	if l == nil || l.K != KSlice {
		return nil
	}
	var r []*Obj
	if l.S == "" {
		es, _ := s.in.elems(st, l)
		for _, e := range es {
			if b := blkOf(st, e); b != nil {
				r = append(r, b)
			}
		}
		return r
	}
	c := st.content(l.O)
	for k, e := range c.M {
		if n, err := strconv.Atoi(k); err == nil && n < l.N {
			if b := blkOf(st, e); b != nil {
				r = append(r, b)
			}
		}
	}
	return r
}

// wellFormed: the generated functions are ones LLVM accepts.
func wellFormed(s *Scen, o Outcome) (bool, string) {
	if ok, d := s.hygiene(o); !ok {
		return false, d
	}
	st := o.St
	cur, _ := s.curBlock(st, s.c)
	member := map[*Obj]bool{}
	var fns []*Val
	if cur != nil { // generation happens inside a function
		fns = append(fns, s.f)
	}
	entry := map[*Obj]*Obj{}
	for _, e := range st.events() {
		switch e.Op {
		case "newfunc":
			if f := st.norm(e.Res).inner(); f.K == KPtr {
				fns = append(fns, f)
			}
		case "newblock":
			if f := st.norm(e.Args[0]).inner(); f.K == KPtr && entry[f.O] == nil {
				entry[f.O] = e.Blk
			}
		}
	}
	if s.f != nil {
		entry[s.f.O] = s.b0.O
	}
	for _, f := range fns {
		here := map[*Obj]bool{}
		for _, b := range s.members(st, f) {
			if here[b] {
				return false, "a block is listed twice in its function"
			}
			here[b], member[b] = true, true
		}
	}
	for b := range member {
		t := s.in.field(st, vPtr(b), "Term")
		_, nx := st.attrs["next:"+b.ID]
		if (t == nil || t.K == KNil) && !nx && !(cur != nil && cur.O == b) {
			fn := ""
			for _, e := range st.events() {
				if e.Op == "newblock" && e.Blk == b {
					fn = " created in " + e.Fn
				}
			}
			return false, "a block" + fn + " is left without a terminator"
		}
	}
	for _, f := range fns {
		b := entry[f.O]
		if b == nil {
			continue
		}
		tr, bad := s.traces(o, b, 18)
		if bad != "" {
			return false, bad
		}
		for k, w := range tr {
			for _, q := range w.blocks {
				if !member[q] && (strings.HasPrefix(q.ID, "blk")) {
					return false, "a route enters a block that is not part of the function: " + k
				}
			}
			if strings.HasPrefix(w.end, "outside:") {
				return false, "a route leaves the function: " + k
			}
			if strings.HasPrefix(w.end, "open:") && (cur == nil || w.end != "open:"+cur.O.ID) {
				return false, fmt.Sprintf("a route of %s ends in a block without a terminator: %s", s.term(st, f), k)
			}
		}
	}
	return true, ""
}

func init() {
	register(&Prop{id: "C08",
		explanation: "Every scenario of the code-generation properties (all operators, casts, memory and call constructs, statements nested in one another, functions, block expressions; operands and sub-statements abstract and free to continue in other blocks) is generated by abstract interpretation and the resulting functions are checked for well-formedness on every route of their control-flow graph.",
		rules:       []string{"no instruction follows the end of a block and no block ends twice", "every block of a function ends in a terminator, except the one generation continues in", "every block control reaches belongs to the function, once", "every value is computed on each route that uses it, before it is used"},
		run: func(w *World, a *Anchors, r *Report) {
			if !a.guard(r) {
				return
			}
			for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C07", "C09", "C11", "C12", "C13", "C40", "C43"} {
				r.again(w, a, id, "well-formed", wellFormed)
			}
		}})
}
