package main

import "fmt"

// C50: a loop takes no more of the stack the more often it turns: space is reserved in a block that is entered once per call.

// inLoop makes scenarios stand in a loop: fragments in a block that is not the first of its function, programs in a loop of main.
var inLoop bool

func (s *Scen) looped(stmts []*Val) []*Val {
	if !inLoop {
		return stmts
	}
	return []*Val{s.mk("ForStatement", "Condition", s.intLit(1), "Block", s.blk(stmts...))}
}

// stackBounded: no block that control can come back to reserves space. The fragment may be the body of a loop: where it ends, it may
// begin again.
func stackBounded(s *Scen, o Outcome, fragment bool) (bool, string) {
	st := o.St
	edges := map[*Obj][]*Obj{}
	add := func(b *Obj, v *Val) {
		if n := blkOf(st, v); n != nil {
			edges[b] = append(edges[b], n)
		}
	}
	for _, e := range st.events() {
		if e.Blk == nil {
			continue
		}
		switch e.Op {
		case "ir:Br":
			add(e.Blk, e.Args[0])
		case "ir:CondBr":
			add(e.Blk, e.Args[1])
			add(e.Blk, e.Args[2])
		case "ir:Switch":
			add(e.Blk, e.Args[1])
			for _, k := range e.Args[2:] {
				if d := s.in.def(st, k); d != nil && len(d.A) > 1 {
					add(e.Blk, d.A[1])
				}
			}
		}
	}
	known := map[*Obj]bool{}
	for _, e := range st.events() {
		if e.Blk != nil {
			known[e.Blk] = true
		}
	}
	for b := range edges {
		known[b] = true
	}
	more := true
	for more {
		more = false
		for b := range known {
			if n, ok := st.attrs["next:"+b.ID]; ok {
				if q := blkOf(st, n); q != nil && !known[q] {
					known[q] = true
					more = true
				}
			}
		}
	}
	for b := range known {
		if n, ok := st.attrs["next:"+b.ID]; ok {
			add(b, n)
		}
	}
	if cur, _ := s.curBlock(st, s.c); fragment && cur != nil && cur.K == KPtr && s.b0 != nil {
		edges[cur.O] = append(edges[cur.O], s.b0.O)
	}
	returns := func(b *Obj) bool {
		seen := map[*Obj]bool{}
		todo := append([]*Obj(nil), edges[b]...)
		for len(todo) > 0 {
			q := todo[0]
			todo = todo[1:]
			if q == b {
				return true
			}
			if !seen[q] {
				seen[q] = true
				todo = append(todo, edges[q]...)
			}
		}
		return false
	}
	n := 0
	for _, e := range st.events() {
		if e.Op == "ir:Alloca" && e.Blk != nil {
			n++
			if returns(e.Blk) {
				return false, fmt.Sprintf("space for a value of type %s is reserved anew on every turn of the loop (in %s)", s.term(st, e.Args[0]), e.Fn)
			}
		}
	}
	stackJudged += n
	return true, ""
}

var stackJudged int

func init() {
	register(&Prop{id: "C50",
		explanation: "Every scenario of the code generation properties, put in a block that may be the body of a loop, and accepted programs whose statements stand in a loop, are generated by abstract interpretation; the blocks that reserve space on the stack are searched for in the cycles of the control-flow graph.",
		rules:       []string{"no block on a cycle of the generated control-flow graph reserves space on the stack"},
		assumptions: []string{"the LLVM tools give space that is reserved in the first block of a function, of a size that is known, once per call"},
		run: func(w *World, a *Anchors, r *Report) {
			ca := w.compAnchors(a)
			if !a.guard(r) {
				return
			}
			if ca.newFn == nil || ca.typeOf == nil {
				r.Ob(false, "anchors", "constructor of the code generator", 0, "not found")
				return
			}
			inLoop = true
			defer func() { inLoop = false }()
			for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C11", "C12", "C13", "C40", "C43", "C47"} {
				r.again(w, a, id, "stack", func(s *Scen, o Outcome) (bool, string) { return stackBounded(s, o, true) })
			}
			for _, id := range []string{"C14", "C15", "C16", "C18", "C22", "C24"} {
				r.again(w, a, id, "stack", func(s *Scen, o Outcome) (bool, string) {
					g, outs := s.compiled(ca, o)
					for _, c := range outs {
						if c.Kind != ORet {
							continue
						}
						if ok, d := stackBounded(g, c, false); !ok {
							return false, d
						}
					}
					return true, ""
				})
			}
			dbg("%d reservations", stackJudged)
		}})
}
