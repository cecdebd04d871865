package main

import "fmt"

// recursiveTypes: a struct or union may not contain itself, or nothing that goes through its parts ends. Pointers and functions to it
// are no part of it.
func recursiveTypes(w *World, a *Anchors, r *Report) {
	sa := w.semAnchors(a)
	if sa.problem != "" {
		r.Ob(false, "anchors", sa.problem, 0, "not found")
		return
	}
	type link struct {
		n    string
		part bool
		b    func(s *Scen, t *CT) *CT
	}
	links := []link{
		{"itself", true, func(s *Scen, t *CT) *CT { return t }},
		{"an array of it", true, func(s *Scen, t *CT) *CT { return s.tArr(2, t) }},
		{"an array of arrays of it", true, func(s *Scen, t *CT) *CT { return s.tArr(2, s.tArr(3, t)) }},
		{"a pointer to it", false, func(s *Scen, t *CT) *CT { return s.tPtr(t) }},
		{"an array of pointers to it", false, func(s *Scen, t *CT) *CT { return s.tArr(2, s.tPtr(t)) }},
		{"a pointer to an array of it", false, func(s *Scen, t *CT) *CT { return s.tPtr(s.tArr(2, t)) }},
		{"a function that takes it", false, func(s *Scen, t *CT) *CT { return s.tFunc(s.voidCT(), t) }},
		{"a function that returns it", false, func(s *Scen, t *CT) *CT { return s.tFunc(t) }},
	}
	for _, place := range []string{"", " in a block for a target"} {
		for n := 1; n <= 3; n++ {
			for _, kinds := range [][]string{{"Struct", "Struct", "Struct"}, {"Union", "Union", "Union"}, {"Struct", "Union", "Struct"}, {"Union", "Struct", "Struct"}} {
				if n == 1 && kinds[0] != kinds[1] {
					continue
				}
				if place != "" && (kinds[1] != kinds[0] || n == 3) {
					continue
				}
				for li, l := range links {
					// the last link closes the circle; the other ones are the thing itself or an array of it
					for mid := 0; mid < 2; mid++ {
						if n == 1 && mid > 0 || n == 3 && li > 3 && !r.thorough {
							continue
						}
						for pos := 0; pos < 2; pos++ {
							s := NewSem(w, a, sa)
							rec := func(kind, name string, f *CT) *Val {
								fs := []*CT{s.shared("I32"), f}
								if pos == 1 {
									fs[0], fs[1] = fs[1], fs[0]
								}
								_, d := s.tRec(kind, name, []string{name + "p", name + "q"}, fs...)
								return d
							}
							var ds []*Val
							for i := 0; i < n; i++ {
								to := s.tNamed(fmt.Sprintf("T%d-id", (i+1)%n))
								if i == n-1 {
									to = l.b(s, to)
								} else {
									to = links[mid].b(s, to)
								}
								ds = append(ds, rec(kinds[i], fmt.Sprintf("T%d-id", i), to))
							}
							if place != "" {
								ds = []*Val{s.mk("MacroBlock", "Block", s.blk(ds...).inner())}
							}
							ds = append(ds, s.inMain())
							name := fmt.Sprintf("%d types%s, %v with %s within %s, in place %d", n, place, kinds[:n], l.n, links[mid].n, pos)
							dbg("SCEN %s", name)
							r.judge(s, s.verdicts(ds...), "types that contain themselves", name, !l.part, nil)
						}
					}
				}
			}
		}
	}
	// the same type twice is no circle
	for _, kind := range []string{"Struct", "Union"} {
		s := NewSem(w, a, sa)
		_, d0 := s.tRec(kind, "T0-id", []string{"a", "b"}, s.tNamed("T1-id"), s.tNamed("T2-id"))
		_, d1 := s.tRec(kind, "T1-id", []string{"a", "b"}, s.tNamed("T2-id"), s.tArr(2, s.tNamed("T2-id")))
		_, d2 := s.tRec(kind, "T2-id", []string{"a"}, s.shared("I32"))
		r.judge(s, s.verdicts(d0, d1, d2, s.inMain()), "types that contain themselves", kind+", a type that is a part in several places", true, nil)
	}
	// a circle that the first type is not a part of
	for _, kind := range []string{"Struct", "Union"} {
		s := NewSem(w, a, sa)
		_, d0 := s.tRec(kind, "T0-id", []string{"a"}, s.tNamed("T1-id"))
		_, d1 := s.tRec(kind, "T1-id", []string{"a"}, s.tArr(2, s.tNamed("T2-id")))
		_, d2 := s.tRec(kind, "T2-id", []string{"a"}, s.tNamed("T1-id"))
		r.judge(s, s.verdicts(d0, d1, d2, s.inMain()), "types that contain themselves", kind+", a part of a type that contains itself", false, nil)
	}
}
