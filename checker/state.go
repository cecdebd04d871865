package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Event struct {
	Op   string
	Args []*Val
	Res  *Val
	Blk  *Obj
	Pos  token.Pos
	Fn   string
}

type traceNode struct {
	prev *traceNode
	ev   *Event
	n    int
	key  string
}

type State struct {
	heap   map[*Obj]*Val
	base   map[*Obj]*Val // shared, read only
	bind   map[string]*Val
	facts  map[string]bool
	dyn    map[string]types.Type
	notdyn map[string][]types.Type
	attrs  map[string]*Val
	trace  *traceNode
	path   []string
	conds  []*Val // conditions on several unknown bytes
}

func newState(base map[*Obj]*Val) *State {
	return &State{heap: map[*Obj]*Val{}, base: base, bind: map[string]*Val{}, facts: map[string]bool{}, dyn: map[string]types.Type{}, notdyn: map[string][]types.Type{}, attrs: map[string]*Val{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{heap: cp(s.heap), base: s.base, bind: cp(s.bind), facts: cp(s.facts), dyn: cp(s.dyn), notdyn: cp(s.notdyn), attrs: cp(s.attrs), trace: s.trace, path: append([]string(nil), s.path...), conds: s.conds}
}

func (s *State) content(o *Obj) *Val {
	if v, ok := s.heap[o]; ok {
		return v
	}
	if v, ok := s.base[o]; ok {
		return v
	}
	return vSym(strings.TrimPrefix(o.ID, "@"), o.T)
}

func (s *State) load(p *Val) *Val     { return getPath(s.content(p.O), p.Path) }
func (s *State) store(p *Val, v *Val) { s.heap[p.O] = setPath(s.content(p.O), p.Path, v) }

func (s *State) emit(ev *Event) {
	n := 0
	if s.trace != nil {
		n = s.trace.n
	}
	s.trace = &traceNode{prev: s.trace, ev: ev, n: n + 1}
}

func (s *State) events() []*Event {
	if s.trace == nil {
		return nil
	}
	r := make([]*Event, s.trace.n)
	for t := s.trace; t != nil; t = t.prev {
		r[t.n-1] = t.ev
	}
	return r
}

func evKey(e *Event) string {
	var b strings.Builder
	b.WriteString(e.Op)
	if e.Blk != nil {
		b.WriteString("@" + e.Blk.ID)
	}
	for _, a := range e.Args {
		b.WriteString("," + a.Key())
	}
	if e.Res != nil {
		b.WriteString("=>" + e.Res.Key())
	}
	return b.String()
}

func (t *traceNode) Key() string {
	if t == nil {
		return ""
	}
	if t.key == "" {
		t.key = hash(t.prev.Key() + "|" + evKey(t.ev))
	}
	return t.key
}

// norm replaces a symbol by what the path facts know about it.
func (s *State) norm(v *Val) *Val {
	if v == nil {
		return v
	}
	if v.K == KSym {
		if b, ok := s.bind[v.S]; ok {
			return s.norm(b)
		}
		if isIface(v.T) {
			if d, ok := s.dyn[v.S]; ok {
				return vIface(d, s.norm(vSym(v.S, d)))
			}
		}
	}
	if v.K == KTerm {
		if b, ok := s.bind[v.Key()]; ok {
			return s.norm(b)
		}
	}
	return v
}

func reach(s *State, roots []*Val, seen map[*Obj]bool) {
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil {
			return
		}
		if v.O != nil && !seen[v.O] {
			seen[v.O] = true
			if c, ok := s.heap[v.O]; ok {
				walk(c)
			}
		}
		for _, a := range v.A {
			walk(a)
		}
		for _, a := range v.M {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
}

// gc drops objects allocated at or after mark which are reachable neither from the results nor from older objects.
func (s *State) gc(mark int, roots []*Val) {
	seen := map[*Obj]bool{}
	var rs []*Val
	rs = append(rs, roots...)
	for o, v := range s.heap {
		if o.Root || o.Seq < mark {
			rs = append(rs, v)
			seen[o] = true
		}
	}
	for t := s.trace; t != nil; t = t.prev {
		rs = append(rs, t.ev.Args...)
		rs = append(rs, t.ev.Res)
		if t.ev.Blk != nil {
			rs = append(rs, vPtr(t.ev.Blk))
		}
	}
	for _, a := range s.attrs {
		rs = append(rs, a)
	}
	reach(s, rs, seen)
	for o := range s.heap {
		if !seen[o] && !o.Root && o.Seq >= mark {
			delete(s.heap, o)
		}
	}
}

func (s *State) stateKey() string {
	ids := make([]string, 0, len(s.heap))
	for o, v := range s.heap {
		ids = append(ids, o.ID+"="+v.Key())
	}
	sort.Strings(ids)
	at := make([]string, 0, len(s.attrs))
	for k, v := range s.attrs {
		at = append(at, k+"="+v.Key())
	}
	sort.Strings(at)
	return hash(strings.Join(ids, "\n") + "#" + strings.Join(at, "\n") + "#" + s.trace.Key())
}
