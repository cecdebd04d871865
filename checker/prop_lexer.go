package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- what the language says about its tokens -------------------------------------------------------------------

type ltok struct {
	kind, lit string
	line      int
	hasLit    bool
}

var lexKeywords = map[string]string{"func": "FUNCTION", "pub": "PUBLIC", "true": "TRUE", "false": "FALSE", "if": "IF", "else": "ELSE", "for": "FOR", "return": "RETURN", "struct": "STRUCT", "import": "IMPORT",
	"break": "BREAK", "extern": "EXTERN", "continue": "CONTINUE", "type": "TYPE", "as": "AS", "union": "UNION", "switch": "SWITCH", "case": "CASE", "default": "DEFAULT", "const": "CONST"}

var lexOps = func() map[string]string {
	m := map[string]string{}
	for t, k := range tokenKinds {
		if strings.IndexFunc(t, func(r rune) bool { return r >= 'a' && r <= 'z' || r == '$' }) < 0 {
			m[t] = k
		}
	}
	return m
}()

// lexOracle reads a text up to its end or the first thing that is no token.
func lexOracle(s []byte) []ltok {
	var r []ltok
	line, i := 1, 0
	letter := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	at := func(j int) byte {
		if j < len(s) {
			return s[j]
		}
		return 0
	}
	for {
		for i < len(s) {
			if s[i] == '\n' {
				line++
				i++
			} else if s[i] == ' ' || s[i] == '\t' || s[i] == '\r' {
				i++
			} else if s[i] == '/' && at(i+1) == '/' {
				for i < len(s) && s[i] != '\n' {
					i++
				}
			} else {
				break
			}
		}
		start := line
		put := func(kind, lit string, has bool) { r = append(r, ltok{kind, lit, start, has}) }
		if i >= len(s) {
			put("EOF", "", false)
			return r
		}
		c := s[i]
		j := i
		switch {
		case letter(c):
			for j < len(s) && (letter(s[j]) || digit(s[j])) {
				j++
			}
			w := string(s[i:j])
			if k, ok := lexKeywords[w]; ok {
				put(k, w, true)
			} else {
				put("IDENT", w, true)
			}
		case c == '0' && at(i+1) == 'x':
			for j += 2; j < len(s) && (digit(s[j]) || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F'); j++ {
			}
			put("HEX", string(s[i:j]), true)
		case c == '0' && at(i+1) == 'b':
			for j += 2; j < len(s) && (s[j] == '0' || s[j] == '1'); j++ {
			}
			put("BINARY", string(s[i:j]), true)
		case digit(c):
			k := "INT"
			for j < len(s) && digit(s[j]) {
				j++
			}
			if at(j) == '.' && digit(at(j+1)) {
				k = "FLOAT"
				for j++; j < len(s) && digit(s[j]); j++ {
				}
			}
			put(k, string(s[i:j]), true)
		case c == '\'':
			var v byte
			j++
			if at(j) == '\\' {
				v = at(j + 1)
				if e, ok := map[byte]byte{'n': '\n', 't': '\t', 'r': '\r'}[v]; ok {
					v = e
				}
				j += 2
			} else {
				v = at(j)
				j++
			}
			if j >= len(s) || s[j] != '\'' {
				put("ILLEGAL", "", false)
				return r
			}
			j++
			put("CHAR", string([]byte{v}), true)
		case c == '"':
			var v []byte
			for j++; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					if s[j] == 'n' {
						v = append(v, '\n')
						continue
					}
				}
				v = append(v, s[j])
			}
			if j >= len(s) {
				put("ILLEGAL", "", false)
				return r
			}
			j++
			put("STRING", string(v), true)
		case c == '#':
			for j++; j < len(s) && (letter(s[j]) || digit(s[j])); j++ {
			}
			if string(s[i:j]) != "#if" {
				put("ILLEGAL", "", false)
				return r
			}
			put("MACRO_IF", "", false)
		default:
			k, ok := "", false
			if i+1 < len(s) {
				if k, ok = lexOps[string(s[i:i+2])]; ok {
					j = i + 2
				}
			}
			if !ok {
				if k, ok = lexOps[string(s[i:i+1])]; ok {
					j = i + 1
				}
			}
			if !ok {
				put("ILLEGAL", "", false)
				return r
			}
			put(k, "", false)
		}
		line += strings.Count(string(s[i:j]), "\n")
		i = j
	}
}

// ---- the lexer of the source -----------------------------------------------------------------------------------

type lexScen struct {
	in    *Interp
	w     *World
	newFn *ssa.Function
	next  *ssa.Function
	show  *ssa.Function
	pa    *ParseAnchors
	kinds map[string]string // value of a kind, its name
	bad   string
}

func newLexScen(w *World, pa *ParseAnchors) *lexScen {
	l := &lexScen{w: w, pa: pa, kinds: map[string]string{}}
	sp := w.ssaPkg("internals/lexer")
	if sp == nil {
		l.bad = "the lexer"
		return l
	}
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if ok && token.IsExported(f.Name()) && f.Signature.Params().Len() == 1 && isStr(f.Signature.Params().At(0).Type()) && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), pa.lexerT) {
			l.newFn = f
		}
	}
	for _, f := range w.methods(pa.lexerT) {
		s := f.Signature
		if !token.IsExported(f.Name()) || s.Results().Len() != 1 {
			continue
		}
		if s.Params().Len() == 0 && types.Identical(s.Results().At(0).Type(), pa.tokenT) {
			l.next = f
		}
		if s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), pa.tokenT) && isStr(s.Results().At(0).Type()) {
			l.show = f
		}
	}
	if l.newFn == nil || l.next == nil {
		l.bad = "the constructor or the tokens of the lexer"
		return l
	}
	kindT := pa.tokenT.Underlying().(*types.Struct).Field(fieldIndex(pa.tokenT, "Type")).Type()
	tp := w.byPath[modPath+"/internals/token"].Types.Scope()
	for _, n := range tp.Names() {
		if c, ok := tp.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), kindT) {
			l.kinds[c.Val().ExactString()] = n
		}
	}
	for _, k := range tokenKinds {
		found := false
		for _, n := range l.kinds {
			if n == k {
				found = true
			}
		}
		if !found {
			l.bad = "the kind " + k + " of tokens"
		}
	}
	return l
}

type lexPath struct {
	st   *State
	toks []*Val
	kind OutKind
	msg  string
	pos  token.Pos
}

// read follows the lexer over a text until it reports the end or something illegal. A ? stands for any byte.
func (l *lexScen) read(pattern string, show bool) (paths []*lexPath, syms []string) {
	in := NewInterp(l.w)
	l.in = in
	in.texts, in.mergeFacts = true, false
	in.maxUndec, in.maxOuts, in.maxSteps = 1000, 200000, 400000000
	in.hooks = []Hook{modelHook}
	st := newState(l.w.globalHeap)
	var bs []*Val
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '?' {
			n := fmt.Sprintf("%s%d", bytePrefix, len(syms))
			syms = append(syms, n)
			bs = append(bs, vSym(n, types.Typ[types.Byte]))
		} else {
			bs = append(bs, vConst(constant.MakeInt64(int64(pattern[i])), types.Typ[types.Byte]))
		}
	}
	ti := fieldIndex(l.pa.tokenT, "Type")
	var work []*lexPath
	var lexer *Val
	for _, o := range in.Call(l.newFn, []*Val{vText(bs, types.Typ[types.String])}, nil, st, "new", 0) {
		p := &lexPath{st: o.St, kind: o.Kind, msg: o.Msg, pos: o.Pos}
		if o.Kind != ORet {
			paths = append(paths, p)
			continue
		}
		lexer = o.Res
		work = append(work, p)
	}
	for n := 0; len(work) > 0; n++ {
		var later []*lexPath
		for _, p := range work {
			for _, o := range in.Call(l.next, []*Val{lexer}, nil, p.st.clone(), fmt.Sprintf("token %d", n), 0) {
				q := &lexPath{st: o.St, kind: o.Kind, msg: o.Msg, pos: o.Pos, toks: append(append([]*Val(nil), p.toks...), o.Res)}
				if o.Kind != ORet {
					q.toks = p.toks
					paths = append(paths, q)
					continue
				}
				if show && l.show != nil {
					for _, so := range in.Call(l.show, []*Val{lexer, o.Res}, nil, o.St.clone(), fmt.Sprintf("line %d", n), 0) {
						if so.Kind != ORet {
							paths = append(paths, &lexPath{st: so.St, kind: so.Kind, msg: "showing the line: " + so.Msg, pos: so.Pos, toks: p.toks})
						}
					}
				}
				k := component(expand(o.Res), ti)
				name := ""
				if k.K == KConst {
					name = l.kinds[k.C.ExactString()]
				}
				if name == "EOF" || name == "ILLEGAL" || len(q.toks) > len(pattern)+1 {
					paths = append(paths, q)
				} else {
					later = append(later, q)
				}
			}
		}
		work = later
		if in.budgetHit {
			break
		}
	}
	return paths, syms
}

func showBytes(b []byte) string { return fmt.Sprintf("%q", b) }

// check compares the tokens of every path with those of every text that takes it.
func (l *lexScen) check(r *Report, group, pattern string, show bool) {
	paths, syms := l.read(pattern, show)
	r.Analysed(l.in)
	if l.in.budgetHit {
		return
	}
	ti, li, ni := fieldIndex(l.pa.tokenT, "Type"), fieldIndex(l.pa.tokenT, "Literal"), fieldIndex(l.pa.tokenT, "Line")
	name := fmt.Sprintf("%q", pattern)
	text := []byte(pattern)
	var at []int
	for i := range text {
		if text[i] == '?' {
			at = append(at, i)
		}
	}
	bad := map[string]bool{}
	fail := func(rule, what string, pos token.Pos, f string, a ...any) {
		if !bad[rule+what] {
			bad[rule+what] = true
			r.Ob(false, rule, group+": "+name+" "+what, pos, f, a...)
		}
	}
	total, want := 0, 1
	for range syms {
		want *= 256
	}
	for _, p := range paths {
		if len(p.st.path) > 0 {
			r.Ob(false, "budget", group+" "+name, 0, "a path depends on more than the text: %s", p.st.path[0])
			continue
		}
		sets := make([][]int, len(syms))
		for i, s := range syms {
			sets[i] = p.st.byteSet(s).list()
		}
		env := map[string]int{}
		var each func(i int, do func())
		each = func(i int, do func()) {
			if i == len(syms) {
				for _, c := range p.st.conds {
					v, ok := evalBytes(c, env)
					if !ok {
						return
					}
					if !constant.BoolVal(v) {
						return
					}
				}
				do()
				return
			}
			for _, b := range sets[i] {
				env[syms[i]] = b
				text[at[i]] = byte(b)
				each(i+1, do)
			}
		}
		if p.kind != ORet {
			each(0, func() {
				total++
				fail("reading never crashes", "", p.pos, "the text %s makes the lexer fail: %s", showBytes(text), p.msg)
			})
			continue
		}
		// the parts of the tokens
		type part struct{ kind, lit, line *Val }
		var ps []part
		for _, t := range p.toks {
			t = expand(t)
			ps = append(ps, part{p.st.norm(component(t, ti)), p.st.norm(component(t, li)), p.st.norm(component(t, ni))})
		}
		each(0, func() {
			total++
			exp := lexOracle(text)
			for i, e := range exp {
				if i >= len(ps) {
					fail("every token is read", "", l.next.Pos(), "in %s there is no token after %d, but there should be a %s", showBytes(text), i, e.kind)
					return
				}
				k, ok := evalBytes(ps[i].kind, env)
				if !ok {
					r.Ob(false, "budget", group+" "+name, 0, "the kind of a token is %s", ps[i].kind.Key())
					return
				}
				if got := l.kinds[k.ExactString()]; got != e.kind {
					fail("every token is read as what it is", "", l.next.Pos(), "in %s the token %d is read as %s instead of %s", showBytes(text), i+1, got, e.kind)
					return
				}
				if e.hasLit {
					v, ok := evalBytes(ps[i].lit, env)
					if !ok {
						r.Ob(false, "budget", group+" "+name, 0, "the text of a token is %s", ps[i].lit.Key())
						return
					}
					if got := constant.StringVal(v); got != e.lit {
						fail("every token has its text", "", l.next.Pos(), "in %s the token %d has the text %q instead of %q", showBytes(text), i+1, got, e.lit)
						return
					}
				}
				v, ok := evalBytes(ps[i].line, env)
				if !ok {
					r.Ob(false, "budget", group+" "+name, 0, "the line of a token is %s", ps[i].line.Key())
					return
				}
				if n, _ := constant.Int64Val(v); n != int64(e.line) && e.kind != "ILLEGAL" {
					fail("every token has its line", "", l.next.Pos(), "in %s the token %d is on line %d instead of %d", showBytes(text), i+1, n, e.line)
					return
				}
			}
			if len(ps) > len(exp) {
				fail("every token is read", "", l.next.Pos(), "in %s there are %d tokens instead of %d", showBytes(text), len(ps), len(exp))
			}
		})
	}
	if total < want && len(bad) == 0 {
		r.Ob(false, "budget", group+" "+name, 0, "%d of %d texts are on no path", want-total, want)
		return
	}
	for _, rule := range []string{"every token is read", "every token is read as what it is", "every token has its text", "every token has its line", "reading never crashes"} {
		if len(bad) == 0 {
			r.Ob(true, rule, group+": "+name, l.next.Pos(), "")
		}
	}
	dbg("%s %s: %d paths, %d texts, %v", group, name, len(paths), total, time.Since(r.started))
}

func init() {
	register(&Prop{id: "C27",
		explanation: "Texts with unknown bytes are followed through the lexer on every path; each path carries the set of bytes that takes it, and its tokens are compared with those that the language's rules give for every text of the set.",
		rules:       []string{"every token is read as what it is", "every token has its text and its line", "what is no token is reported", "reading and showing lines never crashes"},
		run: func(w *World, a *Anchors, r *Report) {
			pa := w.parseAnchors()
			if pa.problem != "" {
				r.Ob(false, "anchors", pa.problem, 0, "not found")
				return
			}
			l := newLexScen(w, pa)
			if l.bad != "" {
				r.Ob(false, "anchors", l.bad, 0, "not found")
				return
			}
			type pat struct{ g, p string }
			var ps []pat
			add := func(g string, l ...string) {
				for _, p := range l {
					ps = append(ps, pat{g, p})
				}
			}
			add("any text", "", "?", "??", "?? z", "z ??", "a??", "a?b", "\n?\n?", " ?\t?z")
			add("numbers", "1??", "10?", "0??", "0x??", "0xA?F?", "0b??", "0b1?0", "1.??", "12.5??", "1?2?3", "00?", "99999999999999999999?")
			add("strings", `"??"`, `"\??"`, `"a??`, `"??" z`, `"a\?b" "?"`, `"?\`, "\"a\nb\"?\n?", "\"\\\n?\" ?z", `"?`)
			add("characters", `'??`, `'\??`, `'??'`, `'\?'?`, `'?' z`, `''?`, `'?`, `'`, `'\`, `'\?`, "'\n' ?z")
			add("comments", "//??", "//??\nz", "z//?\n?", "//\n//?\n?z", "/?/z", "//?", "//")
			add("targets", "#??", "#i??", "#if?", "#if? ?", "#?f", "#")
			add("operators", "=??", "<??", ">??", "&??", "|??", "+??", "-??", ".??", "!??", "a?=?b", "1-?1", "1.?.2")
			var kw []string
			for k := range lexKeywords {
				kw = append(kw, k)
			}
			sort.Strings(kw)
			for _, k := range kw {
				add("keywords", k+"?", "?"+k, k[:len(k)-1]+"?", "?"+k[1:], k[:1]+"?"+k[2:], " "+k+" "+k+"?")
			}
			if r.thorough {
				add("any text", "???", "a???", "?a??")
				add("numbers", "0???", "1???")
				add("strings", `"???"`, `"???`)
				add("characters", `'???`)
				add("comments", "/???", "//???")
				add("targets", "#???")
			}
			for _, p := range ps {
				l.check(r, p.g, p.p, len(p.p) < 6)
			}
		}})
}
