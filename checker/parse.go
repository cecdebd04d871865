package main

// Scenarios for the parser: token sequences of the language's constructs are handed to the parser's entry point and every path
// through it is followed; the trees it can return are compared with what the language's grammar says.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ParseAnchors struct {
	newFn, parse *ssa.Function
	parserT      types.Type // *parser.Parser
	lexerT       types.Type // *lexer.Lexer
	tokenT       types.Type
	problem      string
}

func (w *World) parseAnchors() *ParseAnchors {
	r := &ParseAnchors{parserT: w.ptrTyp("internals/parser", "Parser"), lexerT: w.ptrTyp("internals/lexer", "Lexer"), tokenT: w.typ("internals/token", "Token")}
	progT := w.ptrTyp("internals/ast", "Program")
	sp := w.ssaPkg("internals/parser")
	if r.parserT == nil || r.lexerT == nil || r.tokenT == nil || progT == nil || sp == nil {
		r.problem = "the parser, the lexer, the tokens or the program"
		return r
	}
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if ok && token.IsExported(f.Name()) && f.Signature.Params().Len() == 1 && types.Identical(f.Signature.Params().At(0).Type(), r.lexerT) && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), r.parserT) {
			r.newFn = f
		}
	}
	for _, f := range w.methods(r.parserT) {
		s := f.Signature
		if token.IsExported(f.Name()) && s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), progT) {
			r.parse = f
		}
	}
	switch {
	case r.newFn == nil:
		r.problem = "the constructor of the parser"
	case r.parse == nil:
		r.problem = "the entry point of the parser"
	case fieldIndex(elemOf(r.parserT), "Errors") < 0:
		r.problem = "the errors of the parser"
	case fieldIndex(elemOf(r.parserT), "ID") < 0:
		r.problem = "the name of the module in the parser"
	}
	return r
}

// ptok is a token of the language: the name of its kind, and its text.
type ptok struct{ kind, text string }

var tokenKinds = map[string]string{
	"@": "AT", "||": "OR", "&&": "AND", "&": "ANDBIN", "|": "ORBIN", "^": "XORBIN", ",": "COMMA", "+": "PLUS", "-": "MINUS", "!": "BANG", "*": "ASTERISK", "/": "SLASH",
	"<": "LT", "<<": "LS", ">>": "RS", ">": "GT", "==": "EQ", "!=": "NOTEQ", "<=": "LTE", ">=": "GTE", ".": "DOT", "..": "DOUBLE_DOT", "++": "DOUBLE_PLUS", "--": "DOUBLE_MINUS", "%": "MODULO",
	"(": "LPAREN", ")": "RPAREN", "{": "LBRACE", "}": "RBRACE", "[": "LBRACKET", "]": "RBRACKET", ";": "SEMICOLON", ":": "COLON", "=": "ASSIGN",
	"type": "TYPE", "pub": "PUBLIC", "union": "UNION", "struct": "STRUCT", "func": "FUNCTION", "if": "IF", "else": "ELSE", "return": "RETURN", "import": "IMPORT", "for": "FOR", "break": "BREAK",
	"continue": "CONTINUE", "extern": "EXTERN", "as": "AS", "#if": "MACRO_IF", "switch": "SWITCH", "case": "CASE", "default": "DEFAULT", "const": "CONST", "$": "ILLEGAL", "true": "TRUE", "false": "FALSE",
}

// toks splits a text whose tokens are separated by blanks.
func toks(src string) []ptok {
	var r []ptok
	for _, w := range strings.Fields(src) {
		k, ok := tokenKinds[w]
		t := w
		switch {
		case ok:
		case w[0] == '"':
			k, t = "STRING", strings.Trim(w, "\"")
		case w[0] == '\'':
			k, t = "CHAR", w[1:2]
		case strings.HasPrefix(w, "0x"):
			k = "HEX"
		case strings.HasPrefix(w, "0b"):
			k = "BINARY"
		case w[0] >= '0' && w[0] <= '9':
			k = "INT"
			if strings.Contains(w, ".") {
				k = "FLOAT"
			}
		default:
			k = "IDENT"
		}
		r = append(r, ptok{k, t})
	}
	return r
}

type PScen struct {
	in     *Interp
	st     *State
	pa     *ParseAnchors
	p      *Val // the parser
	lex    *Val
	pos    *Val // place of the number of tokens read so far
	script []ptok
	opName map[int64]string
	bad    string
	todo   *Obj // the type left open
}

func (s *PScen) hook(c *CallCtx) ([]Outcome, bool) {
	st := c.st
	if c.fn == nil {
		if strings.HasSuffix(c.name, ".String") && len(c.args) == 1 {
			return single(st, vSym("text", types.Typ[types.String])), true
		}
		return nil, false
	}
	sig := c.fn.Signature
	res := func(t types.Type) bool {
		return sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), t)
	}
	if sig.Recv() != nil && types.Identical(sig.Recv().Type(), s.pa.lexerT) && (c.caller == nil || fnPkg(c.caller) != fnPkg(c.fn)) {
		if res(s.pa.tokenT) && sig.Params().Len() == 0 {
			n, _ := st.load(s.pos).intConst()
			t := ptok{"EOF", ""}
			if int(n) < len(s.script) {
				t = s.script[n]
			}
			st.store(s.pos, vInt(n+1))
			return single(st, s.tokenVal(t)), true
		}
		return single(st, vSym("of the lexer", c.rt)), true
	}
	if p := fnPkg(c.fn); p != nil {
		switch {
		case strings.HasSuffix(p.Path(), "/internals/parser") && res(types.Typ[types.String]) && sig.Recv() != nil && sig.Params().Len() == 0:
			return single(st, vSym("text", types.Typ[types.String])), true
		case strings.HasSuffix(p.Path(), "/pkg/random"):
			return single(st, vStr("id")), true
		case c.fn.Name() == "String" && (strings.HasSuffix(p.Path(), "/internals/ast") || strings.HasSuffix(p.Path(), "/internals/ctypes")):
			return single(st, vSym("text", types.Typ[types.String])), true
		}
	}
	return nil, false
}

func (s *PScen) tokenVal(t ptok) *Val {
	v := zeroVal(s.pa.tokenT)
	sp := s.in.w.byPath[modPath+"/internals/token"].Types.Scope()
	c, ok := sp.Lookup(t.kind).(*types.Const)
	if !ok {
		s.bad = "no kind of token " + t.kind
		return v
	}
	v = setPath(v, []int{fieldIndex(s.pa.tokenT, "Type")}, vConst(c.Val(), c.Type()))
	v = setPath(v, []int{fieldIndex(s.pa.tokenT, "Literal")}, vStr(t.text))
	return v
}

func NewParse(w *World, pa *ParseAnchors, script []ptok) *PScen {
	in := NewInterp(w)
	s := &PScen{in: in, pa: pa, st: newState(w.globalHeap), script: script, opName: map[int64]string{}}
	in.hooks = []Hook{s.hook, modelHook}
	sp := w.byPath[modPath+"/internals/ops"].Types.Scope()
	opT := w.typ("internals/ops", "Operation")
	for _, n := range sp.Names() {
		if c, ok := sp.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), opT) {
			if i, ok := constant.Int64Val(c.Val()); ok {
				s.opName[i] = n
			}
		}
	}
	if f := w.fn("internals/ctypes", "TODO"); f != nil {
		if o := in.Call(f, nil, nil, s.st, "todo", 0); len(o) == 1 && o[0].Kind == ORet {
			if t := o[0].St.norm(o[0].Res); t.K == KIface && t.inner().K == KPtr {
				s.todo = t.inner().O
			}
		}
	}
	s.pos = in.newObj(s.st, "tokens read", types.Typ[types.Int])
	s.st.store(s.pos, vInt(0))
	s.lex = in.newObj(s.st, "lexer", elemOf(pa.lexerT))
	outs := in.Call(pa.newFn, []*Val{s.lex}, nil, s.st, "new", 0)
	if len(outs) != 1 || outs[0].Kind != ORet {
		s.bad = "the constructor of the parser has no single result"
		return s
	}
	s.st = outs[0].St
	s.p = s.st.norm(outs[0].Res)
	in.setField(s.st, s.p, "ID", vStr("id"))
	s.st.trace = nil
	return s
}

type parsed struct {
	o     Outcome
	what  string // accepted, rejected, or what went wrong
	stmts []string
}

func (s *PScen) run() []parsed {
	var r []parsed
	if s.bad != "" {
		return nil
	}
	for _, o := range s.in.Call(s.pa.parse, []*Val{s.p}, nil, s.st, "parse", 0) {
		p := parsed{o: o}
		switch o.Kind {
		case OPanic:
			p.what = "crash: " + o.Msg
		case OExit:
			p.what = "rejected"
		case OStop:
			p.what = "stopped: " + o.Msg
		default:
			v := s.in.field(o.St, s.p, "Errors")
			p.what = "rejected"
			if v != nil && v.K == KSlice && v.N == 0 && v.S == "" || v != nil && v.K == KNil {
				p.what = "accepted"
			}
			es, _ := s.in.elems(o.St, s.in.field(o.St, o.Res, "Statements"))
			for _, e := range es {
				p.stmts = append(p.stmts, s.show(o.St, e, 0))
			}
		}
		r = append(r, p)
	}
	return r
}

// N writes down a node as show does.
func N(name string, kv ...string) string {
	var l []string
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] != "" {
			l = append(l, kv[i]+":"+kv[i+1])
		}
	}
	sort.Strings(l)
	return name + "{" + strings.Join(l, " ") + "}"
}

func list(l ...string) string {
	if len(l) == 0 {
		return ""
	}
	return "[" + strings.Join(l, ", ") + "]"
}

// typed nodes are shown with their type
var showsType = map[string]bool{"Integer": true, "Float": true, "StringLiteral": true, "ArrayLiteral": true, "ExpressionBlock": true}

// show writes a tree: the names of its nodes with their fields, without those that are empty, and without positions.
func (s *PScen) show(st *State, v *Val, d int) string {
	if v == nil || d > 80 {
		return "..."
	}
	v = st.norm(v)
	switch v.K {
	case KNil:
		return ""
	case KIface:
		return s.show(st, v.inner(), d+1)
	case KConst:
		switch v.C.Kind() {
		case constant.String:
			return constant.StringVal(v.C)
		case constant.Bool:
			if !constant.BoolVal(v.C) {
				return ""
			}
		case constant.Int:
			if n, ok := v.T.(*types.Named); ok && n.Obj().Name() == "Operation" {
				i, _ := v.intConst()
				return s.opName[i]
			}
		}
		return v.C.ExactString()
	case KSlice:
		es, ok := s.in.elems(st, v)
		if !ok {
			return v.Key()
		}
		var l []string
		for _, e := range es {
			x := s.show(st, e, d+1)
			if x == "" {
				x = "nothing"
			}
			l = append(l, x)
		}
		return list(l...)
	case KPtr:
		if nt, ok := v.O.T.(*types.Named); ok && len(v.Path) == 0 {
			return s.showNode(st, nt, st.load(v), d)
		}
		return v.Key()
	case KStruct:
		if nt, ok := v.T.(*types.Named); ok {
			return s.showNode(st, nt, v, d)
		}
	}
	return v.Key()
}

func (s *PScen) showNode(st *State, nt *types.Named, v *Val, d int) string {
	stt, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return v.Key()
	}
	isType := func(t types.Type) bool {
		return isIface(t) && strings.HasSuffix(t.String(), "internals/ctypes.Type")
	}
	var l []string
	var fields func(stt *types.Struct, v *Val, only string)
	fields = func(stt *types.Struct, v *Val, only string) {
		v = expand(st.norm(v))
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			x := st.norm(component(v, i))
			switch {
			case only != "" && f.Name() != only || strings.HasSuffix(f.Type().String(), "/internals/token.Token"):
			case strings.HasSuffix(f.Type().String(), "/internals/node.Node"):
				if showsType[nt.Obj().Name()] && x.K == KPtr {
					fields(elemOf(f.Type()).Underlying().(*types.Struct), st.load(x), "Type")
				}
			case isType(f.Type()):
				t := s.typeText(st, x, 0)
				if nt.Obj().Name() == "ExternStatement" {
					t = s.show(st, x, d+1)
				}
				l = append(l, f.Name(), t)
			case strings.HasSuffix(f.Type().String(), "internals/ctypes.Type") && x.K == KSlice:
				es, _ := s.in.elems(st, x)
				var ts []string
				for _, e := range es {
					ts = append(ts, s.typeText(st, e, 0))
				}
				l = append(l, f.Name(), list(ts...))
			default:
				l = append(l, f.Name(), s.show(st, x, d+1))
			}
		}
	}
	fields(stt, v, "")
	return N(nt.Obj().Name(), l...)
}

// typeText writes a type as the language does; "?" is a type that is left open.
func (s *PScen) typeText(st *State, v *Val, d int) string {
	v = st.norm(v)
	if v.K == KNil {
		return ""
	}
	if v.K == KPtr && v.O.T != nil {
		v = vIface(types.NewPointer(v.O.T), v)
	}
	if v.K != KIface || d > 8 {
		return v.Key()
	}
	f := func(n string) *Val { return st.norm(s.in.field(st, v, n)) }
	lst := func(v *Val) string {
		es, _ := s.in.elems(st, v)
		var l []string
		for _, e := range es {
			l = append(l, s.typeText(st, e, d+1))
		}
		return strings.Join(l, ", ")
	}
	switch shortType(v.T) {
	case "*ctypes.Integer":
		return "i" + f("BitSize").Key()
	case "*ctypes.UInteger":
		return "u" + f("BitSize").Key()
	case "*ctypes.Float":
		return "f" + f("BitSize").Key()
	case "*ctypes.Void":
		return "void"
	case "*ctypes.Pointer":
		return "*" + s.typeText(st, f("Inner"), d+1)
	case "*ctypes.Array":
		return "[" + f("Length").Key() + "]" + s.typeText(st, f("Inner"), d+1)
	case "*ctypes.TypeList":
		return "(" + lst(f("Types")) + ")"
	case "*ctypes.Function":
		more := ""
		if s.show(st, f("InfiniteParameters"), 0) != "" {
			more = " .."
		}
		return "func(" + lst(f("Parameters")) + more + ") " + s.typeText(st, f("Return"), d+1)
	case "*ctypes.Anonymous":
		if v.inner().K == KPtr && v.inner().O == s.todo {
			return "?"
		}
		n := s.show(st, f("Name"), 0)
		if m := s.show(st, f("Modules"), 0); m != "" {
			n = m + "." + n
		}
		return n
	case "*ctypes.Struct", "*ctypes.Union":
		return s.show(st, f("Name"), 0)
	}
	return v.Key()
}
