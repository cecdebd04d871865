package main

import (
	"fmt"
	"strings"
)

// ---- texts that aren't programs --------------------------------------------------------------------------------

// pReject parses texts that have to be rejected.
func pReject(w *World, pa *ParseAnchors, r *Report, rule, name string, script []ptok, text string) {
	s := NewParse(w, pa, script)
	if s.bad != "" {
		r.Ob(false, "anchors", s.bad, 0, "not found")
		return
	}
	outs := s.run()
	r.Analysed(s.in)
	if s.in.budgetHit {
		return
	}
	for _, o := range outs {
		d := o.what
		if o.what == "accepted" {
			d = "accepted as\n      " + strings.Join(o.stmts, "\n      ")
		}
		r.Ob(o.what == "rejected", rule, name, lastPos(o.o), "%s is %s", text, d)
	}
}

// pSurvive parses texts that may or may not be programs: they mustn't crash the parser, nor leave holes in the tree.
func pSurvive(w *World, pa *ParseAnchors, r *Report, rule, name string, script []ptok, text string) {
	s := NewParse(w, pa, script)
	if s.bad != "" {
		r.Ob(false, "anchors", s.bad, 0, "not found")
		return
	}
	outs := s.run()
	r.Analysed(s.in)
	if s.in.budgetHit {
		return
	}
	for _, o := range outs {
		ok := o.what == "rejected" || o.what == "accepted"
		d := o.what
		if o.what == "accepted" {
			for _, x := range o.stmts {
				if x == "" || strings.Contains(x, "nothing") {
					ok, d = false, "accepted, but has a hole: "+x
				}
				for _, n := range needed {
					for rest := x; ; {
						i := strings.Index(rest, n.node+"{")
						if i < 0 {
							break
						}
						whole := i == 0 || !strings.Contains("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", rest[i-1:i])
						rest = rest[i+len(n.node)+1:]
						if whole && !hasField(rest, n.field) {
							ok, d = false, "accepted, but "+n.node+" has no "+n.field+": "+x
						}
					}
				}
			}
		}
		r.Ob(ok, rule, name, lastPos(o.o), "%s is %s", text, d)
	}
}

// the parts no node can be without
var needed = []struct{ node, field string }{
	{"DeclarationStatement", "Expression"}, {"DeclarationStatement", "Type"}, {"DeclarationStatement", "Name"}, {"AssignmentStatement", "Left"}, {"AssignmentStatement", "Expression"},
	{"ExpressionStatement", "Expression"}, {"BinaryOperation", "Left"}, {"BinaryOperation", "Right"}, {"PrefixOperation", "Right"}, {"IndexAccess", "Left"}, {"IndexAccess", "Access"},
	{"Call", "Left"}, {"IfStatement", "Condition"}, {"IfStatement", "Block"}, {"ForStatement", "Block"}, {"SwitchStatement", "Condition"}, {"CaseStatement", "Case"}, {"CaseStatement", "Block"},
	{"ConditionPlusBlock", "Condition"}, {"ConditionPlusBlock", "Block"}, {"FunctionDeclarationStatement", "Block"}, {"AnonymousFunction", "Block"}, {"ExpressionBlock", "Block"}, {"ExpressionBlock", "Type"},
	{"MultipleDeclarationStatement", "Expression"}, {"MultipleDeclarationStatement", "Type"}, {"TypeDefinition", "Type"}, {"TypeDefinition", "Name"}, {"ImportStatement", "Path"}, {"ArrayLiteral", "Type"},
	{"StructValue", "Expression"}, {"StructValue", "Name"}, {"StructLiteral", "Name"}, {"StructStatement", "Type"}, {"UnionStatement", "Type"}, {"ExternStatement", "Type"},
}

// hasField tells whether a node, whose text follows its opening brace, has the field.
func hasField(s, field string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{', '[', '(':
			d++
		case '}', ']', ')':
			d--
			if d < 0 {
				return false
			}
		}
		if d == 0 && strings.HasPrefix(s[i:], field+":") && (i == 0 || s[i-1] == ' ') {
			return true
		}
	}
	return false
}

func textOf(l []ptok) string {
	var s []string
	for _, t := range l {
		x := t.text
		switch t.kind {
		case "STRING":
			x = "\"" + x + "\""
		case "CHAR":
			x = "'" + x + "'"
		case "ILLEGAL":
			x = "$"
		}
		s = append(s, x)
	}
	return strings.Join(s, " ")
}

var opening = map[string]string{"(": ")", "[": "]", "{": "}"}

// depth is the number of brackets that are open before each token.
func depth(l []ptok) []int {
	r := make([]int, len(l)+1)
	d := 0
	for i, t := range l {
		r[i] = d
		switch t.text {
		case "(", "[", "{":
			d++
		case ")", "]", "}":
			d--
		}
	}
	r[len(l)] = d
	return r
}

// pWrong are texts that lack something.
var pWrong = []struct{ name, src string }{
	{"no value in a declaration", "v : i8 = ;"}, {"no value in a declaration without a type", "v : = ;"}, {"no equals sign in a declaration", "v : i8 x ;"}, {"no equals sign and no type", "v : x ;"}, {"no value at all", "v : i8 ;"},
	{"no type and no value", "v : ;"}, {"no value in a constant", "const v : i8 = ;"}, {"constant without a value", "const v : i8 ;"}, {"constant without a colon", "const v = x ;"}, {"constant without a name", "const : i8 = x ;"},
	{"no name after const", "const 3 : i8 = x ;"}, {"no value in an assignment", "v = ;"}, {"no place in an assignment", "= x ;"}, {"two equals signs", "v = = x ;"}, {"assignment in an assignment", "a = b = c ;"},
	{"assignment to a sum", "a + b = c ;"}, {"assignment to a call", "f ( ) = c ;"},
	{"assignment as argument", "f ( a = b ) ;"}, {"assignment as index", "a [ = b ] ;"},
	{"assignment to a conversion", "a as i8 = c ;"},
	{"no name in a list", "a , : i8 = x , y ;"}, {"no name at the start of a list", ", a : i8 = x , y ;"}, {"literal in a list", "a , 3 : i8 = x , y ;"}, {"member in a list", "a . b , c : = x , y ;"}, {"no value at the end of a list", "a , b : = x , ;"},
	{"no name in a list of constants", "const a , : i8 = x , y ;"}, {"no colon in a list of constants", "const a , b i8 = x , y ;"}, {"no value in a list of constants", "const a , b : i8 ;"},
	{"no function name", "func ( ) { }"}, {"no parentheses after a function name", "func f { }"}, {"no type of a parameter", "func f ( a ) { }"}, {"no name of a parameter", "func f ( * i8 ) { }"}, {"no comma between parameters", "func f ( a i8 b i8 ) { }"},
	{"comma at the start of parameters", "func f ( , a i8 ) { }"}, {"literal as a parameter", "func f ( 3 ) { }"}, {"no body", "func f ( )"}, {"no body after a result", "func f ( ) i32"}, {"no body before another function", "func f ( ) ; func g ( ) { }"},
	{"comma at the end of results", "func f ( ) i32 , { }"}, {"number as a function name", "func 3 ( ) { }"}, {"nothing after pub", "pub ;"}, {"pub before a struct", "pub struct S { a i8 }"}, {"pub before a name", "pub x f ( ) { }"}, {"pub before a declaration", "pub x : i8 = 3 ;"},
	{"external struct", "extern struct S { }"}, {"external function without a name", "extern func ( i8 ) i8 ;"}, {"nothing after extern", "extern ;"}, {"external function without parentheses", "extern func f i8 ;"}, {"parameters after ..", "extern func f ( .. , i8 ) i8 ;"},
	{"no comma between types", "extern func f ( i8 i8 ) i8 ;"},
	{"no struct name", "struct { a i8 }"}, {"no type of a member", "struct S { a }"}, {"number as a member", "struct S { 3 i8 }"}, {"no braces after struct", "struct S ;"}, {"no union name", "union { a i8 }"}, {"no type of a member of a union", "union S { a }"},
	{"member without a name", "struct S { * i8 }"},
	{"no name in an import", "import \"p\" ;"}, {"no path in an import", "import m ;"}, {"no path after a comma", "import m , ;"}, {"no comma in an import", "import m \"p\" ;"}, {"no type in an import", "import m , , \"p\" ;"}, {"no path but a type", "import m , i8 ;"}, {"nothing after import", "import ;"},
	{"no type in a type definition", "type T = ;"}, {"no name in a type definition", "type = i8 ;"}, {"more type parameters than the import gives", "type T ;"}, {"nothing after type", "type ;"},
	{"no condition of an if", "if { }"}, {"nothing after if", "if ;"}, {"no body of an if", "if x"}, {"else without if", "else { }"}, {"no condition after else if", "if x { } else if { }"}, {"no body of else", "if x { } else"}, {"else after else", "if x { } else { } else { }"}, {"else if after else", "if x { } else { } else if x { }"},
	{"no condition of a loop", "for i : = x ; ; ++ i { }"}, {"no semicolon after the condition", "for i : = x ; y ++ i { }"}, {"no body of a loop", "for"}, {"list in a loop", "for i , j : = x , y ; z ; ++ i { }"},
	{"no condition of a switch", "switch { case x { } }"}, {"no braces of a switch", "switch x case y { }"}, {"statement in a switch", "switch x { y ; }"}, {"no value of a case", "switch x { case { } }"}, {"no body of a case", "switch x { case y }"}, {"two defaults", "switch x { default { } default { } }"},
	{"case after the default", "switch x { default { } case y { } }"}, {"case without a switch", "case x { }"}, {"default without a switch", "default { }"}, {"no body of the default", "switch x { default }"},
	{"condition of the target that can't be evaluated", "#if x + y { }"}, {"no condition of the target", "#if { }"}, {"unknown name in a condition of the target", "#if NOWHERE { }"}, {"no body of a condition of the target", "#if 1"},
	{"nothing to return in parentheses", "return ( ) ;"}, {"no expression in parentheses", "( ) ;"}, {"no operand on the right", "a + ;"}, {"no operand on the left", "/ a ;"}, {"two operands", "( a b ) ;"}, {"two operators", "a * / b ;"},
	{"increment after a variable", "a ++ ;"}, {"decrement after a variable", "a -- ;"}, {"increment after a member", "a . b ++ ;"}, {"increment of nothing", "++ ;"}, {"negation of nothing", "! ;"}, {"reference to nothing", "& ;"},
	{"no comma between arguments", "f ( a b ) ;"}, {"no argument between commas", "f ( a , , b ) ;"}, {"no argument before a comma", "f ( , a ) ;"}, {"no argument after a comma", "f ( a , ) ;"}, {"semicolon between arguments", "f ( a ; b ) ;"},
	{"no index", "a [ ] ;"}, {"two indices", "a [ b c ] ;"}, {"no member", "a . ;"}, {"no type after as", "a as ;"}, {"literal after as", "a as 3 ;"},
	{"no name after @", "@ ;"}, {"no parentheses after a built-in", "@ print ;"}, {"no comma between built-in arguments", "@ print ( a b ) ;"}, {"no argument after a comma of a built-in", "@ print ( a , ) ;"}, {"cast without a type", "@ cast ( , x ) ;"}, {"cast without a value", "@ cast ( i8 ) ;"}, {"cast without a value after a comma", "@ cast ( i8 , ) ;"},
	{"cast of two values", "@ cast ( i8 , x , y ) ;"}, {"cast of nothing", "@ cast ( ) ;"}, {"sizeof of nothing", "@ sizeof ( ) ;"}, {"sizeof of two types", "@ sizeof ( i8 , i8 ) ;"}, {"alloc without a count", "@ alloc ( i8 ) ;"}, {"realloc of one value", "@ realloc ( x ) ;"}, {"realloc of three values", "@ realloc ( x , y , z ) ;"},
	{"free of nothing", "@ free ( ) ;"}, {"free of two values", "@ free ( x , y ) ;"}, {"unreachable with a value", "@ unreachable ( x ) ;"}, {"literal after @", "@ 3 ( x ) ;"},
	{"built-in of a module", "@ m . print ( x ) ;"}, {"cast of a module", "@ m . cast ( i8 , x ) ;"},
	{"no colon in a struct literal", "@ S { a x } ;"}, {"no value in a struct literal", "@ S { a : } ;"}, {"no name in a struct literal", "@ S { x } ;"}, {"no name before a colon", "@ S { : x } ;"}, {"number as a name", "@ S { 3 : x } ;"}, {"literal as a struct's name", "@ 3 { a : x } ;"},
	{"no length of an array", "[ ] i8 { } ;"}, {"name as a length", "[ n ] i8 { } ;"}, {"negative length", "[ - 1 ] i8 { } ;"}, {"huge length", "[ 99999999999 ] i8 { } ;"}, {"no element type", "[ 2 ] { } ;"}, {"no braces of an array", "[ 2 ] i8 ;"}, {"no comma between elements", "[ 2 ] i8 { x y } ;"},
	{"fraction as a length", "[ 1.5 ] i8 { } ;"}, {"no element between commas", "[ 2 ] i8 { x , , y } ;"},
	{"no type of a block expression", "v = : { } ;"}, {"no block of a block expression", "v = : i8 ;"},
	{"no parentheses of a function expression", "v = func { } ;"}, {"no body of a function expression", "v = func ( ) ;"}, {"no name of a parameter of a function expression", "v = func ( * i8 ) { } ;"}, {"no type of a parameter of a function expression", "v = func ( a ) { } ;"}, {"no comma between parameters of a function expression", "v = func ( a i8 b i8 ) { } ;"},
	{"unclosed type", "v : ( i8 = x ;"}, {"no type between parentheses", "v : ( ) = x ;"}, {"no type after a pointer", "v : * = x ;"}, {"no type after a dot", "v : m . = x ;"}, {"number after a dot", "v : m . 3 = x ;"}, {"no closing bracket of a length", "v : [ 3 i8 = x ;"},
	{"number as a type", "v : 3 = x ;"}, {"string as a type", "v : \"a\" = x ;"},
	{"integer that is too big", "18446744073709551616 ;"}, {"hexadecimal number that is too big", "0x10000000000000000 ;"}, {"hexadecimal number without digits", "0x ;"}, {"binary number without digits", "0b ;"},
	{"stray )", ") ;"}, {"stray }", "}"}, {"stray ]", "] ;"}, {"stray ,", ", ;"}, {"stray :", ": ;"}, {"stray .", ". ;"}, {"stray ..", ".. ;"}, {"stray ->", "as ;"}, {"stray =", "= ;"}, {"unknown character", "$"}, {"unknown character in an expression", "a + $ ;"},
}

func init() {
	register(&Prop{id: "C31",
		explanation: "The forms of the language are damaged - a token replaced by an unknown one, the text cut short, a bracket removed, something required left out - and followed through the parser on every path: each has to end with a recorded error. Further damaged texts, which may happen to be programs, must not crash the parser or leave holes in the tree.",
		rules:       []string{"unknown tokens are reported", "texts that end inside a bracket are reported", "unbalanced brackets are reported", "missing parts are reported", "no text crashes the parser"},
		run: func(w *World, a *Anchors, r *Report) {
			pa := w.parseAnchors()
			if pa.problem != "" {
				r.Ob(false, "anchors", pa.problem, 0, "not found")
				return
			}
			for _, x := range pWrong {
				t := toks(x.src)
				pReject(w, pa, r, "missing parts", x.name, t, x.src)
				if b := toks("w = x ; " + x.src); x.name != "increment of nothing" {
					pReject(w, pa, r, "missing parts", x.name+" after a statement", b, textOf(b))
				}
				if !strings.HasPrefix(x.name, "stray }") && !strings.HasPrefix(x.name, "no body") {
					b := toks("func f ( ) { w ; " + x.src + " }")
					pReject(w, pa, r, "missing parts", x.name+" in a function", b, textOf(b))
				}
			}
			bs, bt := pblock(pid("w").stmt())
			forms := pForms(bs, bt, false)
			es := pForms("{ }", N("Block"), false)
			if r.thorough {
				forms = append(forms, es...)
			}
			cut := func(t []ptok, i int, by ...ptok) []ptok {
				return append(append(append([]ptok(nil), t[:i]...), by...), t[i+1:]...)
			}
			for fi, f := range forms {
				t := toks(f.src)
				d := depth(t)
				for i := range t {
					x := cut(t, i, ptok{"ILLEGAL", "$"})
					pReject(w, pa, r, "unknown tokens", fmt.Sprintf("%s, token %d", f.name, i), x, textOf(x))
					if d[i] > 0 {
						pReject(w, pa, r, "truncated texts", fmt.Sprintf("%s, %d tokens", f.name, i), t[:i], textOf(t[:i]))
					} else if r.thorough {
						pSurvive(w, pa, r, "crashes", fmt.Sprintf("%s, %d tokens", f.name, i), t[:i], textOf(t[:i]))
					}
					x = cut(t, i)
					switch t[i].text {
					case "(", ")", "[", "]", "{", "}":
						pReject(w, pa, r, "unbalanced brackets", fmt.Sprintf("%s without token %d", f.name, i), x, textOf(x))
						x = cut(t, i, t[i], t[i])
						pReject(w, pa, r, "unbalanced brackets", fmt.Sprintf("%s with token %d twice", f.name, i), x, textOf(x))
					default:
						if r.thorough || (fi+i)%2 == 0 {
							pSurvive(w, pa, r, "crashes", fmt.Sprintf("%s without token %d", f.name, i), x, textOf(x))
						}
						x = cut(t, i, t[i], t[i])
						if r.thorough || (fi+i)%2 == 1 {
							pSurvive(w, pa, r, "crashes", fmt.Sprintf("%s with token %d twice", f.name, i), x, textOf(x))
						}
						if r.thorough {
							for _, k := range []string{"(", ")", "{", "}", "[", "]", ",", ":", "=", ";", "*", ".", "@", "as", "func", "struct", "if", "for", "case", "else", "type", "const", "import", "3", "\"s\"", "x", "++", "#if", "switch", "return", ".."} {
								x = cut(t, i, toks(k)...)
								pSurvive(w, pa, r, "crashes", fmt.Sprintf("%s with %s for token %d", f.name, k, i), x, textOf(x))
							}
						}
					}
				}
			}
		}})
}
