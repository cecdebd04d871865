package main

import (
	"fmt"
	"runtime"
	"strings"
)

// ---- forms of the language: how they are written, and what they are -------------------------------------------

func pty(src, text string) ptyp { return ptyp{src, text} }

// pTypes are the ways to write a type.
func pTypes() []ptyp {
	var l []ptyp
	for _, b := range []string{"i1", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "void"} {
		l = append(l, pty(b, b))
	}
	l = append(l, pty("bool", "i1"), pty("T", "T-id"), pty("m . T", "[m-id].T-id"), pty("m . n . T", "[m-id, n-id].T-id"))
	wrap := func(x ptyp) []ptyp {
		return []ptyp{
			pty("* "+x.src, "*"+x.text),
			pty("[ 3 ] "+x.src, "[3]"+x.text),
			pty("func ( ) "+x.src, "func() "+x.text),
			pty("func ( "+x.src+" ) i64", "func("+x.text+") i64"),
			pty("func ( u8 , "+x.src+" )", "func(u8, "+x.text+") void"),
			pty("( "+x.src+" )", x.text),
			pty("( "+x.src+" , i8 )", "("+x.text+", i8)"),
		}
	}
	one := []ptyp{pty("i32", "i32"), pty("T", "T-id"), pty("m . T", "[m-id].T-id")}
	var two []ptyp
	for _, x := range one {
		two = append(two, wrap(x)...)
	}
	l = append(l, two...)
	for _, x := range two {
		l = append(l, wrap(x)...)
	}
	l = append(l, pty("func ( i8 , .. ) i32", "func(i8 ..) i32"), pty("func ( .. )", "func( ..) void"), pty("* func ( * T , [ 12 ] i8 , func ( ) ) * * T", "*func(*T-id, [12]i8, func() void) **T-id"))
	return l
}

// typePlaces are the places a type is written in.
func typePlaces() []struct {
	name  string
	build func(t ptyp, n string) pstmt
} {
	x := pid("x")
	eb, et := pblock(x.stmt())
	xs := func(n, src, tree string) pstmt {
		return pstmt{n, src + " ;", N("ExpressionStatement", "Expression", tree)}
	}
	return []struct {
		name  string
		build func(t ptyp, n string) pstmt
	}{
		{"declaration", func(t ptyp, n string) pstmt {
			return pstmt{n, "v : " + t.src + " = x ;", N("DeclarationStatement", "Name", "v-id", "Type", t.text, "Expression", x.tree)}
		}},
		{"constant", func(t ptyp, n string) pstmt {
			return pstmt{n, "const v : " + t.src + " = x ;", N("DeclarationStatement", "Name", "v-id", "Type", t.text, "Expression", x.tree, "Constant", "true")}
		}},
		{"list declaration", func(t ptyp, n string) pstmt {
			return pstmt{n, "v , w : " + t.src + " = x ;", N("MultipleDeclarationStatement", "Names", "[v-id, w-id]", "Type", t.text, "Expression", x.tree)}
		}},
		{"member", func(t ptyp, n string) pstmt {
			if strings.HasSuffix(t.text, "void") && strings.HasSuffix(t.src, ")") {
				// what follows a function type without a result is its result
				return pstmt{n, "struct S { a i8 b " + t.src + " }", N("StructStatement", "Type", N("Struct", "Name", "S-id", "Names", "[a, b]", "Fields", "[i8, "+t.text+"]"))}
			}
			return pstmt{n, "struct S { a i8 b " + t.src + " c i16 }", N("StructStatement", "Type", N("Struct", "Name", "S-id", "Names", "[a, b, c]", "Fields", "[i8, "+t.text+", i16]"))}
		}},
		{"member of a union", func(t ptyp, n string) pstmt {
			return pstmt{n, "union S { a i8 b " + t.src + " }", N("UnionStatement", "Type", N("Union", "Name", "S-id", "Names", "[a, b]", "Fields", "[i8, "+t.text+"]"))}
		}},
		{"parameter", func(t ptyp, n string) pstmt {
			return pstmt{n, "func f ( p " + t.src + " , q i8 ) " + eb, fnTree("f", "[p-id, q-id]", "["+t.text+", i8]", "", et)}
		}},
		{"result", func(t ptyp, n string) pstmt {
			return pstmt{n, "func f ( ) " + t.src + " " + eb, fnTree("f", "", "", t.text, et)}
		}},
		{"results", func(t ptyp, n string) pstmt {
			return pstmt{n, "func f ( ) i8 , " + t.src + " " + eb, fnTree("f", "", "", "(i8, "+t.text+")", et)}
		}},
		{"parameter of a function expression", func(t ptyp, n string) pstmt {
			return pstmt{n, "v = func ( p " + t.src + " ) " + t.src + " " + eb + " ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", anonTree("[p-id]", "["+t.text+"]", t.text, et))}
		}},
		{"cast", func(t ptyp, n string) pstmt {
			return xs(n, "@ cast ( "+t.src+" , x )", N("BuiltinCall", "Name", "cast", "TypeParameters", "["+t.text+"]", "Parameters", list(x.tree)))
		}},
		{"alloc", func(t ptyp, n string) pstmt {
			return xs(n, "@ alloc ( "+t.src+" , x )", N("BuiltinCall", "Name", "alloc", "TypeParameters", "["+t.text+"]", "Parameters", list(x.tree)))
		}},
		{"sizeof", func(t ptyp, n string) pstmt {
			return xs(n, "@ sizeof ( "+t.src+" )", N("BuiltinCall", "Name", "sizeof", "TypeParameters", "["+t.text+"]"))
		}},
		{"asm", func(t ptyp, n string) pstmt {
			return xs(n, "@ asm ( "+t.src+" , x , x )", N("BuiltinCall", "Name", "asm", "TypeParameters", "["+t.text+"]", "Parameters", list(x.tree, x.tree)))
		}},
		{"as", func(t ptyp, n string) pstmt { return xs(n, pas(x, t).src, pas(x, t).tree) }},
		{"array literal", func(t ptyp, n string) pstmt {
			return xs(n, "[ 2 ] "+t.src+" { x , x }", N("ArrayLiteral", "Type", "[2]"+t.text, "Values", list(x.tree, x.tree)))
		}},
		{"type definition", func(t ptyp, n string) pstmt {
			return pstmt{n, "type V = " + t.src + " ;", N("TypeDefinition", "Name", "V-id", "Type", t.text)}
		}},
		{"block expression", func(t ptyp, n string) pstmt {
			return pstmt{n, "v = : " + t.src + " " + eb + " ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", N("ExpressionBlock", "Type", t.text, "Block", et))}
		}},
		{"import", func(t ptyp, n string) pstmt {
			return pstmt{n, "import m , " + t.src + " , i8 , \"p\" ;", N("ImportStatement", "Name", "m-id", "Types", "["+t.text+", i8]", "Path", N("StringLiteral", "Type", "*i8", "Value", "p"))}
		}},
	}
}

func fnTree(name, names, params, ret, block string) string {
	return N("FunctionDeclarationStatement", "FunctionType", N("Function", "Name", name+"-id", "ExternalName", name, "Names", names, "Parameters", params, "Return", ret), "Block", block)
}
func anonTree(names, params, ret, block string) string {
	return N("AnonymousFunction", "FunctionType", N("Function", "Name", "ANONYMOUS_FUNCTION", "Names", names, "Parameters", params, "Return", ret), "Block", block)
}

func strLit(s string) px {
	return px{"\"" + s + "\"", N("StringLiteral", "Type", "*i8", "Value", s), precAtom}
}

// pForms are the statements of the language in their variants; b is a block to put in their places.
func pForms(bsrc, btree string, none bool) []pstmt {
	x, y, z := pid("x"), pid("y"), pid("z")
	xt := x.tree
	var l []pstmt
	add := func(name, src, tree string) { l = append(l, pstmt{name, src, tree}) }
	xs := func(name, src, tree string) { add(name, src+" ;", N("ExpressionStatement", "Expression", tree)) }
	fn := func(name, names, params, ret string, more ...string) string {
		return N("FunctionDeclarationStatement", "FunctionType", N("Function", append([]string{"Name", name + "-id", "ExternalName", name, "Names", names, "Parameters", params, "Return", ret}, more...)...), "Block", btree)
	}
	add("function", "func f ( ) "+bsrc, fn("f", "", "", ""))
	add("function with a parameter", "func f ( p i8 ) "+bsrc, fn("f", "[p-id]", "[i8]", ""))
	add("function with parameters and a result", "func f ( p i8 , q * T , r u64 ) i64 "+bsrc, fn("f", "[p-id, q-id, r-id]", "[i8, *T-id, u64]", "i64"))
	add("function with results", "func f ( p i8 ) i64 , u8 "+bsrc, fn("f", "[p-id]", "[i8]", "(i64, u8)"))
	add("main", "func main ( ) i32 "+bsrc, N("FunctionDeclarationStatement", "FunctionType", N("Function", "Name", "main", "ExternalName", "main", "Return", "i32"), "Block", btree))
	add("public function", "pub func f ( p i8 ) i64 "+bsrc, fn("f", "[p-id]", "[i8]", "i64", "RedefineWithOriginalName", "true"))
	add("external function", "extern func f ( i8 , * i8 ) i32 ;", N("ExternStatement", "Type", N("Function", "Name", "f-id", "ExternalName", "f", "Parameters", "[i8, *i8]", "Return", "i32")))
	add("external function without a result", "extern func f ( ) ;", N("ExternStatement", "Type", N("Function", "Name", "f-id", "ExternalName", "f", "Return", "void")))
	add("variadic external function", "extern func f ( * i8 , .. ) i32 ;", N("ExternStatement", "Type", N("Function", "Name", "f-id", "ExternalName", "f", "Parameters", "[*i8]", "Return", "i32", "InfiniteParameters", "true")))
	add("struct", "struct S { a i8 b * T }", N("StructStatement", "Type", N("Struct", "Name", "S-id", "Names", "[a, b]", "Fields", "[i8, *T-id]")))
	add("empty struct", "struct S { }", N("StructStatement", "Type", N("Struct", "Name", "S-id")))
	add("union", "union S { a i8 b * T c i64 }", N("UnionStatement", "Type", N("Union", "Name", "S-id", "Names", "[a, b, c]", "Fields", "[i8, *T-id, i64]")))
	add("import", "import m , \"p\" ;", N("ImportStatement", "Name", "m-id", "Path", strLit("p").tree))
	add("import with types", "import m , i8 , * T , \"p\" ;", N("ImportStatement", "Name", "m-id", "Types", "[i8, *T-id]", "Path", strLit("p").tree))
	add("type definition", "type V = * i8 ;", N("TypeDefinition", "Name", "V-id", "Type", "*i8"))
	add("declaration", "v : i8 = x ;", N("DeclarationStatement", "Name", "v-id", "Type", "i8", "Expression", xt))
	add("declaration without a type", "v : = x ;", N("DeclarationStatement", "Name", "v-id", "Type", "?", "Expression", xt))
	add("constant", "const v : i8 = x ;", N("DeclarationStatement", "Name", "v-id", "Type", "i8", "Expression", xt, "Constant", "true"))
	add("constant without a type", "const v : = x ;", N("DeclarationStatement", "Name", "v-id", "Type", "?", "Expression", xt, "Constant", "true"))
	comma := func(l ...px) string {
		var t []string
		for _, x := range l {
			t = append(t, x.tree)
		}
		return N("CommaExpressions", "Expressions", list(t...))
	}
	add("declarations", "u , v : = x , y ;", N("MultipleDeclarationStatement", "Names", "[u-id, v-id]", "Type", "?", "Expression", comma(x, y)))
	add("three declarations", "u , v , w : i8 = x , y , z ;", N("MultipleDeclarationStatement", "Names", "[u-id, v-id, w-id]", "Type", "i8", "Expression", comma(x, y, z)))
	add("constants", "const u , v : i8 = x , y ;", N("MultipleDeclarationStatement", "Names", "[u-id, v-id]", "Type", "i8", "Expression", comma(x, y), "Constant", "true"))
	add("constants without a type", "const u , v , w : = x , y , z ;", N("MultipleDeclarationStatement", "Names", "[u-id, v-id, w-id]", "Type", "?", "Expression", comma(x, y, z), "Constant", "true"))
	asg := func(name string, to px) {
		add("assignment to "+name, to.src+" = x ;", N("AssignmentStatement", "Left", to.tree, "Expression", xt))
	}
	star, bang := pPre[4], pPre[0]
	asg("a variable", pid("v"))
	asg("a member", pdot(pid("v"), "f"))
	asg("a member of a member", pdot(pdot(pid("v"), "f"), "g"))
	asg("an element", pidx(pid("v"), y))
	asg("an element of an element", pidx(pidx(pid("v"), y), z))
	asg("a member of an element", pdot(pidx(pid("v"), y), "f"))
	asg("an element of a member", pidx(pdot(pid("v"), "f"), y))
	asg("a pointed-to value", ppre(star, pid("v")))
	asg("a pointed-to pointer's value", ppre(star, ppre(star, pid("v"))))
	asg("a pointed-to member", ppre(star, pdot(pid("v"), "f")))
	asg("a member of a call", pdot(pcall(pid("v")), "f"))
	add("assignments", "u , v . f , w [ x ] = x , y , z ;", N("AssignmentStatement", "Left", N("CommaExpressions", "Expressions", list(pid("u").tree, pdot(pid("v"), "f").tree, pidx(pid("w"), x).tree), "IsAssignment", "true"), "Expression", comma(x, y, z)))
	add("assignments from a call", "u , v = f ( ) ;", N("AssignmentStatement", "Left", N("CommaExpressions", "Expressions", list(pid("u").tree, pid("v").tree), "IsAssignment", "true"), "Expression", pcall(pid("f")).tree))
	add("return", "return ;", N("ReturnStatement"))
	add("return of a value", "return x ;", N("ReturnStatement", "Expression", xt))
	add("return of values", "return x , y ;", N("ReturnStatement", "Expression", comma(x, y)))
	add("break", "break ;", N("BreakStatement"))
	add("continue", "continue ;", N("ContinueStatement"))
	add("block", bsrc, btree)
	cb := func(c px) string { return N("ConditionPlusBlock", "Condition", c.tree, "Block", btree) }
	add("if", "if x "+bsrc, N("IfStatement", "Condition", xt, "Block", btree))
	add("if with parentheses", "if ( x ) "+bsrc, N("IfStatement", "Condition", xt, "Block", btree))
	add("if else", "if x "+bsrc+" else "+bsrc, N("IfStatement", "Condition", xt, "Block", btree, "Else", btree))
	add("else if", "if x "+bsrc+" else if y "+bsrc, N("IfStatement", "Condition", xt, "Block", btree, "ElseIfs", list(cb(y))))
	add("else ifs", "if x "+bsrc+" else if y "+bsrc+" else if z "+bsrc+" else "+bsrc, N("IfStatement", "Condition", xt, "Block", btree, "ElseIfs", list(cb(y), cb(z)), "Else", btree))
	add("if of a declaration's name", "if x == v { v : = x ; }", N("IfStatement", "Condition", pbin(pOps[2], x, pid("v")).tree, "Block", N("Block", "Statements", list(N("DeclarationStatement", "Name", "v-id", "Type", "?", "Expression", xt)))))
	init := N("DeclarationStatement", "Name", "i-id", "Type", "?", "Expression", xt)
	initT := N("DeclarationStatement", "Name", "i-id", "Type", "i8", "Expression", xt)
	set := N("AssignmentStatement", "Left", pid("i").tree, "Expression", z.tree)
	inc := ppre(pPre[5], pid("i"))
	add("endless loop", "for "+bsrc, N("ForStatement", "Block", btree))
	add("loop with a condition", "for x "+bsrc, N("ForStatement", "Condition", xt, "Block", btree))
	add("loop with a call as condition", "for f ( x ) "+bsrc, N("ForStatement", "Condition", pcall(pid("f"), x).tree, "Block", btree))
	add("loop with a declaration", "for i : = x ; y ; i = z "+bsrc, N("ForStatement", "InitializerStatement", init, "Condition", y.tree, "Operation", set, "Block", btree))
	add("loop with a typed declaration", "for i : i8 = x ; y ; i = z "+bsrc, N("ForStatement", "InitializerStatement", initT, "Condition", y.tree, "Operation", set, "Block", btree))
	add("loop with an assignment", "for i = z ; y ; i = z "+bsrc, N("ForStatement", "InitializerStatement", set, "Condition", y.tree, "Operation", set, "Block", btree))
	add("loop with an increment", "for i : = x ; y ; ++ i "+bsrc, N("ForStatement", "InitializerStatement", init, "Condition", y.tree, "Operation", N("ExpressionStatement", "Expression", inc.tree), "Block", btree))
	add("loop with a call as step", "for i : = x ; y ; f ( i ) "+bsrc, N("ForStatement", "InitializerStatement", init, "Condition", y.tree, "Operation", N("ExpressionStatement", "Expression", pcall(pid("f"), pid("i")).tree), "Block", btree))
	add("loop without a step", "for i : = x ; y ; "+bsrc, N("ForStatement", "InitializerStatement", init, "Condition", y.tree, "Block", btree))
	cs := func(c px) string { return N("CaseStatement", "Case", c.tree, "Block", btree) }
	add("switch", "switch x { case y "+bsrc+" }", N("SwitchStatement", "Condition", xt, "Cases", list(cs(y))))
	add("switch with a default", "switch x { case y "+bsrc+" case z "+bsrc+" default "+bsrc+" }", N("SwitchStatement", "Condition", xt, "Cases", list(cs(y), cs(z)), "Default", btree))
	add("switch with only a default", "switch x { default "+bsrc+" }", N("SwitchStatement", "Condition", xt, "Default", btree))
	add("empty switch", "switch x { }", N("SwitchStatement", "Condition", xt))
	add("condition on the target that holds", "#if 1 "+bsrc, N("MacroBlock", "Block", btree))
	for _, n := range []struct {
		name string
		is   bool
	}{{"LINUX", runtime.GOOS == "linux"}, {"WINDOWS", runtime.GOOS == "windows"}, {"MACOS", runtime.GOOS == "darwin"}, {"X64", runtime.GOARCH == "amd64"}, {"ARM64", runtime.GOARCH == "arm64"}, {"ARM", runtime.GOARCH == "arm"}, {"ARM64BE", runtime.GOARCH == "arm64be"}, {"ARMBE", runtime.GOARCH == "armbe"}, {"7", true}, {"( 1 )", true}, {"( 0 )", false}, {"0x0", false}} {
		if n.is {
			add("condition that holds: "+n.name, "#if "+n.name+" "+bsrc, N("MacroBlock", "Block", btree))
		} else {
			add("condition that doesn't hold: "+n.name, "#if "+n.name+" "+bsrc, N("MacroBlock", "Block", N("Block")))
		}
	}
	add("condition on the target that doesn't hold", "#if 0 "+bsrc, N("MacroBlock", "Block", N("Block")))
	xs("call", "f ( )", pcall(pid("f")).tree)
	xs("call of a member", "a . f ( x , y )", pcall(pdot(pid("a"), "f"), x, y).tree)
	xs("call of a call", "f ( x ) ( y )", pcall(pcall(pid("f"), x), y).tree)
	xs("increment", "++ i", inc.tree)
	xs("decrement of a member", "-- a . f", ppre(pPre[6], pdot(pid("a"), "f")).tree)
	xs("negation", "! x", ppre(bang, x).tree)
	sv := func(n string, x px) string { return N("StructValue", "Name", n, "Expression", x.tree) }
	xs("struct literal", "@ S { a : x , b : y }", N("StructLiteral", "Name", "S-id", "Values", list(sv("a", x), sv("b", y))))
	xs("struct literal with a comma at its end", "@ S { a : x , b : y , }", N("StructLiteral", "Name", "S-id", "Values", list(sv("a", x), sv("b", y))))
	xs("struct literal with three values", "@ S { a : x , b : y , c : z }", N("StructLiteral", "Name", "S-id", "Values", list(sv("a", x), sv("b", y), sv("c", z))))
	xs("empty struct literal", "@ S { }", N("StructLiteral", "Name", "S-id"))
	xs("struct literal of a module", "@ m . S { a : x }", N("StructLiteral", "Name", "S-id", "Module", "m-id", "Values", list(sv("a", x))))
	inner := px{"@ S { a : x }", N("StructLiteral", "Name", "S-id", "Values", list(sv("a", x))), precAtom}
	xs("struct literal in a struct literal", "@ S { a : @ S { a : x } , b : y }", N("StructLiteral", "Name", "S-id", "Values", list(sv("a", inner), sv("b", y))))
	xs("array literal", "[ 2 ] i8 { x , y }", N("ArrayLiteral", "Type", "[2]i8", "Values", list(xt, y.tree)))
	xs("empty array literal", "[ 100 ] i8 { }", N("ArrayLiteral", "Type", "[100]i8"))
	xs("array literal of arrays", "[ 2 ] [ 1 ] i8 { [ 1 ] i8 { x } , [ 1 ] i8 { y } }", N("ArrayLiteral", "Type", "[2][1]i8", "Values", list(N("ArrayLiteral", "Type", "[1]i8", "Values", list(xt)), N("ArrayLiteral", "Type", "[1]i8", "Values", list(y.tree)))))
	bc := func(name, ts string, args ...string) string {
		return N("BuiltinCall", "Name", name, "TypeParameters", ts, "Parameters", list(args...))
	}
	xs("print", "@ print ( x , y , z )", bc("print", "", xt, y.tree, z.tree))
	xs("print of nothing", "@ print ( )", bc("print", ""))
	xs("cast", "@ cast ( * T , x )", bc("cast", "[*T-id]", xt))
	xs("alloc", "@ alloc ( T , x )", bc("alloc", "[T-id]", xt))
	xs("realloc", "@ realloc ( x , y )", bc("realloc", "", xt, y.tree))
	xs("free", "@ free ( x )", bc("free", "", xt))
	xs("sizeof", "@ sizeof ( T )", bc("sizeof", "[T-id]"))
	xs("unreachable", "@ unreachable ( )", bc("unreachable", ""))
	xs("asm", "@ asm ( i64 , \"a\" , x , y )", bc("asm", "[i64]", strLit("a").tree, xt, y.tree))
	xs("compiler flag", "@ add_compiler_flag ( \"a\" , \"b\" )", bc("add_compiler_flag", "", strLit("a").tree, strLit("b").tree))
	an := func(names, params, ret string) string { return anonTree(names, params, ret, btree) }
	add("function expression", "v = func ( p i8 , q T ) i64 "+bsrc+" ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", an("[p-id, q-id]", "[i8, T-id]", "i64")))
	add("function expression without a result", "v = func ( ) "+bsrc+" ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", an("", "", "")))
	add("called function expression", "v = func ( p i8 ) "+bsrc+" ( x ) ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", N("Call", "Left", an("[p-id]", "[i8]", ""), "Parameters", list(xt))))
	add("function expression as argument", "f ( func ( p i8 ) "+bsrc+" , x ) ;", N("ExpressionStatement", "Expression", N("Call", "Left", pid("f").tree, "Parameters", list(an("[p-id]", "[i8]", ""), xt))))
	add("block expression", "v = : i8 "+bsrc+" ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", N("ExpressionBlock", "Type", "i8", "Block", btree)))
	add("block expression in an operation", "v = x + : i8 "+bsrc+" ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", N("BinaryOperation", "Left", xt, "Right", N("ExpressionBlock", "Type", "i8", "Block", btree), "Operation", "Add")))
	return l
}

// pLiterals are literals with their values and types.
func pLiterals() []px {
	i := func(src, ty, val string) px { return px{src, N("Integer", "Type", ty, "Value", val), precAtom} }
	f := func(src, val string) px { return px{src, N("Float", "Type", "f32", "Value", val), precAtom} }
	l := []px{
		i("0", "i32", "0"), i("1", "i32", "1"), i("7", "i32", "7"), i("10", "i32", "10"), i("007", "i32", "7"), i("08", "i32", "8"), i("255", "i32", "255"), i("65536", "i32", "65536"),
		i("2147483647", "i32", "2147483647"), i("2147483648", "i64", "2147483648"), i("4294967295", "i64", "4294967295"), i("9223372036854775807", "i64", "9223372036854775807"),
		i("9223372036854775808", "u64", "-9223372036854775808"), i("18446744073709551615", "u64", "-1"),
		i("0x0", "i32", "0"), i("0xff", "i32", "255"), i("0xFF", "i32", "255"), i("0x10", "i32", "16"), i("0x7fffffff", "i32", "2147483647"), i("0x80000000", "i64", "2147483648"), i("0x7fffffffffffffff", "i64", "9223372036854775807"),
		i("0x8000000000000000", "u64", "-9223372036854775808"), i("0xffffffffffffffff", "u64", "-1"),
		i("0b0", "i32", "0"), i("0b1", "i32", "1"), i("0b10", "i32", "2"), i("0b1111111111111111111111111111111", "i32", "2147483647"), i("0b10000000000000000000000000000000", "i64", "2147483648"),
		f("0.0", "0"), f("1.5", "3/2"), f("0.25", "1/4"), f("100.0", "100"),
		strLit("abc"), strLit("a"),
		i("'a", "i8", "97"), i("'0", "i8", "48"), i("'~", "i8", "126"),
	}
	return l
}

func init() {
	register(&Prop{id: "C30",
		explanation: "The forms of the language's statements, declarations, types and literals are written in all their variants, one in another and next to one another, and followed through the parser on every path; the trees it builds are compared with what is written.",
		rules:       []string{"nothing that is written is lost, reordered or read as something else", "every type is read as written wherever a type can stand", "every literal has its value and its type"},
		run: func(w *World, a *Anchors, r *Report) {
			pa := w.parseAnchors()
			if pa.problem != "" {
				r.Ob(false, "anchors", pa.problem, 0, "not found")
				return
			}
			bs, bt := pblock(pid("w").stmt())
			es, et := "{ }", N("Block")
			forms := pForms(bs, bt, false)
			pJudge(w, pa, r, "forms", forms)
			pJudge(w, pa, r, "forms with empty blocks", pForms(es, et, false))
			// one form in the block of another
			var l []pstmt
			for i, f := range forms {
				fs, ft := pblock(pstmt{"", "a ;", N("ExpressionStatement", "Expression", pid("a").tree)}, f, pstmt{"", "b ;", N("ExpressionStatement", "Expression", pid("b").tree)})
				outer := pForms(fs, ft, false)
				for j, o := range outer {
					if !strings.Contains(o.src, fs) {
						continue
					}
					if r.thorough || (i+j)%3 == 0 || o.name == "function" {
						o.name = f.name + " in " + o.name
						l = append(l, o)
					}
				}
			}
			pJudge(w, pa, r, "forms in forms", l)
			// one form before another
			l = nil
			for i, f := range forms {
				for j, g := range forms {
					if r.thorough || (i*3+j)%4 == 0 {
						l = append(l, pstmt{f.name + " before " + g.name, f.src, f.tree}, g)
					}
				}
			}
			pJudge(w, pa, r, "forms next to forms", l)
			// blocks without braces
			one, ot := "w ;", N("Block", "Statements", list(pid("w").stmt().tree))
			l = nil
			for _, f := range pForms(one, ot, true) {
				if strings.HasPrefix(f.name, "if") || strings.HasPrefix(f.name, "else if") {
					f.name += " without braces"
					l = append(l, f)
				}
			}
			pJudge(w, pa, r, "single statements", l)
			l = nil
			for i, p := range typePlaces() {
				for j, t := range pTypes() {
					if r.thorough || j < 16 || (i+j)%3 == 0 {
						l = append(l, p.build(t, fmt.Sprintf("%s of type %s", p.name, t.src)))
					}
				}
			}
			pJudge(w, pa, r, "types", l)
			l = nil
			for _, x := range pLiterals() {
				l = append(l, x.stmt())
				for _, e := range exprPlaces() {
					l = append(l, e.build(x, e.name+" with "+x.src))
				}
				l = append(l, ppre(pPre[1], x).stmt(), pbin(pOps[8], x, x).stmt())
			}
			pJudge(w, pa, r, "literals", l)
		}})
}
