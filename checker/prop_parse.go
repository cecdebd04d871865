package main

import (
	"fmt"
	"strings"
)

// ---- what is parsed, next to what it has to become ------------------------------------------------------------

// px is an expression as it is written, and as a tree.
type px struct {
	src  string
	tree string
	prec int
}

type binOp struct {
	src, op string
	prec    int
}

// the operators, from those that bind loosest to those that bind tightest
var pOps = []binOp{
	{"&&", "AND", 3}, {"||", "OR", 3},
	{"==", "Equals", 4}, {"!=", "NotEquals", 4}, {">=", "GreaterThanEqual", 4}, {">", "GreaterThan", 4}, {"<", "LessThan", 4}, {"<=", "LessThanEqual", 4},
	{"+", "Add", 5}, {"-", "Subtract", 5},
	{"^", "BinaryXOR", 6}, {"&", "BinaryAND", 6}, {"|", "BinaryOR", 6}, {"<<", "LeftShift", 6}, {">>", "RightShift", 6},
	{"/", "Divide", 7}, {"*", "Multiply", 7}, {"%", "Modulo", 7},
}
var pPre = []binOp{{"!", "Bang", 9}, {"-", "Subtract", 9}, {"+", "Add", 9}, {"&", "BinaryAND", 9}, {"*", "Multiply", 9}, {"++", "AddOne", 9}, {"--", "SubtractOne", 9}}

const (
	precAs   = 8
	precPre  = 9
	precPost = 10
	precAtom = 20
)

func pid(n string) px { return px{n, N("Identifier", "Name", n+"-id"), precAtom} }
func pint(n int) px {
	return px{fmt.Sprint(n), N("Integer", "Type", "i32", "Value", fmt.Sprint(n)), precAtom}
}

func (x px) paren() px { return px{"( " + x.src + " )", x.tree, precAtom} }

// at puts the expression in parentheses unless it binds at least that tight.
func (x px) at(prec int) px {
	if x.prec < prec {
		return x.paren()
	}
	return x
}

func pbin(o binOp, l, r px) px {
	l, r = l.at(o.prec), r.at(o.prec+1)
	return px{l.src + " " + o.src + " " + r.src, N("BinaryOperation", "Left", l.tree, "Right", r.tree, "Operation", o.op), o.prec}
}
func ppre(o binOp, x px) px {
	x = x.at(precPre)
	return px{o.src + " " + x.src, N("PrefixOperation", "Right", x.tree, "Operation", o.op), precPre}
}
func pas(x px, t ptyp) px {
	x = x.at(precAs)
	return px{x.src + " as " + t.src, N("BuiltinCall", "Name", "cast", "TypeParameters", list(t.text), "Parameters", list(x.tree)), precAs}
}
func pdot(x px, f string) px {
	x = x.at(precPost)
	return px{x.src + " . " + f, N("BinaryOperation", "Left", x.tree, "Right", N("Identifier", "Name", f+"-id"), "Operation", "Dot"), precPost}
}
func pidx(x, i px) px {
	x = x.at(precPost)
	return px{x.src + " [ " + i.src + " ]", N("IndexAccess", "Left", x.tree, "Access", i.tree), precPost}
}
func join(xs []px) (src, tree string) {
	var a, b []string
	for _, x := range xs {
		a = append(a, x.src)
		b = append(b, x.tree)
	}
	return strings.Join(a, " , "), list(b...)
}
func pcall(f px, args ...px) px {
	f = f.at(precPost)
	src, tree := join(args)
	return px{f.src + " ( " + src + " )", N("Call", "Left", f.tree, "Parameters", tree), precPost}
}

type ptyp struct{ src, text string }

// pstmt is a statement as it is written, and as a tree.
type pstmt struct {
	name string
	src  string
	tree string
}

func (x px) stmt() pstmt {
	return pstmt{x.src, x.src + " ;", N("ExpressionStatement", "Expression", x.tree)}
}

// pJudge parses the statements, some at a time, and compares each with its tree.
func pJudge(w *World, pa *ParseAnchors, r *Report, rule string, stmts []pstmt) {
	const batch = 12
	for i := 0; i < len(stmts); i += batch {
		end := i + batch
		if end > len(stmts) {
			end = len(stmts)
		}
		part := stmts[i:end]
		if !pBatch(w, pa, r, rule, part, false) {
			for _, x := range part {
				pBatch(w, pa, r, rule, []pstmt{x}, true)
			}
		}
	}
}

func pBatch(w *World, pa *ParseAnchors, r *Report, rule string, part []pstmt, report bool) bool {
	src := ""
	for _, x := range part {
		src += " " + x.src
	}
	s := NewParse(w, pa, toks(src))
	if s.bad != "" {
		r.Ob(false, "anchors", s.bad, 0, "not found")
		return true
	}
	outs := s.run()
	if s.in.budgetHit {
		if report {
			r.Analysed(s.in)
		}
		return !report
	}
	ok := len(outs) > 0
	for _, o := range outs {
		good := o.what == "accepted" && len(o.stmts) == len(part)
		if good {
			for j, x := range part {
				good = good && o.stmts[j] == x.tree
			}
		}
		ok = ok && good
		if report {
			d := "is " + o.what
			if o.what == "accepted" {
				d = "is parsed as\n      " + strings.Join(o.stmts, "\n      ") + "\n    instead of\n      " + part[0].tree
			}
			r.Ob(good, rule, part[0].name, lastPos(o.o), "%s %s", part[0].src, d)
		}
	}
	if report && len(outs) == 0 {
		r.Ob(false, rule, part[0].name, 0, "no path through the parser")
	}
	if ok && !report {
		r.Analysed(s.in)
		for range outs {
			for _, x := range part {
				r.Ob(true, rule, x.name, 0, "")
			}
		}
	}
	return ok
}

func init() {
	register(&Prop{id: "C26",
		explanation: "Sequences of tokens that write every operator in every other operator's operands, with and without parentheses, are followed through the parser on every path; the trees it builds are compared with the grouping that the rules of precedence give.",
		rules:       []string{"operators group by precedence, then from left to right", "parentheses group what they enclose", "every operator is the one that is written"},
		run: func(w *World, a *Anchors, r *Report) {
			pa := w.parseAnchors()
			if pa.problem != "" {
				r.Ob(false, "anchors", pa.problem, 0, "not found")
				return
			}
			x, y, z, u := pid("a"), pid("b"), pid("c"), pid("d")
			var l []pstmt
			add := func(e px) { l = append(l, e.stmt()) }
			for _, o := range pOps {
				add(pbin(o, x, y))
				for _, p := range pOps {
					add(pbin(o, pbin(p, x, y), z))
					add(pbin(o, x, pbin(p, y, z)))
					if r.thorough || o.prec == p.prec {
						add(pbin(o, pbin(p, x, y).paren(), z))
						add(pbin(o, x, pbin(p, y, z).paren()))
					}
				}
			}
			// one operator of each strength, three deep
			var rep []binOp
			for i, o := range pOps {
				if i == 0 || pOps[i-1].prec != o.prec || r.thorough {
					rep = append(rep, o)
				}
			}
			for _, o := range rep {
				for _, p := range rep {
					for _, q := range rep {
						add(pbin(o, pbin(p, pbin(q, x, y), z), u))
						add(pbin(o, pbin(p, x, pbin(q, y, z)), u))
						add(pbin(o, pbin(p, x, y), pbin(q, z, u)))
						add(pbin(o, x, pbin(p, pbin(q, y, z), u)))
						add(pbin(o, x, pbin(p, y, pbin(q, z, u))))
					}
				}
			}
			pJudge(w, pa, r, "binary operators", l)
			l = nil
			t := ptyp{"i64", "i64"}
			post := []func(x px) px{
				func(x px) px { return pdot(x, "f") },
				func(x px) px { return pidx(x, z) },
				func(x px) px { return pcall(x) },
				func(x px) px { return pcall(x, z, u) },
				func(x px) px { return x.paren() },
			}
			for _, p := range pPre {
				add(ppre(p, x))
				add(ppre(p, x.paren()))
				for _, q := range pPre {
					add(ppre(p, ppre(q, x)))
				}
				for _, o := range pOps {
					add(pbin(o, ppre(p, x), y))
					add(pbin(o, x, ppre(p, y)))
					add(ppre(p, pbin(o, x, y)))
				}
				for _, f := range post {
					add(ppre(p, f(x)))
					add(f(ppre(p, x)))
					for _, g := range post {
						add(ppre(p, g(f(x))))
					}
				}
				add(pas(ppre(p, x), t))
				add(ppre(p, pas(x, t)))
			}
			for _, o := range pOps {
				for _, f := range post {
					add(pbin(o, f(x), y))
					add(pbin(o, x, f(y)))
					add(f(pbin(o, x, y)))
				}
				add(pas(pbin(o, x, y), t))
				add(pbin(o, pas(x, t), y))
				add(pbin(o, x, pas(y, t)))
				add(pidx(x, pbin(o, y, z)))
				add(pcall(x, pbin(o, y, z), pbin(o, z, u)))
			}
			for _, f := range post {
				add(f(x))
				add(pas(f(x), t))
				add(f(pas(x, t)))
				for _, g := range post {
					add(g(f(x)))
					for _, h := range post {
						add(h(g(f(x))))
					}
				}
			}
			add(pas(pas(x, t), ptyp{"u8", "u8"}))
			pJudge(w, pa, r, "prefix and postfix operators", l)
			// the places an expression can be in end it in the same way
			l = nil
			for _, e := range exprPlaces() {
				for _, o := range pOps {
					l = append(l, e.build(pbin(o, x, y), fmt.Sprintf("%s with %s", e.name, o.src)))
				}
				for _, p := range pPre {
					if p.src == "*" && e.name == "statement" {
						continue
					}
					l = append(l, e.build(ppre(p, x), fmt.Sprintf("%s with prefix %s", e.name, p.src)))
				}
				for i, f := range post {
					l = append(l, e.build(f(x), fmt.Sprintf("%s with postfix %d", e.name, i)))
				}
				l = append(l, e.build(pas(x, t), e.name+" with as"))
			}
			pJudge(w, pa, r, "places of expressions", l)
		}})
}

type exprPlace struct {
	name  string
	build func(x px, name string) pstmt
}

func pblock(stmts ...pstmt) (src, tree string) {
	var a, b []string
	for _, s := range stmts {
		a = append(a, s.src)
		b = append(b, s.tree)
	}
	return "{ " + strings.Join(a, " ") + " }", N("Block", "Statements", list(b...))
}

func exprPlaces() []exprPlace {
	xs := func(name string, x px) pstmt {
		return pstmt{name, x.src + " ;", N("ExpressionStatement", "Expression", x.tree)}
	}
	a := pid("q")
	eb, et := pblock(pid("w").stmt())
	lit := func(src, tree string) px { return px{src, tree, precAtom} }
	return []exprPlace{
		{"declaration", func(x px, n string) pstmt {
			return pstmt{n, "v : = " + x.src + " ;", N("DeclarationStatement", "Name", "v-id", "Type", "?", "Expression", x.tree)}
		}},
		{"constant", func(x px, n string) pstmt {
			return pstmt{n, "const v : i8 = " + x.src + " ;", N("DeclarationStatement", "Name", "v-id", "Type", "i8", "Expression", x.tree, "Constant", "true")}
		}},
		{"assignment", func(x px, n string) pstmt {
			return pstmt{n, "v = " + x.src + " ;", N("AssignmentStatement", "Left", pid("v").tree, "Expression", x.tree)}
		}},
		{"return", func(x px, n string) pstmt {
			return pstmt{n, "return " + x.src + " ;", N("ReturnStatement", "Expression", x.tree)}
		}},
		{"argument", func(x px, n string) pstmt { return xs(n, pcall(pid("f"), a, x, a)) }},
		{"only argument", func(x px, n string) pstmt { return xs(n, pcall(pid("f"), x)) }},
		{"argument of print", func(x px, n string) pstmt {
			return xs(n, lit("@ print ( q , "+x.src+" , q )", N("BuiltinCall", "Name", "print", "Parameters", list(a.tree, x.tree, a.tree))))
		}},
		{"argument of cast", func(x px, n string) pstmt {
			return xs(n, lit("@ cast ( i8 , "+x.src+" )", N("BuiltinCall", "Name", "cast", "TypeParameters", "[i8]", "Parameters", list(x.tree))))
		}},
		{"arguments of realloc", func(x px, n string) pstmt {
			return xs(n, lit("@ realloc ( "+x.src+" , "+x.src+" )", N("BuiltinCall", "Name", "realloc", "Parameters", list(x.tree, x.tree))))
		}},
		{"index", func(x px, n string) pstmt { return xs(n, pidx(a, x)) }},
		{"element", func(x px, n string) pstmt {
			return xs(n, lit("[ 3 ] i8 { "+x.src+" , q , "+x.src+" }", N("ArrayLiteral", "Type", "[3]i8", "Values", list(x.tree, a.tree, x.tree))))
		}},
		{"member", func(x px, n string) pstmt {
			v := func(f string) string { return N("StructValue", "Name", f, "Expression", x.tree) }
			return xs(n, lit("@ S { f : "+x.src+" , g : "+x.src+" }", N("StructLiteral", "Name", "S-id", "Values", list(v("f"), v("g")))))
		}},
		{"condition", func(x px, n string) pstmt {
			return pstmt{n, "if " + x.src + " " + eb + " else if " + x.src + " " + eb, N("IfStatement", "Condition", x.tree, "Block", et, "ElseIfs", list(N("ConditionPlusBlock", "Condition", x.tree, "Block", et)))}
		}},
		{"loop condition", func(x px, n string) pstmt {
			return pstmt{n, "for i = q ; " + x.src + " ; i = " + x.src + " " + eb, N("ForStatement", "InitializerStatement", N("AssignmentStatement", "Left", pid("i").tree, "Expression", a.tree), "Condition", x.tree, "Operation", N("AssignmentStatement", "Left", pid("i").tree, "Expression", x.tree), "Block", et)}
		}},
		{"only loop condition", func(x px, n string) pstmt {
			return pstmt{n, "for " + x.src + " " + eb, N("ForStatement", "Condition", x.tree, "Block", et)}
		}},
		{"switch", func(x px, n string) pstmt {
			return pstmt{n, "switch " + x.src + " { case " + x.src + " " + eb + " default " + eb + " }", N("SwitchStatement", "Condition", x.tree, "Cases", list(N("CaseStatement", "Case", x.tree, "Block", et)), "Default", et)}
		}},
		{"values of an assignment", func(x px, n string) pstmt {
			c := func(l ...string) string { return N("CommaExpressions", "Expressions", list(l...)) }
			lh := N("CommaExpressions", "Expressions", list(pid("v").tree, pid("u").tree), "IsAssignment", "true")
			return pstmt{n, "v , u = " + x.src + " , " + x.src + " ;", N("AssignmentStatement", "Left", lh, "Expression", c(x.tree, x.tree))}
		}},
		{"values of declarations", func(x px, n string) pstmt {
			return pstmt{n, "v , u : = " + x.src + " , " + x.src + " ;", N("MultipleDeclarationStatement", "Names", "[v-id, u-id]", "Type", "?", "Expression", N("CommaExpressions", "Expressions", list(x.tree, x.tree)))}
		}},
		{"returned values", func(x px, n string) pstmt {
			return pstmt{n, "return " + x.src + " , " + x.src + " ;", N("ReturnStatement", "Expression", N("CommaExpressions", "Expressions", list(x.tree, x.tree)))}
		}},
	}
}
