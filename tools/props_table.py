AI = "path-sensitive abstract interpretation of the SSA form (dataflow over abstract values, no solver), compared with a table of the language's meaning"
TRUST = " Trusts the go/ssa translation, the checker's abstract models of the LLVM-building library and of containers, and the documented meaning of LLVM instructions."
WHY = "The suite compiles a handful of fixed programs and does not look at the meaning of the code produced; the property ranges over every "
COMP = "internals/compiler/compiler.go"
EX = "internals/compiler/compiler_conversions.go"

P("C01", "Arithmetic means what the operand types say",
  "For every operand type the language admits, each arithmetic, bitwise and shift operator (and unary minus) produces code that computes that operation on the two operands in source order, with the signedness and float-ness of their type. Adding or subtracting an integer to a pointer moves it by that many elements.",
  "all operators, all integer widths and signs, floats and pointers, and all ways an operand can be produced (variable, call result, literal)",
  WHY + "operator, operand type and operand form.",
  [EX, "internals/ops/ops.go", "internals/ctypes/ctypes.go"], [("arithmetic lowering", "internals/compiler: handleArithmetic and the prefix handlers")],
  AI, "Decides, for every path through the code generator and every operator/type/operand-form combination, which instruction on which operands is the result." + TRUST)
P("C02", "Comparisons mean what the operand types say",
  "Each comparison operator compares its operands in source order: signed integers as signed, unsigned integers as unsigned, floats as ordered floats, byte strings by their contents and other pointers by address. Logical negation yields true exactly when its operand is zero or false.",
  "all comparison operators, all comparable types, all operand forms", WHY + "comparison operator, operand type and operand form.",
  [EX, COMP], [("comparison lowering", "internals/compiler: handleComparisonOperations and the prefix handlers")],
  AI, "Decides predicate, operand order and operand loading on every generator path." + TRUST)
P("C03", "Logical operators evaluate their right operand only when needed",
  "In a && b the right operand runs exactly when the left one is true, in a || b exactly when the left one is false. The value of the whole expression is the logical conjunction or disjunction, whatever numeric type the operands have and however many blocks they need.",
  "all operand types and forms, nested constructs included (an operand may end in any block)", WHY + "shape of operands; side effects of skipped operands are never tested.",
  [EX, COMP], [("logical lowering", "internals/compiler: AND/OR code generation")],
  "abstract interpretation that recovers the generated control-flow graph, then exhaustive enumeration of its routes", "Decides all routes of the emitted graph for every operand type and form." + TRUST)
P("C04", "Operands are evaluated once, in source order",
  "Every expression evaluates each of its operands exactly once and in source order, and reads an operand that is a variable before the next operand can change it. Evaluation goes on where the last operand left off, however many blocks the operands need.",
  "all expression forms, operand forms and operands that branch", WHY + "expression form with operands that have effects or branch.",
  [EX, COMP], [("expression lowering", "internals/compiler: compileExpression and its handlers")],
  AI, "Decides the sequence of operand evaluations on every generator path of every expression form." + TRUST)
P("C05", "Casts convert values faithfully to the target type",
  "A cast between numeric types keeps the value whenever the target can represent it: integers are truncated or extended according to the sign of the source, floats convert to and from integers according to the sign of the integer type. Casts between pointers, and between pointers and integers, keep the bits.",
  "all pairs of source and target types, all operand forms", WHY + "pair of types; tests use two casts.",
  [COMP, EX], [("cast builtin", "internals/compiler: handleCast and helpers")],
  AI, "Decides the conversion instruction for each type pair on every generator path." + TRUST)
P("C06", "Constants have the value the same code would have at run time",
  "A constant expression in a global or constant initialiser is folded to the value the same expression would have if it ran: same operator on the same operands in the same order, conversions according to the types' signs, and no operand ignored.",
  "all constant expression forms, operators and type pairs", WHY + "constant expression.",
  ["internals/compiler/compiler_constant.go", COMP], [("constant folding", "internals/compiler: compileConstantExpression and the constant binary operations")],
  AI, "Decides the folded constant term for each operator, type and conversion." + TRUST)

P("C07", "Control flow follows the source",
  "If/else-if chains, switches, loops, break, continue, return and block expressions run exactly the statements the source says, in its order and under its conditions, however they are nested. A return inside a block expression ends the block expression with its value; anywhere else it leaves the function.",
  "all nestings of statements and block expressions, conditions of every type, parts that fall through, leave or branch", WHY + "nesting of control-flow statements.",
  [COMP], [("statement lowering", "internals/compiler: handleIf, handleFor, handleSwitch, handleReturn, handleBlock, handleExpressionBlock")],
  "abstract interpretation that recovers the generated control-flow graph, then comparison of its routes with the routes the program tree means", "Decides all nestings of one construct in another (quick) or two (thorough), loops unrolled twice." + TRUST)
P("C08", "Generated functions are well-formed",
  "Every function the compiler emits is one the LLVM tools accept: each block ends exactly once, nothing follows its end, no reachable block is missing or shared between functions, and a value is computed on every route before it is used.",
  "all expression and statement forms, nested, with operands and parts that branch", WHY + "combination of constructs; a malformed function is only seen if clang is run on it.",
  [COMP, EX], [("block bookkeeping", "internals/compiler: block, setBlock, addBlock and the statement handlers")],
  "abstract interpretation that recovers the generated control-flow graph, then dominance and termination checks on it", "Covers the programs of the other code-generation properties." + TRUST)
P("C09", "Memory builtins reserve what the types need",
  "@alloc(T, n) reserves n times the size of T and yields it as *T, @realloc(p, n) resizes p's block to n times the size of its element, @free hands the pointer over once, and @sizeof(T) is the size T has in the generated code. Unaligned tails, unions and nested structs count with the layout the target uses.",
  "all element types (scalars, pointers, arrays, structs, unions) and operand forms", WHY + "element type and count.",
  [COMP, "internals/ctypes/ctypes.go"], [("allocation builtins", "internals/compiler: handleAlloc, handleRealloc, handleFree, sizeof"), ("layout", "internals/ctypes: SizeOf and alignment")],
  AI, "Layouts are compared with the target's rules for scalars, pointers, arrays, unions and all structs of up to three members." + TRUST)
P("C10", "String concatenation builds a fresh, terminated string",
  "Adding two strings yields a new buffer that holds the left string, then the right one, then the terminator, and is exactly that long. The operands are only read.",
  "all operand forms and lengths", WHY + "length and operand form; an overrun by one byte rarely shows.",
  [EX, COMP], [("string addition", "internals/compiler: handleStringAdd")],
  AI, "Decides allocation size, copy targets and copy lengths as terms over the operands' lengths." + TRUST)
P("C11", "@print shows each argument according to its type",
  "@print converts every argument with the conversion that fits its width and sign, promotes what the C calling rules promote, and shows the arguments in order, none dropped. Strings print as text, structs by their name, other pointers as addresses.",
  "all printable types, operand forms and argument counts", WHY + "type and order of arguments.",
  [COMP, EX], [("print builtin", "internals/compiler: handlePrint")],
  AI, "Decides the format string and argument list of the printf call on every generator path." + TRUST)
P("C12", "Places, literals, calls and assignments mean what they say",
  "A field, element or dereference denotes exactly its own part of memory, so that what is written through one expression is read through another; taking an address yields the operand's own address. Calls pass every argument in order, literals fill every listed member or element, and assignments store once to the place on the left.",
  "all place, literal, call, assignment and declaration forms over all operand forms and types", WHY + "combination of place forms and types.",
  [EX, COMP], [("places and aggregates", "internals/compiler: field, index, pointer, literal, call and declaration handlers")],
  AI, "Decides the address or value term on every generator path of each form." + TRUST)

P("C13", "Variables hold what they were last given",
  "A variable has storage of its own and holds the value it was last assigned on every route, parameters start as the arguments in order, and a simultaneous assignment reads every value before it stores one. A declaration in an inner scope hides an outer variable of the same name only until that scope ends.",
  "all variable types and value forms; all scopes (blocks, branches, loops, switch parts, block expressions, functions) and their nesting", WHY + "combination of scopes, types and value forms.",
  [COMP, "internals/undomap/undomap.go"], [("variable storage", "internals/compiler: declarations, assignments, identifier lookup"), ("scopes", "internals/undomap and the compiler's contexts")],
  "abstract interpretation that recovers the generated control-flow graph and resolves loads against stores along each of its routes", "Decides the value returned on every route (loops unrolled once or twice) of about fifty program shapes for every type and value form." + TRUST)
P("C40", "Closures keep the values their variables had at creation",
  "A function expression sees each captured variable with the value it had when the function expression was evaluated, through any number of enclosing function expressions; assignments on one side do not reach the other. Every evaluation of a function expression has captured values of its own.",
  "all captured types and value forms, nesting of function expressions, and all evaluations of one function expression", WHY + "nesting and order of evaluation and assignment.",
  [COMP, "internals/semantic/semantic.go"], [("captures", "internals/compiler: compileAnonymousFunction; internals/semantic: analyzeIdentifier")],
  "abstract interpretation that resolves loads against stores along each route of the generated functions", "Decides which memory each captured read and write denotes and what it holds at creation; one known finding (closures of one expression share their captured values)." + TRUST)
P("C43", "Globals and constants have their initial value everywhere",
  "A global variable starts as its initialiser and is one and the same variable in all functions; a constant is its initialiser wherever it is used, also after the function that declares it has returned. A local of the same name hides either only within its scope.",
  "all scalar and string types, value forms and orders of declaration and use", WHY + "order of declarations and uses.",
  [COMP, "internals/compiler/compiler_constant.go"], [("globals", "internals/compiler: compileDeclaration and identifier lookup")],
  "abstract interpretation that resolves loads against stores along each route of the generated functions", "Decides identity and initial value of the memory behind each use." + TRUST)

SEM = "internals/semantic/semantic.go"
AIS = "path-sensitive abstract interpretation of the analyzer over families of program trees whose leaves are abstract; every path is classified as accepted or rejected"
TS = " Trusted: go/ssa and the models of library calls."
P("C14", "A value only flows into a place of its own type",
  "An initialiser, assigned value, argument, returned value, literal member or element is accepted only where its type is the type of the place it goes to, and always then. Types are the same when they are built alike from the same parts; a union also takes a value of one of its members; nothing else converts implicitly.",
  "all pairs of types and all kinds of places", "Tests compile a few well-typed programs; ill-typed pairs are quadratically many and none is tried.",
  [SEM, "internals/ctypes/types.go"], [("type comparison", "internals/semantic: areTypesEqual"), ("places", "internals/semantic: declarations, assignments, calls, returns, literals")],
  AIS, "Decides acceptance for 15 kinds of places times pairs drawn from a pool of types (scalars, pointers, arrays, functions, structs, unions, nested)." + TS)

P("C15", "Operators accept exactly the operands they are defined for",
  "Arithmetic, comparison, bitwise, shift, logical and prefix operators, indices, conditions, conversions and built-in functions are accepted exactly on the operand types they are defined for. Their result has the type the language gives it.",
  "all operators, conditions, conversions and built-in functions times all operand types", "Tests use each operator on one or two types and never on a wrong one.",
  [SEM, "internals/semantic/semantic_builtin.go"], [("operators", "internals/semantic: analyzeArithmetic, analyzePrefixOperation, analyzeIndexAccess"), ("built-ins", "internals/semantic: semantic_builtin.go")],
  AIS, "Decides acceptance, result type and the type recorded for the compiler for every operator over a pool of types." + TS)
P("C16", "Constants never change and only places are stored to",
  "Assignments, increments and decrements are accepted only on variables, fields, elements and dereferenced pointers, and never on a constant or a part of one, however deep in an expression or function expression they are. Constants can be read everywhere a value is allowed, also within what is stored to. The initialiser of a constant and the values of switch cases are accepted only if they are made of literals and constants.",
  "all storing constructs, places and kinds of variables and constants (local, global, captured, listed, shadowed)", "Tests declare a few constants and never try to change one.",
  [SEM], [("mutation", "internals/semantic: analyzeAssigmentStatement, analyzePrefixOperation, analyzeIdentifier"), ("constant expressions", "internals/semantic: throwInvalidOperationForConstant and its callers")],
  AIS, "Decides acceptance for every kind of variable times place times storing construct." + TS)
P("C17", "A function with a result returns on every route",
  "A function, function expression or block expression that has a result type is accepted only if every route through it ends in a return: an if needs an else and a switch a default, with all parts returning, and loops never count. Such functions are accepted, whatever the nesting, and returns of inner functions or block expressions do not count for the outer one.",
  "all nestings of control-flow constructs with parts that return or do not", "Tests contain a few functions; falling off the end is undefined behaviour that only some inputs reach.",
  [SEM], [("return analysis", "internals/semantic: returns flag in analyzeStatements, analyzeIf, analyzeSwitchStatement, analyzeFor, analyzeExpressionBlock, analyzeFunctionType")],
  AIS, "Decides acceptance of all constructs nested one in another (quick: a sample of the second level)." + TS)
P("C18", "break and continue belong to a loop of their function",
  "break and continue are accepted exactly inside the body of a loop of the same function, also within branches, blocks, switches and block expressions there. After a loop, or in a function expression or nested function that is merely written inside a loop, they are rejected.",
  "all nestings of loops, other constructs and functions", "Tests use break and continue in a few correct loops only.",
  [SEM], [("loop context", "internals/semantic: insideBreakableBlock")],
  AIS, "Decides acceptance of break and continue in every construct within 21 surroundings." + TS)
P("C21", "Everything that is compiled was analysed",
  "Every statement and expression of an accepted program that is handed to the code generation has been type-checked first, in every construct and position. What can be executed is never dropped from the program.",
  "all statement and expression forms, positions and nestings, dead code included", "An unchecked part compiles as long as it is correct, which it is in every test.",
  [SEM], [("traversal", "internals/semantic: the analyze methods")],
  AIS + "; the parts left in the tree are compared with the parts the analyzer visited", "Covers the programs of C14, C15, C17 and C18." + TS)

P("C19", "A name denotes the innermost declaration before it",
  "Every use of a variable name denotes the innermost declaration around it that comes before it, with that declaration's type; a scope ends with the construct that opens it, and a function declared inside another sees none of its variables. Uses of variables, types, members and functions that are declared nowhere around them are rejected, declared ones accepted.",
  "all scope-opening constructs, ways to declare and nestings; all positions a type name can stand in", "Tests use distinct names in straightforward scopes; nothing undefined is ever tried in most positions.",
  [SEM, "internals/semantic/semantic_steps.go", "internals/undomap/undomap.go"], [("scopes", "internals/semantic: enterFrame, leaveFrame, analyzeIdentifier"), ("type names", "internals/semantic: replaceAnonymous")],
  AIS, "Decides, with probes of a declared type, which declaration a use denotes for every construct and way to declare." + TS)

P("C22", "Calls fit the function that is called",
  "Only functions can be called, with one argument of the right type for each parameter, in order; a variadic external function also takes further ones. A method call is the call of the function of that name whose first parameter has the type of the receiver, with the receiver passed before the arguments; members take precedence over methods, and a method is no value by itself.",
  "all ways to give the called function, argument counts, argument types and receiver types", "Tests call functions correctly; wrong calls and most receivers are never tried.",
  [SEM], [("calls", "internals/semantic: analyzeFunctionCall"), ("methods", "internals/semantic: analyzeFieldAccess, findMethod, analyzeMethodAccess")],
  AIS + "; the call left in the tree is compared with the receiver and the arguments", "Decides acceptance, result type and the call handed to the compiler." + TS)

PAR, LEX = "internals/parser/parser.go", "internals/lexer/lexer.go"
AIP = "path-sensitive abstract interpretation of the parser over families of token sequences"
P("C26", "Expressions group by the rules of precedence",
  "An expression groups by the precedence of its operators: from loosest to tightest assignment, comma, logical operators, comparisons, sums, bitwise operators and shifts, products, as, prefix operators, calls, indices and members. Operators of one precedence group from left to right, and parentheses override both, wherever the expression stands. Every operator in the program is the one that was written.",
  "all combinations of operators in one another's operands, in all positions of expressions", "Tests write a few expressions; combinations of operators are many, and a wrong grouping compiles and gives another value.",
  [PAR], [("precedence", "internals/parser: precedence table, parseExpression, prefix and infix functions")],
  AIP + "; the tree built on each path is compared with the tree the rules of precedence give", "Decides all pairs of operators (thorough: all triples) with prefix and postfix forms, in 19 positions." + TS)
P("C30", "Every construct is read as it is written",
  "Every statement, declaration, expression and type form of the language is accepted in every place it may stand, and the program then contains exactly what was written: the construct, its parts in their order, names, types and values. Nothing that is written is dropped, moved, read twice or read as something else.",
  "all statement, declaration, expression and type forms, with all options and numbers of parts, in all places", "Tests parse some programs and mostly check that no error is reported; a form that loses a part still compiles.",
  [PAR], [("statements and declarations", "internals/parser: parseStatement and the parse methods"), ("types", "internals/parser: parseType")],
  AIP + "; the tree built on each path is compared with the tree the form stands for", "Decides all forms of types in all places of types, all forms of statements in all places of statements, and all forms of literals." + TS)
P("C31", "Syntax errors are reported",
  "A program that leaves out something required, has an unbalanced bracket or an unknown character, or ends too early is rejected with an error message, whatever comes after the mistake. Reading it never crashes, and a program that is accepted has no empty parts.",
  "all forms of the language, damaged at each position", "Tests only contain correct programs; an accepted mistake silently changes what the program means.",
  [PAR], [("errors", "internals/parser: addErrorMessage, nextToken")],
  AIP + "; every path of a wrong program has to end with an error, every path at all without a crash", "Decides, for every form: each token replaced by an unknown one, each bracket and required part removed, the text cut short." + TS)
P("C28", "Reading and checking a program always ends",
  "The compiler finishes reading any text, correct or not, and tells what it found: no input makes the lexer or the parser go round in circles. Types that contain themselves, directly or through arrays and other types, are rejected; containing a pointer to itself is allowed.",
  "all texts: arbitrary bytes and arbitrary sequences of tokens", "Tests only contain a few correct programs; whether an incorrect one is read forever cannot be sampled.",
  [PAR, LEX, "internals/semantic/semantic_steps.go"], [("lexer loops", "internals/lexer"), ("parser loops and recursion", "internals/parser"), ("recursive types", "internals/semantic")],
  "progress analysis of the SSA form: every loop and recursion cycle has to read an item or count, and cannot go on at the end of the text; abstract interpretation for recursive types", "All loops and call cycles of the lexer and the parser for each byte and token that can be at hand." + TS)
P("C27", "Text is read as the tokens it spells",
  "Names, keywords, numbers in all their notations, strings and character literals with their escapes, operators and separators become exactly the tokens the text spells, with the value written; the longest operator wins, and comments and blanks only separate. Every token carries the line it stands on. A string or character literal that never ends, and a byte that starts no token, become an unknown token that is later reported.",
  "all texts made of every byte value in every position of every form of token", "Tests read a handful of texts; the bytes of a program are arbitrary and a wrong one only changes a value.",
  [LEX, "internals/token/token.go"], [("tokens", "internals/lexer: NextToken and the read methods"), ("keywords", "internals/token: LookupIdent")],
  "path-sensitive abstract interpretation of the lexer over texts whose unknown bytes range over sets of values; the tokens of each path are compared with the rules of the language",
  "Decides, for every form of token with unknown bytes in it, kind, value and line of all tokens read." + TS)

BLD = ["internals/build/builder.go", "internals/program/program.go", "internals/compiler/compiler.go"]
AIT = "path-sensitive abstract interpretation of the command line tools from main, each outside step (files, lexer, parser, analyzer, external programs) standing in with both outcomes"
P("C23", "Errors in a program stop the build and are all printed",
  "When reading or checking a program finds errors, no code is generated, no file written and no program run; the tool prints every error that was found and ends with a status other than zero. The candice tool also prints every warning, whether there are errors or not.",
  "all modes and options of the tools, all outcomes of every step", "Tests never run the command line tools, and no test looks at what happens after an error.",
  BLD, [("candice", "internals/build: ExecuteProject"), ("old tool", "internals/program: Init")],
  AIT, "Decides, on every path through both tools, what happens after errors and what is printed." + TS)
P("C35", "The exit status tells whether the tool succeeded",
  "The tools end with status zero exactly when everything that was asked for worked. Any failing step (bad arguments, a file that cannot be read, decoded or written, the C compiler or the program failing) stops the rest, is printed and gives a status other than zero; running a program passes on its own status when it fails.",
  "all modes and options, every outside step failing or not", "Tests never run the tools; a step that fails is never simulated.",
  BLD + ["internals/build/config.go", "internals/build/flags.go", "internals/compiler/compiler_rest.go"], [("candice", "internals/build: ExecuteProject, createSampleProject"), ("code generation", "internals/compiler: GenerateExecutable*")],
  AIT, "Decides status, messages and what still runs on every path with every combination of failing steps." + TS)
P("C34", "The tools build and run what the project file says",
  "What is compiled is the text of the project's entry point, after it was parsed and analysed without errors. The compiler that the project names is called on the code generated for it, with the project's flags, the flags the program itself asks for and the ones of the release mode, and writes to the output of the project; run mode then runs that output with the tool's input and outputs.",
  "all modes, kinds of compilation, kinds of output and options", "Tests do not call the C compiler through a project file.",
  BLD + ["internals/build/config.go", "internals/build/flags.go", "internals/compiler/compiler_rest.go"], [("candice", "internals/build: ExecuteProject, ParseConfigurationFile, retrieveFlags"), ("code generation", "internals/compiler: GenerateExecutable*")],
  AIT + "; the arguments of each external program are compared with what the project says", "Decides text, order and command lines on every path that gets to run something." + TS)

P("C24", "Imports give the file at the path, its names and its types",
  "An import makes the declarations of the file at that path, relative to the importing file, usable through the name of the import, and nothing else usable. The same file with the same types is one module wherever it is imported; with other types it is another, whose types are not interchangeable. A missing file, mistakes or a main function in an imported file, types that do not fit and circles of imports are reported.",
  "all arrangements of importing files, paths, uses of members and types given to modules", "Tests import a few files in one arrangement and only use them correctly.",
  [SEM, "internals/semantic/semantic_steps.go"], [("imports", "internals/semantic: analyzeImport, typeKey"), ("members", "internals/semantic: analyzeFieldAccess, UnwrapAnonymous, TranslateName")],
  AIS + "; the file system, the lexer and the parser stand in for the imported files", "Decides acceptance of programs of up to five files for every way to use what was imported and every pair of types given to modules." + TS)

P("C38", "Functions and variables are linked under the right names",
  "A public function can be called from C under its own name with the parameters and result it declares, and main is the entry of the program, whatever it returns. An external function is the C function of its name in every module that declares it, wherever in the file; functions, variables and types of different modules never get in each other's way, even if they have the same names, and what a module declares exists once however often it is imported. A program that declares two functions, two types or two imports of the same name in one file, or imports a file with a main of its own, is rejected.",
  "all programs of one and several files with public, external and equally named declarations in any order", "Tests have one file with few functions; collisions of names need several files, several declarations or an unusual order.",
  [COMP, "internals/compiler/compiler_steps.go", SEM, "internals/semantic/semantic_steps.go"], [("functions", "internals/compiler: compileFunctionType, compileFunctionRedeclaration, compileExternFunc"), ("modules", "internals/compiler: Compile (imports), compiledModules"), ("variables", "internals/compiler: retrieveVariable"), ("duplicates", "internals/semantic: expectUniqueNames, analyzeImport")],
  AIS + " and of the code generator; the names, signatures, bodies and references of everything generated are compared with the program", "Covers programs of up to four files. That the parser gives each name the suffix of its file is part of C30." + TS)

P("C45", "Compiling takes time and memory in proportion to the program",
  "The time and memory that reading, checking and translating a program take grow no faster than its size allows, whatever the program.",
  "all programs, by size", "Tests measure nothing and are small.",
  [PAR, SEM, COMP], [("parser", "internals/parser"), ("semantic analysis", "internals/semantic"), ("code generation", "internals/compiler")],
  "", "", na="Time and memory are run-time quantities: a static bound on the cost of the recursive passes (and of the library that prints the module) needs an amortised cost analysis that is out of reach; that each pass ends is decided by C28.")

P("C41", "The printed tree shows the whole program",
  "The tree that the tree command prints shows every part of the program once, in source order and below the construct it belongs to, drawn with connectors that can be read back as a tree; programs that differ in anything but layout and spelling of the same thing are printed differently. Printing never crashes; it writes the tree once, and reports the faults of a faulty file.",
  "all programs: every construct with every number and presence of parts, in every place", "Tests compare the drawings of four small programs.",
  ["internals/tree_printer/printer.go", "internals/ctypes/types.go"], [("statements and expressions", "internals/tree_printer: Process, processExpression"), ("drawing", "internals/tree_printer: ConnectString"), ("command", "internals/tree_printer: WriteOutput")],
  "abstract interpretation of the printer over complete syntax trees; the drawing it yields is read back as a tree and compared with the program", "Covers every construct of the language with up to three parts of a kind, alone, in sequence and in 21 surroundings." + TS)

P("C44", "Accepted programs are translated to the end",
  "A program that the semantic analysis accepts is translated completely: the code generator neither crashes nor gives up with an internal error on it, and the functions it makes are well-formed. This holds for every use of types, operators, calls, declarations, scopes, control flow and imports that is accepted.",
  "all accepted programs", "Tests translate a few accepted programs; the property ranges over everything the analysis lets through.",
  [SEM, COMP], [("acceptance", "internals/semantic: Analyze"), ("translation", "internals/compiler: New, Compile")],
  "abstract interpretation of the analysis and, on the syntax trees it leaves behind, of the code generator; every path is followed to its end", "Covers the accepted programs of C14-C19, C22, C24 and C48. How constant expressions become values is decided by C06, so their translation is abstract here." + TS)
P("C46", "Generated instructions get operands of the types they demand",
  "Every instruction the compiler emits gets operands of the types LLVM demands: what is stored or loaded has the type of the place, both operands of an operator agree, conversions go between the kinds they are for, calls pass what the parameters take, functions return values of their type and branches decide on truth values. Every type that is used is one LLVM has.",
  "all expression and statement forms with operands of all types, and all accepted programs", WHY + "construct and operand type; a wrong type is only seen if clang is run on it, or not at all where pointers are opaque.",
  [COMP, "internals/compiler/compiler_conversions.go", "internals/compiler/compiler_types.go"], [("types of values", "internals/compiler: ToLLVMType"), ("conversions", "internals/compiler: toBool, handleIntegerCast, handleCast, bitcastIfUnion")],
  "abstract interpretation of the code generator; type rules of LLVM instructions are decided on every instruction of every path", "Covers the scenarios of C01-C05, C07, C09, C11-C13, C40, C43 and the accepted programs of C14-C19, C22, C24 and C48." + TRUST)
P("C47", "Inline assembly gets what was written",
  "Inline assembly is the text that was written, once, applied to the values of the operands that were written in their order, for operands of every type and number. It is told of one register for its result, if it has one, and one for each operand, and its expression is the value it yields, also where that is a pointer.",
  "all operand types, kinds and numbers of operands and all types of results", "No test uses inline assembly.",
  [COMP, "internals/compiler/compiler_utils.go"], [("inline assembly", "internals/compiler: the asm builtin, asm, parametersToAsmConstraint")],
  AI, "Decides text, operands, constraints, type and result on every path." + TRUST)
P("C48", "Nothing has the type void, pointers to void are pointers",
  "The type void is only the type of what functions, blocks and assembly yield and what pointers may point to: variables, parameters, fields, elements and operands of it, or of types that contain such parts, are rejected wherever they are written. What a function without a result yields can only be a statement or be returned by such a function. Pointers to void are declared, passed, stored, cast, compared and returned like other pointers, and can't be dereferenced.",
  "all types made with void in all positions, all uses of a call without a result", "One test passes a pointer to void; nothing tries a void value.",
  [SEM, "internals/semantic/semantic_builtin.go"], [("void", "internals/semantic: checkHasValues and its callers")],
  AIS, "Decides acceptance for every position times type form, and for every use of a void value; C44 and C46 follow the accepted ones through the code generator." + TS)
P("C49", "What may be named once is named once",
  "A parameter that appears twice in a function, a field that appears twice in a struct, a union or a literal, and a value that appears twice among the cases of a switch stop the compilation, wherever they stand. The same name in another function, also one inside the first, in another type or another literal, and the same case in another switch are accepted.",
  "all pairs of positions in lists of up to five names and four cases, in all places of functions, types, literals and switches", "Nothing in the tests names anything twice.",
  [SEM, "internals/semantic/semantic_steps.go", COMP], [("names", "internals/semantic: expectUniqueMembers, analyzeStructLiteral"), ("cases", "internals/compiler: compileSwitchStatement")],
  AIS, "Decides acceptance for every pair of positions; cases are followed through the code generator." + TS)
P("C50", "Loops don't use up the stack",
  "The stack a call of a function takes does not depend on how often its loops turn: nothing that stands in the body, the condition or the step of a loop, no variable, literal, operator, call, nested statement or temporary, takes more of it on every turn. The space of one turn is used again by the next.",
  "every construct in a loop, every route through the generated control flow", "A test loops a few times; the stack is used up after a million turns.",
  [COMP], [("space", "internals/compiler: allocate, and every construct that reserves space")],
  AI, "Every scenario of the code generation properties is put into a block that may be a loop's body, and accepted programs into a loop; no block on a cycle of the generated graph may reserve space." + TS)
