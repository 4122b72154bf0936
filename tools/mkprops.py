#!/usr/bin/env python3
# Writes /verif/properties.jsonl (run by hand when the list changes).
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["result of evaluating an expression through the interpreter"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
E='expreduce/'
p("C01","Pattern matching decides exactly the matches the pattern language defines",
 "An expression matches a pattern built from literals, typed and untyped blanks, named parts, blank sequences, repeats, alternatives, exceptions, tests, conditions, optional parts and held or verbatim patterns exactly when some assignment of the named parts makes the pattern equal the expression. For heads with the Flat, Orderless or OneIdentity attributes the assignment may regroup, reorder or unwrap the arguments accordingly. A repeated name always stands for the same expression. A part under an alternative, an exception, a test, a condition or an optional commits to the first way in which it matches, conditions see the names bound before them, and repeats are arguments.",
 ["inputs"],"every expression and every pattern of the pattern language (checked: generated expressions/patterns over a small signature, including Flat/Orderless/OneIdentity heads)",
 "The bundled tests try a few hundred fixed expression/pattern pairs; matching is a backtracking search whose failures show only for particular combinations of sequence lengths, repeated names and attributes.",
 [E+'matcher/matchq.go',E+'matcher/blank.go',E+'matcher/parse_form.go',E+'matcher/allocations.go'],
 [("backtracking matcher",E+"matcher/matchq.go NewMatchIter"),("form parsing",E+"matcher/parse_form.go parseForm"),("blank capture",E+"matcher/blank.go")],
 obs=["MatchQ[expr, pattern]","Cases, Switch, Replace results"])
p("C02","Match enumeration is complete, duplicate free and ordered",
 "Listing all replacements of an expression by a rule yields one result per distinct way of distributing the arguments over the pattern parts, in the documented order: shortest allocation first from left to right (optional parts take an argument when they can), and for unordered heads every selection of arguments in lexicographic order. No way is missing and none is listed twice.",
 ["inputs"],"every argument list length and every pattern made of single, sequence, null-sequence, repeated and optional parts, ordered, Flat or Orderless",
 "The allocation tests pin a dozen hand-picked shapes; completeness and order over all shapes is a statement over every combination of part ranges and lengths.",
 [E+'matcher/allocations.go',E+'matcher/matchq.go',E+'builtin_pattern.go'],
 [("allocation iterator",E+"matcher/allocations.go allocIter"),("orderless assignment iterator",E+"matcher/allocations.go assnIter"),("ReplaceList",E+"builtin_pattern.go")],
 obs=["ReplaceList[expr, rule]"])
p("C03","Pattern variables stay local to a successful match",
 "Names bound while a branch of a pattern is tried and fails are not visible in the branch that finally matches, in later rules, or after the match. The bindings that reach the right-hand side are exactly those of the successful match, and a name that only occurs in an untaken branch is left as it is. Applying a definition or a rule never changes the rule itself.",
 ["inputs","histories"],"every pattern with failing branches (alternatives, exceptions, tests, conditions, optional parts, backtracking sequences) and every sequence of uses of the same rule",
 "Leaks need a branch that first binds and then fails; the bundled tests mostly use patterns whose first attempt succeeds and use each rule once.",
 [E+'matcher/matchq.go',E+'matcher/pdmanager.go',E+'matcher/pdreplace.go',E+'replace.go'],
 [("binding tables copied per branch",E+"matcher/pdmanager.go copyPD"),("substitution on a copy",E+"matcher/pdreplace.go ReplacePD")],
 [("patternDefined","name to expression bindings of a match",E+"matcher/pdmanager.go")],
 ["Replace/ReplaceAll/definition results, repeated uses of one rule"])
p("C04","Canonical order is a total order",
 "The canonical order compares any two expressions consistently: an expression equals only itself in the order, swapping the arguments negates the answer, and the relation is transitive. Numbers come before strings, strings before symbols and symbols before compound expressions; numbers compare by value, strings and symbols lexicographically, shorter compound expressions before longer ones of the same kind.",
 ["inputs"],"all pairs and triples of expressions (numbers of every type, strings, symbols, compounds, products and powers)",
 "Totality and transitivity quantify over all triples; the tests compare a few dozen fixed pairs.",
 [E+'atoms/order.go',E+'builtin_sort.go'],
 [("comparison function",E+"atoms/order.go ExOrder"),("Order",E+"builtin_sort.go")],
 obs=["Order[a, b]","OrderedQ-like use in Sort"])
p("C05","Sorting and normal forms do not depend on the order or nesting of the input",
 "Sorting returns a permutation of its elements in canonical order, whatever the initial order. Calls of a head that is Orderless, Flat or both evaluate to the same expression for every permutation and every regrouping of the same arguments, and Listable heads thread over equally long lists element by element.",
 ["inputs"],"all argument multisets, permutations and nestings of the listed shapes, for built-in and user-defined attribute combinations",
 "Tests sort a handful of lists; invariance under all permutations and regroupings is a universally quantified statement.",
 [E+'eval.go',E+'builtin_sort.go',E+'atoms/ex_expression.go',E+'builtin_list.go'],
 [("attribute normalisation in the evaluation loop",E+"eval.go evalExpression"),("Sort",E+"builtin_sort.go")],
 obs=["Sort, evaluated calls of Orderless/Flat/Listable heads"])
p("C06","Structural identity, hashing and set operations agree",
 "Two expressions are identical exactly when they have the same structure, the same atom types and values; identical expressions have equal hashes. Union, Intersection, Complement, DeleteDuplicates, Tally, Count, Position-free membership tests and Counts of elements all use that identity, and set results are duplicate free, complete and in the documented order.",
 ["inputs"],"all pairs of expressions and all small lists with repeated, equal-valued but differently typed, and nested elements",
 "The agreement between identity, hash and the set operations ranges over all pairs; tests use a few lists of small integers and symbols.",
 [E+'atoms/sameq.go',E+'atoms/ex_expression.go',E+'builtin_list.go',E+'builtin_comparison.go'],
 [("structural identity",E+"atoms/sameq.go IsSameQ"),("hash",E+"atoms/ex_expression.go Hash"),("set operations",E+"builtin_list.go")],
 obs=["SameQ, UnsameQ, Union, Intersection, Complement, DeleteDuplicates, Tally, Count, MemberQ, FreeQ, Hash"])
p("C07","Evaluating an expression never changes another value",
 "Values already stored in variables, definitions, rules or earlier results stay the same when they are used as input of any further evaluation; only an explicit assignment to a symbol changes what that symbol stands for. Reading a variable twice without an assignment in between gives identical results, and a copy of a list never changes when the original is reassigned or extended.",
 ["histories","programs"],"every sequence of evaluations that reads stored values through built-in functions",
 "The interpreter shares subexpressions in place; a mutation shows only when the same value is read again after the operation, which the single-expression tests do not do.",
 [E+'eval.go',E+'evalstate.go',E+'atoms/ex_expression.go',E+'atoms/calculator.go'],
 [("copying before in-place evaluation",E+"eval.go, DeepCopy calls in the builtins")],
 [("definitions","stored own values and rules",E+"evalstate.go EvalState.defined")],
 ["re-reading variables and rules after every operation"])
p("C08","Integer, rational and complex arithmetic is exact",
 "Sums, products, differences, quotients and integer powers of exact numbers of any size give the mathematically exact value in lowest terms, integers when the denominator is one. Like terms and like factors of symbolic sums and products are collected with exact coefficients. 1/0 is ComplexInfinity, and 0/0, 0^0, 0*Infinity and Infinity-Infinity are Indeterminate.",
 ["inputs"],"all integers (beyond machine words), rationals and Gaussian rationals, and sums/products of them with symbols",
 "Arithmetic identities quantify over all numbers, in particular those beyond 64 bits and negative or unnormalised fractions; tests use small ones.",
 [E+'builtin_arithmetic.go',E+'builtin_power.go',E+'atoms/calculator.go',E+'atoms/ex_rational.go',E+'atoms/ex_complex.go'],
 [("constant folding",E+"atoms/calculator.go"),("rational normal form",E+"eval.go evalRational"),("collection of terms",E+"builtin_arithmetic.go")])
p("C09","Comparisons are sound and three valued",
 "Equal, Unequal, the four inequalities, Positive, Negative, Max and Min of numbers give True or False exactly as the exact values compare, for chains as well as pairs. When an argument is symbolic the comparison stays unevaluated unless the arguments are identical, and SameQ and UnsameQ always decide.",
 ["inputs"],"all chains of exact numbers, reals, strings and symbols of any length",
 "Mixed numeric types and chains with undecided parts are combinatorial; the tests use short chains of integers.",
 [E+'builtin_comparison.go',E+'atoms/ex_integer.go',E+'atoms/ex_rational.go',E+'atoms/ex_real.go'],
 [("numeric comparison",E+"builtin_comparison.go"),("IsEqual",E+"atoms")])
p("C10","Operators parse with the documented precedence and associativity",
 "Source text denotes the expression given by the operator table: tighter operators bind first, same-level operators associate in the documented direction, and prefix, postfix and implicit-multiplication forms nest accordingly. Adding redundant parentheses or white space around operands never changes the parsed expression, and text that is not an expression, or for which the system has none, is rejected with a syntax error rather than misread, after which reading goes on.",
 ["inputs"],"every combination of operators of the grammar to the explored depth, with and without parentheses and spacing",
 "All pairs and triples of operators in all positions are hundreds of thousands of sentences; the tests contain about a hundred.",
 [E+'parser/interp.go',E+'parser/interp.y'],
 [("token and operator tables",E+"parser/interp.go"),("reduction of flat operator runs",E+"parser/interp.go rewriting")],
 obs=["parser.Interp of source text"])
p("C11","Printed input form reads back as the same expression",
 "The InputForm and the FullForm text of an expression, parsed again in the same context, denotes the identical expression: what it reads as, evaluated, is that expression again. Parentheses are printed wherever precedence requires them and symbols outside the context path, or shadowed on it, keep their context. (HoldForm, which is shown without its head on purpose, is no part of this; inside of held expressions the sign of a number and the bar of a fraction read as the operations they are evaluated from.)",
 ["inputs"],"all expressions over the printable atoms and operators",
 "The round trip is a statement about every nesting of operators; tests compare a few fixed strings.",
 [E+'string.go',E+'atoms/ex_string.go',E+'atoms/ex_expression.go',E+'parser/interp.go'],
 [("operator printing with parentheses",E+"string.go needsParens"),("parser",E+"parser/interp.go")],
 obs=["StringForm / ToString[expr, InputForm], then parsing"])
p("C12","Symbol names resolve through the current context and the context path",
 "An unqualified name denotes the already known symbol of that name found first along the context path, otherwise a symbol of the current context; a qualified name denotes itself. Begin and BeginPackage make their context current and remember the one before; the matching End and EndPackage restore it (Begin may be used inside of BeginPackage; neither nests in itself), BeginPackage narrows the context path to the package and System`, and EndPackage puts the package in front of the previous path.",
 ["histories"],"every sequence of context changes, definitions and uses of names",
 "Resolution depends on the history of seen symbols and the stack; tests exercise two short scripts.",
 [E+'parser/interp.go',E+'resources.go',E+'evalstate.go'],
 [("name resolution",E+"parser/interp.go convertParserSymbol/ReplaceSyms"),("package stack",E+"resources.go BeginPackage, EndPackage, Begin, End")],
 [("$Context, $ContextPath, $ExpreduceContextStack","current context, search path and stack",E+"evalstate.go")],
 ["full names of parsed symbols, $Context, $ContextPath"])
p("C13","Definitions are ordered by specificity and replaced only by the same left side",
 "Assigning to a pattern already defined (with the same condition) replaces that rule and nothing else; a new pattern is added without affecting the others. A call uses the first applicable rule, more specific patterns before more general ones and equally specific ones in the order of definition; clearing a symbol removes all of its rules and leaves other symbols alone.",
 ["histories"],"every sequence of assignments, clears and calls over a family of left-hand sides",
 "Rule order depends on the whole history of assignments; tests define two or three rules in one order.",
 [E+'evalstate.go',E+'definition_map.go',E+'builtin_system.go'],
 [("insertion by specificity",E+"evalstate.go Define"),("lookup",E+"evalstate.go GetDef")],
 [("Downvalues","ordered rules of a symbol",E+"evalstate.go")],
 ["results of calls, DownValues[f]"])
p("C14","Attributes are recorded exactly and govern evaluation",
 "Setting, adding and clearing attributes leaves exactly the requested set, readable in sorted order, and never touches the values of the symbol or the attributes of others. HoldFirst, HoldRest, HoldAll, HoldAllComplete, SequenceHold, Flat, Orderless, OneIdentity and Listable affect the evaluation of calls in the documented way from that moment on.",
 ["histories","configurations"],"every set of attributes, every history of attribute changes, and calls of every arity",
 "The space of attribute sets times histories times calls is far beyond the fixed examples of the tests.",
 [E+'evalstate.go',E+'eval.go',E+'atoms/ex_symbol.go',E+'resources.go'],
 [("attribute store",E+"evalstate.go defineAttrs"),("use in the evaluator",E+"eval.go evalExpression")],
 obs=["Attributes[f], results of calls"])
p("C15","Evaluation is the leftmost-innermost fixed point of the rules",
 "Evaluating an expression evaluates the head and the arguments that are not held, in order from left to right, splices sequences, applies attributes, then built-in code, then user rules, and repeats until nothing changes. Side effects happen exactly once per evaluation of the part that causes them, in that order, and evaluating a result again (with unchanged definitions) returns the same result.",
 ["programs"],"all programs over user definitions, held and unheld heads, sequences, Evaluate and Unevaluated",
 "The order and multiplicity of side effects over all programs cannot be sampled by result-only tests.",
 [E+'eval.go'],
 [("evaluation loop",E+"eval.go Eval, evalExpression"),("sequence splicing",E+"eval.go mergeSequences")],
 obs=["results and the sequence of recorded side effects"])
p("C16","Control structures execute exactly the selected branches and iterations",
 "If, Which, Switch, While, Do, For and compound expressions evaluate their tests in order and exactly the selected branches, the documented number of times. Return leaves the enclosing definition or loop with its value and Break the enclosing loop, and side effects after the exit do not happen.",
 ["programs"],"all programs nesting these structures with assignments and early exits",
 "Nesting of loops, returns and breaks gives unboundedly many control paths; tests cover a few straight ones.",
 [E+'builtin_flowcontrol.go',E+'eval.go'],
 [("control structures",E+"builtin_flowcontrol.go"),("Return handling",E+"eval.go tryReturnValue")],
 obs=["results, variable values and side effects after the program"])
p("C17","Local variables and iterators never leak",
 "Module variables are fresh symbols, With constants are substituted textually, Block localizes like Module, and iteration variables get their previous value back when the construct ends, whether it ends normally, by Return or by a Throw. Code outside the construct sees no change of an outer variable of the same name, also for recursive and nested use.",
 ["programs"],"all nestings of Module, With, Block, Table, Do, Sum, Product and early exits over shared names",
 "Restoration must hold on every exit path and nesting; tests check normal exits only.",
 [E+'builtin_system.go',E+'builtin_flowcontrol.go',E+'iterspec/iterspec.go',E+'resources.go'],
 [("fresh names",E+"builtin_system.go applyModuleFn"),("Block",E+"builtin_system.go"),("iterator snapshot",E+"iterspec/iterspec.go TakeVarSnapshot")],
 obs=["variable values during and after the construct"])
p("C18","A thrown value reaches the nearest Catch and nothing after it runs",
 "Throw abandons every pending evaluation up to the innermost enclosing Catch, whose value is the thrown value; no side effect that lexically follows happens. An uncaught Throw is reported as a held Throw at top level, and afterwards the session continues as if the input had simply ended: the next inputs evaluate normally and all bookkeeping goes on.",
 ["programs","histories"],"all positions of Throw and Catch inside arguments, loops, definitions, conditions and nested catches, and the inputs that follow",
 "Propagation through every evaluation context and recovery afterwards is a statement about all programs and sessions.",
 [E+'eval.go',E+'evalstate.go',E+'builtin_system.go'],
 [("pending throw",E+"evalstate.go Throw/HasThrown"),("top-level recovery",E+"evalstate.go ProcessTopLevelResult")],
 [("thrown","the pending thrown expression",E+"evalstate.go")],
 ["results and side effects of a session"])
p("C19","Replacement rewrites exactly the parts it should",
 "Replace rewrites only the whole expression, ReplaceAll every outermost matching part from the top down without descending into replaced parts, ReplaceRepeated until nothing changes, and ReplacePart only the given positions. Immediate rules use the value of the right side at rule creation, delayed rules evaluate it after substitution, and held parts stay held.",
 ["inputs"],"all expressions, rules and rule lists of the explored size",
 "Which occurrences are rewritten depends on the shape of the whole expression; tests use small fixed expressions.",
 [E+'replace.go',E+'eval.go',E+'builtin_replacement.go'],
 [("top-down replacement",E+"eval.go exprReplaceAll"),("rule application",E+"replace.go"),("Replace family",E+"builtin_replacement.go")])
p("C20","Iterator specifications enumerate exactly the arithmetic sequence or list",
 "A specification {i,n}, {i,a,b}, {i,a,b,d} or {i,list} runs the body once for each value a, a+d, ... not beyond b (in either direction) or each list element, in order; an empty range runs it zero times. Several specifications (with bounds that do not depend on each other) run the body once per combination with the last varying fastest, and Table collects the results in one flat list in that order. Table, ParallelTable, Do, Sum, Product, Range, Array[f,n] and ConstantArray[c,n] agree on this, and Table[expr,n] gives n copies.",
 ["inputs"],"all bounds, steps (positive, negative, rational) and nestings of the explored size",
 "Boundary behaviour depends on all combinations of bounds and steps; tests use a few positive integer ranges.",
 [E+'iterspec/iterspec.go',E+'builtin_list.go',E+'resources.go'],
 [("iterators",E+"iterspec/iterspec.go")])
p("C21","Structural list operations select and rearrange exactly what is addressed",
 "Part, Take, Drop-like spans, First, Last, Rest, Append, Prepend, Join, Reverse, Flatten, Partition-like padding, Thread, Transpose, Count, Select, Cases and Delete-style operations return exactly the elements their position, span, level or criterion addresses, in order, keep the head, and never change the others. Positions out of range leave the expression unevaluated.",
 ["inputs"],"all lists and expressions of the explored size, all positive, negative and out-of-range positions and spans",
 "Index arithmetic is wrong only at particular boundaries (negative, zero, empty, beyond the end) that fixed examples seldom hit together.",
 [E+'builtin_list.go',E+'builtin_expression.go'],
 [("list operations",E+"builtin_list.go"),("expression structure",E+"builtin_expression.go")])
p("C22","Level specifications and functional iteration hit exactly the right places",
 "Map, MapIndexed, Apply, Scan and level specifications (n, {n}, {m,n}, negative and infinite levels) apply the function to exactly the parts at those levels, in order, with the right position indices. Nest, NestList, NestWhile, Fold, FoldList, FixedPoint, Array and pure functions with slots or named arguments apply exactly the documented number of times to the documented arguments.",
 ["inputs"],"all expressions and level specifications of the explored size, all functions of the explored shapes",
 "Level semantics quantify over every tree shape and specification; tests cover a few balanced ones.",
 [E+'builtin_functional.go',E+'eval.go'],
 [("level walks",E+"builtin_functional.go"),("pure functions",E+"eval.go evalFunction")])
p("C23","The session history records every input and output under its line number",
 "Each top-level input gets the next line number; In[n] re-evaluates the n-th input, Out[n] and %n give its n-th result, % and %% the previous ones. Failed, aborted or throwing inputs consume exactly one line number too, and $PrePrint changes only what is displayed.",
 ["histories"],"every session of the explored length mixing values, assignments, throws and references to earlier lines",
 "History references depend on the whole session; tests use isolated inputs.",
 [E+'evalstate.go','expreduce.go',E+'parser/interp.go',E+'resources.go'],
 [("bookkeeping after each input",E+"evalstate.go ProcessTopLevelResult")],
 [("$Line, In, Out","line counter and history",E+"evalstate.go")],
 ["results of In, Out, %, $Line"])
p("C24","Output streams deliver every written string to exactly the addressed stream",
 "Writing to an open stream, addressed by name or by name and number, appends exactly the given text once to that stream and to no other; an address that does not name an open stream writes nothing and fails. The list of open streams is reported in the order of their numbers, and log output appears exactly when its level is enabled.",
 ["histories"],"every sequence of writes, prints and logging-level changes",
 "Tests only write one string to one stream.",
 [E+'streammanager/streammanager.go',E+'logging/caslogger.go',E+'builtin_system.go'],
 [("stream table",E+"streammanager/streammanager.go"),("log level switch",E+"logging/caslogger.go")],
 [("openStreams","open streams by name and number",E+"streammanager/streammanager.go")],
 ["captured standard output and error, Streams[]"])
p("C25","Time counters add up and survive merging",
 "After any sequence of recordings and merges every key of every counter shows the sum of all durations recorded for it and the number of recordings, including those merged from other counter groups; the four counters of a group never mix, and merging changes only the receiving group. The report lists the largest totals first and at most the documented number of entries.",
 ["histories"],"every sequence of recordings and merges over several groups, counters and keys",
 "No test covers the counters at all.",
 [E+'timecounter/timecounter.go'],
 [("accumulation and merge",E+"timecounter/timecounter.go addTime/update")],
 [("times, counts","per key totals",E+"timecounter/timecounter.go")],
 ["Group.String()"])
p("C26","Graphics directives apply to the following primitives of their own list only",
 "Rendering a graphics expression draws every line primitive, in order, with all of its points and with the colour, opacity and thickness set by the most recent directives before it in its own list or in the enclosing lists. Directives inside a nested list never affect primitives after that list, and unsupported primitives are skipped or reported without losing the others.",
 ["inputs"],"every nesting of directives, lines and lists of the explored size",
 "Style scoping depends on the nesting; the tests render one plot and do not look at it.",
 [E+'graphics/graphics.go'],
 [("recursive rendering with style copies",E+"graphics/graphics.go")],
 obs=["series of the rendered chart"])
p("C27","Independent sessions and parallel evaluations do not interfere",
 "Evaluations in one interpreter session never change definitions, history, contexts or options of another session, also when they run at the same time. ParallelTable returns the same list as Table for every side-effect free body under every schedule, and concurrent access to the definition store loses no update.",
 ["schedules","histories"],"every interleaving of operations of several sessions and of parallel table bodies",
 "Interference needs particular interleavings; the tests run one session sequentially.",
 [E+'builtin_list.go',E+'definition_map.go',E+'evalstate.go'],
 [("sharded definition map",E+"definition_map.go"),("parallel table",E+"builtin_list.go")],
 obs=["results of concurrent sessions against the sequential result"])
p("C28","Saved definitions load back unchanged",
 "Saving symbols to a file and loading it into a fresh session restores exactly their values, rules with their order, default values and attributes, for every kind of stored expression, and nothing else. Loading a source file evaluates its expressions in order, like typing them, and a missing file fails without changing the session.",
 ["histories","inputs"],"every set of definitions of the explored kinds, saved and loaded in any order",
 "Tests save one symbol; atom kinds, rule order, attributes and multiple symbols are combinations.",
 [E+'builtin_system.go',E+'atoms/gob.go',E+'easyrun.go'],
 [("binary encoding",E+"atoms/gob.go"),("Get and Save",E+"builtin_system.go")],
 obs=["definitions after Get in a fresh session"])
p("C29","Reap collects exactly what its own body sows",
 "Reap returns the value of its body together with every value sown during that evaluation, each once and in order. Values sown inside an inner Reap belong to the inner one only, values sown before or after it belong to the outer one, and sowing outside of any Reap just returns the value.",
 ["programs","histories"],"every nesting and sequence of Sow and Reap, also inside loops, definitions and with early exits",
 "The single shared collector is only wrong for nested or interrupted uses, which tests do not have.",
 [E+'builtin_system.go'],
 [("Sow and Reap",E+"builtin_system.go")],
 [("reapSown","values sown so far",E+"evalstate.go")])
p("C30","Boolean operations short-circuit and simplify soundly",
 "And and Or evaluate their arguments from left to right only until the result is decided, drop neutral elements and keep the undecided ones in order; Not, Xor-free combinations, TrueQ, Boole, AllTrue and BooleanQ agree with the truth table whenever the values are decided. A symbolic argument never makes the result wrong under any later truth assignment.",
 ["inputs","programs"],"all combinations of True, False, symbols and side-effecting conditions of the explored length",
 "Short-circuiting and soundness under all assignments range over all argument lists.",
 [E+'builtin_boolean.go',E+'resources.go'],
 [("And, Or, Not",E+"builtin_boolean.go")])
p("C31","Integer functions satisfy their defining equations",
 "GCD, LCM, Mod, PowerMod, PrimeQ, Prime, FactorInteger, EulerPhi, Fibonacci, Factorial, Multinomial, IntegerDigits, FromDigits, EvenQ, OddQ, Sign, Abs, IntegerPartitions, Permutations and Tuples return the value their mathematical definition prescribes (Mod is the remainder between 0 and the absolute value of the modulus), for negative, zero and large arguments too. Enumerations are complete, duplicate free and in the documented order.",
 ["inputs"],"all integers of the explored range including beyond 64 bits, all small lists",
 "The definitions quantify over all integers; tests use a few small positive ones.",
 [E+'builtin_numbertheory.go',E+'builtin_combinatorics.go',E+'resources.go'],
 [("number theory builtins",E+"builtin_numbertheory.go"),("combinatorics",E+"builtin_combinatorics.go")])
p("C32","Matrix and vector operations follow linear algebra",
 "Dot, Transpose, Dimensions, IdentityMatrix, Det and Inverse of small matrices, VectorQ, MatrixQ, Total and products with vectors give the values of their definitions, elements kept exact and symbolic elements combined exactly. Incompatible or ragged arguments are never combined, and Dimensions reports exactly the leading levels on which the array is rectangular.",
 ["inputs"],"all vectors, matrices and ragged arrays of the explored sizes",
 "Shape combinations (ragged, empty, non-conforming) are many; tests use two by two examples.",
 [E+'builtin_matrix.go',E+'resources.go'],
 [("matrix builtins",E+"builtin_matrix.go dimensions, Dot, Transpose")])
p("C33","String operations are exact on every string",
 "StringLength, StringJoin, StringTake, StringReplace and ToString return exactly the characters their definition addresses, for empty strings and out-of-range positions (left unevaluated) too, and string values print and compare as themselves. Joining the parts of a split string gives the original string.",
 ["inputs"],"all strings over a small ASCII alphabet of the explored length, all positions",
 "Positions and overlapping replacements are boundary conditions beyond the few fixed examples.",
 [E+'builtin_string.go',E+'atoms/ex_string.go'],
 [("string builtins",E+"builtin_string.go")])
p("C34","Symbolic algebra keeps the value of an expression",
 "Evaluating an arithmetic expression and applying Expand, ExpandAll, Together, Apart, Factor, FactorTerms, FactorSquareFree, Simplify, FullSimplify, PowerExpand or ComplexExpand leaves the rational function it denotes unchanged, and Expand leaves no product or power of sums. Numerator over Denominator is the expression; Coefficient, CoefficientList, Exponent, Variables, PolynomialQ, SquareFreeQ, PolynomialQuotient, PolynomialRemainder and PolynomialGCD give what the polynomial has; D and Grad give the derivative; Sum gives the sum; every solution Solve gives satisfies its equations, and linear and quadratic equations with numbers get all of their solutions.",
 ["inputs"],"all sums, products, quotients and integer powers of a few symbols and exact numbers of the explored size, with roots and elementary functions in derivatives",
 "The space of expressions is unbounded and results are compared with hand-written ones in tests; equality of rational functions decides every input.",
 [E+'builtin_arithmetic.go',E+'builtin_power.go',E+'builtin_expression.go',E+'resources.go'],
 [("arithmetic and power builtins",E+"builtin_arithmetic.go"),("algebra in the library",E+"resources.go")])
p("C35","Elementary functions keep the value of an expression",
 "Evaluating an expression of exact numbers, symbols, Pi, E, I, powers and roots, Exp, Log, Sin, Cos, Tan, Cot, Sec, Csc, their hyperbolic and inverse functions, Abs, Sign, Arg, Re, Im and Conjugate gives an expression of the same value, and so do TrigToExp, TrigExpand, Expand, Together, Simplify and (for real symbols) ComplexExpand; D gives the derivative. Where the input has a value the result is not Indeterminate, infinite or an unfinished form. Roots and logarithms have their principal values.",
 ["inputs"],"all expressions of the explored size over rational multiples of Pi, linear combinations of symbols with real and imaginary coefficients, roots of small rational numbers and exponentials",
 "A wrong rule fires on one shape of argument only (a sum of three terms, a negative base, an imaginary part beyond Pi); tests sample a few.",
 [E+'builtin_power.go',E+'builtin_arithmetic.go',E+'resources.go'],
 [("powers and roots",E+"builtin_power.go"),("rules for elementary functions",E+"resources.go")])
p("C36","Random numbers repeat from a seed and are drawn exactly where evaluation asks",
 "After SeedRandom[s] the numbers that RandomReal[] gives are determined by s and by how many were drawn since then, in every session and whatever happened before; they lie in [0, 1), do not repeat and are spread evenly. RandomReal[max] and RandomReal[{min, max}] scale one such number to their range. One number is drawn for every evaluation of RandomReal, in the order of evaluation, and none otherwise: held, delayed and skipped parts draw none, a variable set to a number keeps it, a delayed one draws anew, a function evaluates its argument once (or where it is used, if it holds it), and Table, Do, Map, NestList, FoldList and While draw once for every round.",
 ["inputs","histories"],"all seeds and sequences of statements that draw, keep, delay, skip or throw away numbers, to the explored length",
 "Every draw shifts all later ones: one evaluation too many or too few anywhere shows in any longer program; the tests never run RandomReal.",
 [E+'builtin_random.go',E+'resources/random.m',E+'builtin_functional.go',E+'eval.go'],
 [("generator",E+"builtin_random.go"),("ranges",E+"resources/random.m"),("order and number of evaluations",E+"eval.go")])
assert len(set(x["id"] for x in P))==len(P)
for x in P: assert len(x["title"])<=80,x["title"]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
