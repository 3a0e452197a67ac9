import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

add("P01","A calculator session survives any failed evaluation",
"An evaluation by the float, complex or rational calculator that fails at any point (bad token, text that does not match, unknown name, wrong arguments, an error or panic in any host function) reports that failure to the caller, as an error or a panic that carries the original cause. Once its leftover has been drained, every later evaluation on the same engine gives exactly the outcome and value it would give on a new engine: the right value, one value per successful evaluation, nothing left behind. Values handed out earlier never change.",
["histories","fault_sequences","inputs"],"every sequence of evaluations on one engine, and every placement of a failure (lexical, grammatical, or the k-th host call panicking with a string, an error or another value, or returning an error) within it",
"The tests evaluate one well-formed text on a new engine; leftover state shows only after a failure at a particular callback followed by further evaluations.",
["tpl/interpreter/interpreter.go","tpl/interpreter.util/call.go","tpl/number/number.go","tpl/cmplx/cmplx.go","tpl/rat/big.go","tpl/match.go"],
[("mark callback with panic wrapping","tpl/interpreter/interpreter.go:New (action)"),("argument popping and result pushing","tpl/interpreter.util/call.go:DoCall"),("result draining","tpl/number/number.go:Calculator.Ret"),("per-evaluation reset","tpl/match.go:Matcher.Match (Init)")],
"return value / panic value of Engine.Eval, and Calculator.Ret",
[("value stack","operands of the evaluation in progress","tpl/number/number.go:Stack"),("mute counter","suppresses callbacks while code is captured","tpl/interpreter/interpreter.go:Engine.mute")])

add("P02","Marked grammar parts call back exactly once, in match order, with their match",
"During a match every marked part of a grammar that matches calls its callback exactly once, at that moment and in match order, with the text (or literal, item count, context, operands) of exactly that match; parts that do not match, and parts inside a muted region unless marked as exempt, call nothing. A callback that fails stops the match at once: no later callback runs and the caller gets the original cause (strings and errors wrapped in a runtime error, other values unchanged); a failed committed alternative likewise stops the match. This holds for every grammar and on every evaluation of a session, whatever earlier evaluations did.",
["programs","inputs","histories","fault_sequences"],"every grammar built from the documented operators, every token sequence, every failure placement, every sequence of evaluations on one engine",
"The tests run a handful of fixed grammars on matching texts without failures; order, counts and abort behaviour depend on backtracking shapes and on what earlier, failed matches left behind.",
["tpl/grammar.go","tpl/compiler.go","tpl/interpreter/interpreter.go","tpl/match.go"],
[("action after match","tpl/grammar.go:grAction.Match"),("transaction begin/end","tpl/grammar.go:grTrans.Match"),("item counts","tpl/grammar.go:grRepeat0.Match, grRepeat1.Match, grList.Match"),("commit operator","tpl/grammar.go:grAnd.Match"),("mute and argument passing","tpl/interpreter/interpreter.go:New (marker)")],
"host callbacks (order, arguments) and the outcome of Engine.Eval / Matcher.MatchExactly",
[("item count of the latest match","argument of upper-case marks","tpl/grammar.go:grRepeat0.len"),("mute counter","suppresses callbacks","tpl/interpreter/interpreter.go:Engine.mute")])

add("P03","Extraction returns exactly the nodes that matched, even after failed parses",
"An extraction returns a document holding exactly the leaves, nodes and arrays whose grammar parts matched in this parse, except that a node begun and then failed leaves nothing behind (neither itself nor anything inside it); nothing from an earlier parse shows up, whether that one succeeded, failed to match, or was aborted by a conversion failure at any leaf. A failing conversion is reported as an error (or, if it panics with another kind of value, as that panic) and leaves the extractor usable; a parse that fails gives no document. Documents returned earlier never change.",
["histories","fault_sequences","programs","inputs"],"every extraction grammar, every text, every sequence of parses on one extractor, every placement of a conversion failure",
"The tests parse one matching text per extractor; rollback of partly built nodes and leakage need failing alternatives with content and several parses on one extractor.",
["tpl/extractor/extractor.go","tpl/extractor/document.go","tpl/grammar.go"],
[("node rollback","tpl/extractor/extractor.go:New (Transaction)"),("per-parse reset","tpl/extractor/extractor.go:New (initer)"),("document building","tpl/extractor/document.go:Node.toMap"),("panic to error","tpl/extractor/extractor.go:Engine.SafeParse")],
"result of Engine.SafeParse, Extract and Result",
[("current node","where the next leaf goes","tpl/extractor/extractor.go:Engine.stk")])

add("P04","qlang: deferred calls, recover and return behave as in Go under any failure",
"When a qlang function ends, normally, by return from any nesting depth, or by a failure at any host call or statement, its deferred expressions run exactly once each, last first, even if one of them fails, and nothing after the failing or returning point runs. A recover() in a function expression that the failing function deferred gets the failure in progress and stops it there, so that the caller goes on with the function's result; without it the failure reaches the caller's deferred expressions in turn and finally the host, with the original cause. The caller's variables, operands, pending deferred expressions and captured code are unaffected by how a callee ended.",
["programs","fault_sequences"],"every program over functions, closures, methods, nested control flow, defers and recovers, and every placement of failing host calls in it",
"No test runs a defer or recover at all; the interplay depends on which call fails, at which nesting depth, and inside which deferred expression.",
["tpl/qlang/cl/function.go","tpl/qlang/cl/ctrl.go","tpl/qlang/engine.go","tpl/qlang/cl/class.go"],
[("call frame and unwinding","tpl/qlang/cl/function.go:Function.Call"),("deferred execution","tpl/qlang/cl/function.go:Interpreter.ExecDefers"),("return by panic","tpl/qlang/cl/function.go:Interpreter.Return"),("recover","tpl/qlang/cl/function.go:Interpreter.Recover"),("nested evaluation base","tpl/qlang/cl/ctrl.go:evalCode")],
"order and arguments of host calls made by the script, script variables, result of SafeEval",
[("pending deferred expressions","run at function end","tpl/qlang/cl/qlang.go:Interpreter.defers"),("failure in progress","read by recover()","tpl/qlang/cl/qlang.go:Interpreter.Recov")])

add("P05","qlang: a session keeps exactly the effects of what was executed",
"After any evaluation in a qlang session (by its safe evaluation functions), successful or failed at any statement, host call, operator or token, the variables hold exactly the effects of the statements executed up to there, and every later evaluation behaves as if a new session had been set up with those variables: same value, same effects, same outcome. In particular no operand, pending deferred expression, unfinished control flow or caught failure of an earlier evaluation has any influence, and the value reported for a script is that of its last statement, reported once.",
["histories","fault_sequences","programs"],"every sequence of scripts on one session and every placement of a failure in them",
"The tests never evaluate twice on one engine, nor after a failure.",
["tpl/qlang/engine.go","tpl/qlang/cl/qlang.go","tpl/qlang/cl/function.go","tpl/qlang/cl/ctrl.go","tpl/interpreter/interpreter.go"],
[("evaluation entry","tpl/qlang/engine.go:Qlang.SafeExec"),("stack base","tpl/qlang/cl/qlang.go:Interpreter.Ret, Clear"),("nested evaluation","tpl/qlang/cl/ctrl.go:evalCode"),("interpreter and mute restore","tpl/interpreter/interpreter.go:Engine.EvalCode")],
"result of SafeEval/SafeExec, Ret, Var, and the host calls made",
[("operand stack and base","values in flight","tpl/qlang/cl/qlang.go:Interpreter.stk, base"),("variables","the session's lasting state","tpl/qlang/cl/qlang.go:Interpreter.vars")])

add("P06","qlang: a script that ends the process does so once, in order, with its status",
"A top-level return runs the script's pending deferred expressions exactly once each, last first, and then ends the process with the returned integer (0 without a value); a main block ends it with the integer it returns (0 without one) after running its own deferred expressions. Nothing of the script runs after that point, and no status is produced when a failure happened before: the failure is reported instead, after the deferred expressions have run.",
["programs","fault_sequences"],"every script with top-level return or main at any nesting, any deferred expressions, and any failing host call before or during them",
"Process exit cannot be exercised inside a unit test, and none does.",
["tpl/qlang/cl/function.go","tpl/qlang/engine.go"],
[("top-level return","tpl/qlang/cl/function.go:Interpreter.Return"),("main block","tpl/qlang/cl/function.go:Interpreter.Main"),("process exit","tpl/qlang/cl/function.go (os.Exit)")],
"simulated process exit (status, time) and host calls before it")

add("P07","Separate engines used from concurrent threads do not interfere",
"Threads that each create and use their own compilers, matchers, calculators, extractors, scanners and qlang sessions, at the same time and under any interleaving, get exactly the outcomes they would get alone, including under failures in some of them, and never perform conflicting unsynchronised memory accesses inside the library.",
["schedules","fault_sequences","programs"],"every interleaving of any such threads at statement granularity, with any failures in any of them",
"No test starts a second goroutine; shared package state shows only under particular interleavings.",
["tpl/token.go","tpl/compiler.go","tpl/grammar.go","tpl/interpreter/interpreter.go","tpl/number/number.go","tpl/rat/big.go","tpl/qlang/spec/spec.go","tpl/qlang/cl/function.go","tpl/scanner.go"],
[("package-level tables","tpl/token.go:rtokens, tpl/number/number.go:Fntable, tpl/qlang/spec/spec.go:Fntable"),("shared sentinels","tpl/qlang/cl/function.go:ErrReturn, tpl/grammar.go:GrTrue"),("default options","tpl/interpreter/interpreter.go:optionsDef, InsertSemis")],
"outcome of every operation of every thread; conflicting accesses seen by the race detector")

add("P08","A re-initialised scanner behaves like a new one",
"After any use of a scanner, ended at any token, in the middle of an error, or by a panic of the error handler, initialising it again makes it deliver exactly the tokens, literals, positions, line numbers, inserted semicolons, errors and error count that a new scanner delivers for the new text and mode; for the keyword-discovering scanner a new one that knows the same keywords.",
["histories","fault_sequences","inputs"],"every text, mode and error-handler behaviour before, every abandonment point, every text and mode after",
"The tests scan each text to its end once, on a scanner without history.",
["tpl/scanner.go","tpl/compiler.go","tpl/match.go"],
[("re-initialisation","tpl/scanner.go:Scanner.Init"),("look-ahead in comments","tpl/scanner.go:findLineEnd"),("keyword table","tpl/compiler.go:AutoKwScanner.Init"),("tokenizing with abandonment on error","tpl/match.go:Matcher.Tokenize")],
"tokens of Scan, calls of the error handler, ErrorCount, file positions",
[("scanning state","character, offsets, pending semicolon","tpl/scanner.go:Scanner")])

add("P09","tplconv: success means complete and correct output",
"When tplconv exits with status 0, every output (file or standard output) is complete and is the correct conversion of its input, whatever errors the reads, creations, writes, closes and the file system produced; when anything went wrong it exits with a nonzero status and says why on standard error. Input, grammar and template files are never modified, and files it did not have to write stay as they were.",
["fault_sequences","inputs"],"every set of input files and formats and every sequence of failing, short or full-disk file operations",
"The command has no tests; I/O errors do not occur in a test run.",
["tpl/cmd/tplconv/tplconv.go","tpl/extractor/extractor.go"],
[("conversion of one file","tpl/cmd/tplconv/tplconv.go:processFile"),("exit status","tpl/cmd/tplconv/tplconv.go:main")],
"exit status, standard error, contents of the output files")

add("P10","tplgen: success means the complete generated file",
"When tplgen exits with status 0, the output file holds exactly the complete generated code for the requested grammar and nothing else (in particular nothing of an earlier version of the file), whatever errors its file operations met; when anything went wrong it exits with a nonzero status and says why on standard error. No other file is changed.",
["fault_sequences","inputs"],"every package directory, option set and previous output file, and every sequence of failing, short or full-disk file operations",
"The command's main path has no test; I/O errors do not occur in a test run.",
["tpl/cmd/tplgen/main.go","tpl/cmd/tplgen/output.tpl","tpl/generator/static_parser_gen.go"],
[("generation and output","tpl/cmd/tplgen/main.go:main")],
"exit status, standard error, contents of the output file and the directory")

add("P11","Results do not depend on map iteration order",
"Compiling a grammar, generating static code from it, generating it with tplgen from a package, extracting and printing a document, building a qlang map and importing symbols give the same result, byte for byte and error for error, in whatever order the runtime iterates over maps.",
["schedules","inputs"],"every iteration order the runtime may choose, for every grammar, package, document and script",
"Iteration order is drawn anew by the runtime on every run; a test sees one order and cannot choose another.",
["tpl/generator/static_parser_gen.go","tpl/cmd/tplgen/main.go","tpl/compiler.go","tpl/qlang/spec/spec.go"],
[("generated declarations","tpl/generator/static_parser_gen.go:GenStaticCode"),("search for the grammar","tpl/cmd/tplgen/main.go:main"),("unassigned rules","tpl/compiler.go:Compiler.Cl")],
"results and errors of those operations under permuted iteration")

add("P12","An evaluation nested in a callback leaves the outer one undisturbed",
"A callback may have the engine it is given evaluate captured code or another text, at any depth, or use other engines, and whether that nested evaluation succeeds, fails or panics (with the callback going on afterwards), the outer evaluation continues as if the callback had only had its own effects: same interpreter receiving the callbacks, same muting, same item counts, and the same source text and line for every token.",
["programs","fault_sequences","histories"],"every nesting of evaluations inside callbacks and every placement of failures in the nested ones",
"The one test with nested evaluation runs it to success and does not look at the outer evaluation's state afterwards.",
["tpl/interpreter/interpreter.go","tpl/compiler.go","tpl/grammar.go","tpl/match.go"],
[("nested evaluation","tpl/interpreter/interpreter.go:Engine.EvalCode"),("sub-match","tpl/compiler.go:CompileRet.EvalSub"),("per-grammar item counts","tpl/grammar.go")],
"callbacks of the outer evaluation: receiver, order, arguments, Source, FileLine",
[("current interpreter and mute counter","receiver of callbacks","tpl/interpreter/interpreter.go:Engine"),("scanner's source","maps tokens to text and lines","tpl/scanner.go:Scanner")])

add("P13","A failure names the right place, and keeps naming it",
"Every error or panic value a failed evaluation gives to its caller can be printed, at any later time and any number of times, always with the same text; the text names the file (if any) and line of the token at which the failing callback's match began, or the line of the first token not matched after a committed alternative or in a text that doesn't match (the beginning of the alternatives, where several got equally far), and contains the cause. This holds after any earlier evaluations on the same engine and inside nested evaluations and called functions.",
["histories","fault_sequences","inputs"],"every text layout, every failure placement, every sequence of evaluations before and after the failure",
"No test prints an error; wrong places show up in multi-line texts, at ends of texts, and after the engine has moved on.",
["tpl/interpreter/interpreter.go","tpl/grammar.go","tpl/match.go","tpl/scanner.go","tpl/compiler.go"],
[("runtime error location","tpl/interpreter/interpreter.go:RuntimeError.Error"),("match error location","tpl/grammar.go:calcErrorInfo"),("line table","tpl/scanner.go:Scanner.next")],
"Error() of the error or panic value, right away and later")

add("P14","qlang: importing symbols takes effect completely or not at all",
"Importing a table of host symbols makes every one of them available to later evaluations; if one conflicts with an existing symbol, or a module name is taken, the import fails and leaves every existing symbol and module as it was, so that scripts before and after behave the same and the import can be repeated without the conflict.",
["histories","fault_sequences","schedules"],"every sequence of imports with conflicts at any place of the table, in any iteration order",
"Imports happen once, at program start; tests never see a failing one.",
["tpl/qlang/spec/spec.go","tpl/qlang/engine.go"],
[("symbol table update","tpl/qlang/spec/spec.go:Import")],
"scripts evaluated before and after the import")

add("P15","A failed compilation leaves nothing behind",
"When compiling a grammar fails at any point (syntax error, unknown token, duplicate or missing rule, or a mark handler that panics at any mark), the failure is reported, and compiling again with the same compiler, host or options gives an engine that behaves exactly like one built from scratch (except that quoted words a compiler's scanner has learned stay its keywords). Engines built earlier keep working unchanged, and engines built from the same grammar, options or table of functions do not affect each other.",
["histories","fault_sequences","programs"],"every sequence of successful and failing compilations sharing a compiler, options, table of functions or host, with a failure at any point",
"The tests compile each grammar once, successfully.",
["tpl/compiler.go","tpl/interpreter/interpreter.go","tpl/extractor/extractor.go"],
[("compilation","tpl/compiler.go:Compiler.Cl"),("keyword registration","tpl/compiler.go:AutoKwScanner.Ltot"),("mark binding","tpl/interpreter/interpreter.go:New (marker)")],
"result of compiling and of evaluations by the engines",
[("keyword table","token numbers of quoted words","tpl/compiler.go:AutoKwScanner")])

add("P16","Interpreters written in qlang get exactly the calls their grammar asks for",
"An interpreter written as a qlang class and evaluated by the engine built from it gets, for every marked part of its grammar that matches, exactly one call of the method or function bound to the mark, at that moment and in match order, with the object in charge as its receiver (the stack object, or the interpreter object the evaluation is done for) and the argument the mark asks for (literal, number, tokens, item count, engine, or operands popped from the stack, whose result is pushed back); muted parts call nothing. A failure in a method at any call stops that evaluation there and is reported with its cause. The script session around it keeps its operands, variables and deferred calls except for what the methods themselves did, and later evaluations, by this engine and by the session, behave as if the failed one had not happened. Building an engine from an unsuitable class reports an error and leaves the session usable and other engines unchanged.",
["programs","inputs","histories","fault_sequences"],"every grammar bound to methods, script functions and host functions, every text, every sequence of evaluations from Go, from scripts in the middle of an expression and from methods, with a failure at any method call",
"No test builds an interpreter in qlang at all; methods run on the operand stack of the session that is evaluating, so leftovers need failures at particular calls.",
["tpl/qlang/cl/interpreter/interpret.go","tpl/qlang/cl/function.go","tpl/qlang/cl/class.go"],
[("mark callback","tpl/qlang/cl/interpreter/interpret.go:newEngine (action)"),("operands","tpl/qlang/cl/interpreter/interpret.go:callFn, callVfn"),("interpreter and mute restore","tpl/qlang/cl/interpreter/interpret.go:Engine.EvalCode"),("panic to error","tpl/qlang/cl/interpreter/interpret.go:New, Engine.Exec"),("frames on the shared operand stack","tpl/qlang/cl/function.go:Function.Call")],
"method calls (order, receiver, arguments), result of Engine.Exec/Eval/EvalCode, and the script session around it",
[("interpreter in charge","receiver of its methods","tpl/qlang/cl/interpreter/interpret.go:Engine.Interpreter"),("mute counter","suppresses callbacks","tpl/qlang/cl/interpreter/interpret.go:Engine.mute")])

# --- outside this technique
def na(id,title,statement,qtext,why,files,mech,observe,over=["inputs"]):
    add(id,title,statement,over,qtext,why,files,mech,observe)
na("P30","Scanner: tokens partition the text exactly",
"Scanning any text yields tokens whose kinds follow the lexical rules, whose literals are exactly the text at their positions, in order and without overlap, with nothing but white space and comments between them; every illegal construct is reported at its position.",
"every text and mode","Lexical rules range over all texts.",["tpl/scanner.go","tpl/token.go"],[("scanning","tpl/scanner.go:Scanner.Scan")],"tokens of Scan")
na("P31","Matching follows PEG semantics",
"A compiled grammar accepts exactly the token sequences that its text denotes under PEG rules: ordered choice, greedy repetition, and predicates that consume nothing.",
"every grammar and token sequence","A test samples a few pairs.",["tpl/grammar.go","tpl/compiler.go"],[("operators","tpl/grammar.go")],"result of MatchExactly",["programs","inputs"])
na("P32","Printing a compiled grammar gives an equivalent grammar",
"The grammar text printed for a compiled grammar compiles again and accepts the same token sequences.",
"every grammar","A test samples a few grammars.",["tpl/grammar.go"],[("marshalling","tpl/grammar.go:Marshal")],"Matcher.Code",["programs"])
na("P33","Calculators compute the arithmetic value of the expression",
"Each calculator gives the value of the expression under the usual precedence and associativity, computed in its number domain; the rational one is exact for integers of any size.",
"every expression","A test samples a few expressions.",["tpl/number/number.go","tpl/rat/big.go","tpl/cmplx/cmplx.go"],[("operators","tpl/number/number.go:Fntable")],"Calculator.Ret")
na("P34","Generated static compilers behave like the dynamic compiler",
"A static compiler generated from a grammar builds a matcher that accepts the same texts and makes the same callbacks as compiling the grammar at run time.",
"every grammar and text","The test covers one grammar.",["tpl/generator/static_parser_gen.go"],[("code generation","tpl/generator/static_parser_gen.go:GenStaticCode")],"generated code",["programs","inputs"])
na("P35","qlang operators and conversions follow their documented semantics",
"Arithmetic, comparison, indexing, slicing, map and conversion built-ins of qlang give the documented result for every combination of operand types, or fail with an error naming the types.",
"every operator and operand pair","Tests do not cover the operand combinations.",["tpl/qlang/lib/builtin/number.go","tpl/qlang/lib/builtin/builtin.go","tpl/qlang/lib/builtin/boolean.go"],[("operators","tpl/qlang/lib/builtin/number.go")],"result of SafeEval")
na("P36","Extracted leaf values equal their literals",
"A leaf of an extracted document holds the value its literal denotes for the leaf's type, and arrays hold all matched items in text order.",
"every literal and type","Tests sample a few literals.",["tpl/extractor/extractor.go"],[("conversion","tpl/extractor/extractor.go:GetValue")],"result of Extract")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
