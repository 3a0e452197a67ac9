package main

func cls(names ...string) map[string]bool {
	m := map[string]bool{"escaped-panic": true, "unexpected-exit": true, "no-progress": true, "crash": true}
	for _, n := range names {
		m[n] = true
	}
	return m
}

const commonAssume = "the search samples: it is evidence, not proof; bugs outside the generated shapes, sizes and fault kinds are not seen"

func init() {
	props["P01"] = &Prop{ID: "P01", Quick: 120000, Thorough: 1500000,
		Worlds: []WorldUse{{calcWorld, 1, cls("new-failed", "no-value", "leftover", "wrong-outcome", "wrong-value", "failure-lost", "cause-lost", "differs-from-new", "value-changed")}},
		Rule:   "a run is a generated session of 2-9 evaluations (up to 24 in the thorough tier and in 8% of quick runs) on 1-3 calculators with generated failures; non-trivial: a failure was injected or occurred; distinct: different observed history",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/interpreter", "tpl/interpreter.util", "tpl/number", "tpl/cmplx", "tpl/rat", "Go standard library"},
		Stub:   []string{"host functions and mark callbacks are wrapped by a fault point; everything else is the real code, built with a yield/step counter before every statement"},
		Assume: []string{commonAssume, "arithmetic of single operators is taken from Go's math packages on both sides"},
	}
	props["P02"] = &Prop{ID: "P02", Quick: 240000, Thorough: 4000000,
		Worlds: []WorldUse{{gramWorld, 1, cls("new-failed", "callbacks", "outcome", "cause-lost", "operands")}},
		Rule:   "a run is a random grammar with marks and a session of 2-8 evaluations (20 in the thorough tier); non-trivial: a callback fault fired or an evaluation followed a failed one; distinct: different observed history of callbacks and outcomes",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/interpreter", "tpl/interpreter.util"},
		Stub:   []string{"host (interpreter object, stack, callbacks) is the simulator's own"},
		Assume: []string{commonAssume, "grammars are free of left recursion and of repetitions of something empty, as the library requires"},
	}
	props["P12"] = &Prop{ID: "P12", Quick: 200000, Thorough: 4000000,
		Worlds: []WorldUse{{gramWorld, 1, cls("new-failed", "nested-disturbs", "callbacks", "outcome", "cause-lost", "operands")}},
		Rule:   "a run is 1-2 random grammars and a session of evaluations whose callbacks evaluate captured code or other texts at chosen moments; non-trivial: a nested evaluation took place",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/interpreter", "tpl/interpreter.util"},
		Stub:   []string{"host (interpreter object, stack, callbacks) is the simulator's own"},
		Assume: []string{commonAssume},
	}
	props["P13"] = &Prop{ID: "P13", Quick: 180000, Thorough: 3000000,
		Worlds: []WorldUse{
			{calcWorld, 1, cls("error-unprintable", "error-changed", "wrong-location", "cause-lost", "failure-lost")},
			{gramWorld, 2, cls("error-unprintable", "error-changed", "wrong-location", "cause-lost")},
			{qlWorld, 1, cls("error-unprintable", "error-changed", "wrong-location", "cause-lost")},
		},
		Rule:   "a run is a session of calculator evaluations or of evaluations of a random grammar, with texts laid out over several lines and failures at chosen callbacks and tokens; every failure is rendered at once and again after later evaluations; non-trivial: a failure was rendered",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/interpreter", "tpl/interpreter.util", "tpl/number", "tpl/cmplx", "tpl/rat"},
		Stub:   []string{"host functions and callbacks carry a fault point"},
		Assume: []string{commonAssume},
	}
	ql := []string{"tpl (scanner, compiler, matcher)", "tpl/interpreter", "tpl/interpreter.util", "tpl/qlang", "tpl/qlang/cl", "tpl/qlang/spec", "tpl/qlang/lib/builtin"}
	qlStub := []string{"the host functions scripts call are the simulator's own and carry a fault point", "os.Exit ends the simulated process only"}
	props["P04"] = &Prop{ID: "P04", Quick: 150000, Thorough: 2500000,
		Worlds: []WorldUse{{qlWorld, 1, cls("new-failed", "outcome", "effects", "cause-lost", "variables", "wrong-exit", "exit-order")}},
		Rule:   "a run is a session of 2-6 generated scripts (20 in the thorough tier) with functions, closures, methods and deferred expressions, and a failure at a chosen host call; non-trivial: a failure or a process exit happened; distinct: different observed history",
		Real:   ql, Stub: qlStub, Assume: []string{commonAssume},
	}
	props["P05"] = &Prop{ID: "P05", Quick: 150000, Thorough: 2500000,
		Worlds: []WorldUse{{qlWorld, 1, cls("new-failed", "outcome", "effects", "variables", "value")}},
		Rule:   "a run is a session of 2-6 generated scripts (20 in the thorough tier), with failures at host calls, in the script, and texts corrupted at a chosen token; non-trivial: a failure happened; distinct: different observed history",
		Real:   ql, Stub: qlStub, Assume: []string{commonAssume, "evaluations go through SafeExec and SafeEval"},
	}
	props["P06"] = &Prop{ID: "P06", Quick: 150000, Thorough: 2500000,
		Worlds: []WorldUse{{qlWorld, 1, cls("new-failed", "outcome", "effects", "wrong-exit", "exit-order")}},
		Rule:   "a run is a session of 2-6 generated scripts (20 in the thorough tier) that ends in a top-level return or a main block, at any nesting depth, with failures before, in and after it; non-trivial: a failure or a process exit happened; distinct: different observed history",
		Real:   ql, Stub: qlStub, Assume: []string{commonAssume},
	}
	props["P03"] = &Prop{ID: "P03", Quick: 240000, Thorough: 4000000,
		Worlds: []WorldUse{{extrWorld, 1, cls("new-failed", "outcome", "document", "leftover", "cause-lost", "document-changed")}},
		Rule:   "a run is 1-2 random extraction grammars and a session of 2-7 parses (20 in the thorough tier) with failing conversions, texts that do not match, are cut, or cannot be tokenized; non-trivial: a parse failed; distinct: different observed history",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/extractor"},
		Stub:   []string{"in most runs conversions are the simulator's own function and carry a fault point"},
		Assume: []string{commonAssume, "two plain items of one name in one node: the document may hold either", "an item name is used for one kind of item only"},
	}
	props["P08"] = &Prop{ID: "P08", Quick: 600000, Thorough: 8000000,
		Worlds: []WorldUse{{scanWorld, 1, cls("differs-from-new", "bad-size", "no-end", "token-changed")}},
		Rule:   "a run is 2-6 uses (20 in the thorough tier) of one scanner on random texts, each abandoned, failing, or ended by a panic of the error handler at a chosen point, each compared with a new scanner; non-trivial: a use was abandoned or met an error",
		Real:   []string{"tpl (Scanner, AutoKwScanner, Matcher.Tokenize)"},
		Stub:   []string{"error handlers are the simulator's own"},
		Assume: []string{commonAssume, "a keyword-discovering scanner is compared with a new one that was taught the same words in the same order"},
	}
	props["P09"] = &Prop{ID: "P09", Quick: 12000, Thorough: 400000,
		Worlds: []WorldUse{{convWorld, 1, cls("wrong-output", "file-changed", "silent-failure", "refused", "accepted")}},
		Rule:   "a run is a directory of 1-5 inputs of 1-3 formats and 0-2 templates, and 2-5 invocations (9 in the thorough tier) of tplconv with failing file operations and crashes, one after the other on the same files; non-trivial: a file operation failed or an input was bad; distinct: different commands, faults and results",
		Real:   []string{"tpl/cmd/tplconv (as a process)", "tpl (scanner, compiler, matcher)", "tpl/extractor", "Go standard library"},
		Stub:   []string{"system calls on files pass a simulated operating system in package syscall, which fails those the plan names and lets the others through to a scratch directory"},
		Assume: []string{commonAssume, "JSON output is compared as a value, not byte by byte", "an output is not itself one of the inputs"},
	}
	props["P10"] = &Prop{ID: "P10", Quick: 15000, Thorough: 500000,
		Worlds: []WorldUse{{genWorld, 1, cls("wrong-output", "file-changed", "silent-failure", "refused", "accepted")}},
		Rule:   "a run is a package directory of 1-4 files with definitions of grammars among other declarations, and 1-4 invocations (8 in the thorough tier) of tplgen with failing file operations and crashes, one after the other; non-trivial: a file operation failed or the package was bad; distinct: different commands, faults and results",
		Real:   []string{"tpl/cmd/tplgen (as a process)", "tpl/generator", "tpl (scanner, matcher)", "Go standard library"},
		Stub:   []string{"system calls on files pass a simulated operating system in package syscall, which fails those the plan names and lets the others through to a scratch directory"},
		Assume: []string{commonAssume, "when a package defines the grammar's name more than once any of the definitions will do here (that it is always the same one is P11)", "the layout of the generated code is that of GenStaticCode, called without faults; what the code builds is read back and compared with the grammar, except for grammars with quoted words, which have no static equivalent"},
	}
	props["P15"] = &Prop{ID: "P15", Quick: 150000, Thorough: 4000000,
		Worlds: []WorldUse{{compWorld, 1, cls("refused", "not-reported", "differs", "table-changed", "wrong-location", "error-unprintable", "error-changed")}},
		Rule:   "a run is 1-3 random grammars, 1-6 compilers, hosts and options (some sharing a scanner) and 4-12 operations (30 in the thorough tier): compilations, most of them failing at a chosen rule or mark, some inside callbacks of evaluations, and evaluations by all engines built so far; non-trivial: a compilation failed; distinct: different observed history",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/interpreter", "tpl/extractor"},
		Stub:   []string{"hosts, mark handlers of raw compilers and conversions are the simulator's own"},
		Assume: []string{commonAssume, "texts with words that a failed compilation may have taught a shared scanner are not evaluated"},
	}
	props["P16"] = &Prop{ID: "P16", Quick: 80000, Thorough: 1000000,
		Worlds: []WorldUse{{metaWorld, 1, cls("new-failed", "callbacks", "outcome", "cause-lost", "operands", "session", "leftover", "error-unprintable", "error-changed")}},
		Rule:   "a run is 1-2 random grammars bound to classes of one script session and a history of 2-6 operations (16 in the thorough tier): evaluations from Go, from scripts in the middle of an expression and by other interpreter objects, evaluations nested in methods, rebuilt and broken interpreters, with failures at a chosen method call; non-trivial: a failure fired or an operation followed a failed one; distinct: different observed history",
		Real:   []string{"tpl/qlang/cl/interpreter", "tpl/qlang and its packages", "tpl/interpreter", "tpl (scanner, compiler, matcher)"},
		Stub:   []string{"the methods' effects are host functions of the simulator that carry a fault point"},
		Assume: []string{commonAssume, "plans with more than 250 method calls in one operation are skipped"},
	}
	props["P14"] = &Prop{ID: "P14", Quick: 60000, Thorough: 1500000,
		Worlds: []WorldUse{{impWorld, 1, cls("new-failed", "symbol-lost", "symbol-changed", "symbol-left", "conflict-accepted", "refused", "table-changed", "outcome")}},
		Rule:   "a run is a history of 3-9 imports, new engines and assignments (25 in the thorough tier), imports conflicting at chosen places in a chosen iteration order, failing in the table's own initialisation, repeated, or made by scripts; every symbol is looked at by scripts after each of them; non-trivial: an import failed; distinct: different observed history",
		Real:   []string{"tpl/qlang", "tpl/qlang/cl", "tpl/qlang/spec", "tpl/qlang/lib/builtin", "tpl/interpreter", "tpl (scanner, compiler, matcher)"},
		Stub:   []string{"tables of symbols and the host function scripts import with are the simulator's own"},
		Assume: []string{commonAssume, "imports are made through package tpl/qlang, one at a time, none inside the initialisation of another"},
	}
	props["P11"] = &Prop{ID: "P11", Quick: 30000, Thorough: 600000,
		Worlds: []WorldUse{
			{orderWorld, 15, cls("order")},
			{genWorld, 1, cls("order")},
		},
		Rule:   "a run is a list of 2-6 pieces of work (14 in the thorough tier: compiling, generating code, extracting, building maps, importing, whole plans of other worlds) done under 3-4 orders of map iteration, or a package directory and tplgen run on it under three orders; non-trivial: an iteration of two or more keys was permuted; distinct: different results",
		Real:   []string{"tpl (scanner, compiler, matcher)", "tpl/generator", "tpl/cmd/tplgen (as a process)", "tpl/extractor", "tpl/interpreter", "tpl/qlang and its packages"},
		Stub:   []string{"the order of every range over a map in the repository's packages comes from the simulated runtime, permuted by a seed"},
		Assume: []string{commonAssume, "map iteration inside the Go standard library (which sorts what it prints) keeps its own order"},
	}
	props["P07"] = &Prop{ID: "P07", Quick: 14000, Thorough: 300000, Race: true,
		Worlds: []WorldUse{{concWorld, 1, cls("interference", "data-race")}},
		Rule:   "a run is 2-4 threads, each a generated session of another world (grammars, extraction, qlang, interpreters written in qlang, calculators, compilation, scanners, code generation) with engines of its own and its own failures, switched at up to some hundred chosen statements; then each of them alone; non-trivial: control changed threads more than once; distinct: different observed histories; states: different sequences of (from, to, place) of the switches",
		Real:   []string{"tpl and all its packages, built with the race detector", "goroutines (one at a time, handed over without a happens-before edge)"},
		Stub:   []string{"the scheduler, sync primitives (real ones underneath) and os.Exit are the simulator's"},
		Assume: []string{commonAssume, "switches happen between statements of the library, not inside one", "the race detector keeps a bounded history of accesses per word"},
	}
}
