From 7a7ed930189eee9fa43d27a2b1ce86a056c63f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 01/26] fix: rendering the match error of a text that ends too
 early panicked

MatchError.Error indexed one token past the end when a committed ('!')
alternative failed at the end of the text, e.g. qlang "a =".
---
 tpl/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..d1443e1 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -130,7 +130,10 @@ func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n { // idxErr == n: src ends too early
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From ebf2ab570d5f5f99fec76e1c7881ab743821a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 02/26] fix: qlang: an error inside if/switch/for left a stale
 stack base behind

Every evaluation after it kept its values on the stack and Ret returned
them again and again.
---
 tpl/qlang/cl/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..7cc32be 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,8 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
+	defer func() { // code may panic (an error, or `return`)
+		p.base = old
+	}()
 	err := e.EvalCode(p, name, code)
-	p.base = old
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 772445f061716257b6539f82c30cb3010e10fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 03/26] fix: qlang: a panic in a deferred expression skipped
 the other ones

It also escaped SafeExec/SafeEval, and since the list of deferred
expressions was not consumed, every later evaluation executed them again.
---
 tpl/qlang/cl/function.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..063960e 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -289,6 +289,10 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 	}
 
 	p.ExecDefers(e)
+	if e := p.Recov; e != nil {
+		p.Recov = nil
+		panic(e)
+	}
 
 	if p.ret == nil {
 		os.Exit(0)
@@ -299,14 +303,29 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 	panic("must return `int` for main function")
 }
 
+// ExecDefers executes the deferred expressions, the last one first. One that
+// panics doesn't stop the others: its panic replaces p.Recov.
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
+	for p.defers != nil {
+		d := p.defers
+		p.defers = d.next
+		p.execDefer(e, d)
+	}
+}
+
+func (p *Interpreter) execDefer(e interpreter.Engine, d *Defer) {
+
+	base := p.stk.BaseFrame()
+	defer func() {
+		if e := recover(); e != nil && e != ErrReturn {
+			p.Recov = e
 		}
+		p.stk.SetFrame(base)
+	}()
+	if err := e.EvalCode(p, "expr", d.src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
-- 
2.43.0


From 7e0d981d6b9ba474c9f4eee8dc996a1f5f7d9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 04/26] fix: qlang: recover() returned the error of an earlier
 evaluation

SafeExec left the error it had reported in place.
---
 tpl/qlang/engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..427e6d2 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -43,6 +43,7 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 		p.Recov = recover()
 		p.ExecDefers(p.Engine)
 		if e := p.Recov; e != nil {
+			p.Recov = nil
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
-- 
2.43.0


From bb344b2efb57443cc3ddb3a217cc10bdaf431588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 05/26] fix: rat: max() and min() handed out the package's
 shared zero

Changing the result in place changed it for every other calculator.
---
 tpl/rat/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 43a8db0..d0cf70b 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -76,7 +76,7 @@ func Sub(a, b *big.Rat) *big.Rat {
 func Max(args ...*big.Rat) (max *big.Rat) {
 
 	if len(args) == 0 {
-		return zero
+		return new(big.Rat)
 	}
 
 	max = args[0]
@@ -91,7 +91,7 @@ func Max(args ...*big.Rat) (max *big.Rat) {
 func Min(args ...*big.Rat) (min *big.Rat) {
 
 	if len(args) == 0 {
-		return zero
+		return new(big.Rat)
 	}
 
 	min = args[0]
-- 
2.43.0


From 60748d0eb194a1d09105d994e1ebbd72c2b1f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 06/26] fix: tplconv: write and close errors were ignored

A full disk left a truncated output file behind an exit status of 0.
---
 tpl/cmd/tplconv/tplconv.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplconv/tplconv.go b/tpl/cmd/tplconv/tplconv.go
index 04a918e..da0720f 100644
--- a/tpl/cmd/tplconv/tplconv.go
+++ b/tpl/cmd/tplconv/tplconv.go
@@ -81,7 +81,11 @@ func processFile(root, inputFile string) (err error) {
 		if err2 != nil {
 			return err2
 		}
-		defer f.Close()
+		defer func() {
+			if err3 := f.Close(); err == nil {
+				err = err3
+			}
+		}()
 		w = f
 	}
 
@@ -91,8 +95,8 @@ func processFile(root, inputFile string) (err error) {
 		if !ok {
 			return fmt.Errorf("unknown output format: %s", *outputFormat)
 		}
-		io.WriteString(w, print(doc))
-		return nil
+		_, err = io.WriteString(w, print(doc))
+		return
 	}
 
 	gen, ok := outTemplates[outext]
-- 
2.43.0


From 060e48c2dea674af31a69fd0fd2e11f348ff08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 07/26] fix: tplgen: write errors were ignored and old contents
 could remain

Execute and Close errors left a truncated file behind an exit status of 0,
and an output file that could not be removed kept the tail of its old
contents.
---
 tpl/cmd/tplgen/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..87a2101 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -125,9 +125,8 @@ OUT:
 	}
 	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
 	exitIfNotNil(err)
-	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
+	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0664)
 	exitIfNotNil(err)
-	defer fd.Close()
 	_, filename, _, ok := runtime.Caller(0)
 	if !ok {
 		panic("No caller information")
@@ -135,9 +134,11 @@ OUT:
 	dir := path.Dir(filename)
 	t, err := template.ParseFiles(path.Join(dir, "output.tpl"))
 	exitIfNotNil(err)
-	t.Execute(fd, map[string]interface{}{
+	err = t.Execute(fd, map[string]interface{}{
 		"packageName":    packageName,
 		"genInterpreter": *genInterpreter,
 		"code":           code,
 	})
+	exitIfNotNil(err)
+	exitIfNotNil(fd.Close())
 }
-- 
2.43.0


From a2bce63ef91ce492b0cb4d2f4cd6bedd44d55e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 08/26] fix: tplgen: the generated code depended on map
 iteration order

Both the order of the declarations and, with several candidates, which
grammar was picked changed from run to run.
---
 tpl/cmd/tplgen/main.go             | 17 ++++++++++++++---
 tpl/generator/static_parser_gen.go | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 87a2101..6dae85a 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"sort"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -108,9 +109,19 @@ func main() {
 	pkgs, err := parser.ParseDir(fset, ".", nil, parser.ParseComments)
 	exitIfNotNil(err)
 	// 只做一次搜索,找到语法就结束.
-	for name, pkg := range pkgs {
-		for _, f := range pkg.Files {
-			for _, decl := range f.Decls {
+	var names []string
+	for name := range pkgs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		var fnames []string
+		for fname := range pkgs[name].Files {
+			fnames = append(fnames, fname)
+		}
+		sort.Strings(fnames)
+		for _, fname := range fnames {
+			for _, decl := range pkgs[name].Files[fname].Decls {
 				grammarContent = findInDecl(decl, *grammarName)
 				if grammarContent != "" {
 					packageName = name
diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..bf6ed06 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -2,6 +2,7 @@ package generator
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
@@ -192,11 +193,13 @@ func GenStaticCode(source string) (string, error) {
 		declarations string = "var (\n"
 		assignments  string
 	)
-	for k, v := range vars {
+	for _, k := range sortedKeys(vars) {
+		v := vars[k]
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
 	}
-	for k, v := range grammars {
+	for _, k := range sortedKeys(grammars) {
+		v := grammars[k]
 		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
 	}
@@ -227,3 +230,12 @@ func GenStaticCode(source string) (string, error) {
 	}
 	return "", tpl.ErrNoDoc
 }
+
+func sortedKeys(m map[string]string) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
-- 
2.43.0


From 48533388967cf3ecc97910746c41643126165326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 09/26] fix: generator: code generated for '+' did not compile

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index bf6ed06..dfbf38d 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -130,7 +130,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From b46d513b2d669afd9765debcd117d031c7107bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 10/26] fix: the unassigned variable Cl reports depended on map
 iteration order

---
 tpl/compiler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..b1db15b 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
+	"sort"
 )
 
 var (
@@ -339,12 +340,17 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 	}
 
 	if root, ok := grammars["doc"]; ok {
+		var unassigned []string
 		for name, v := range vars {
 			if v.Elem == nil {
-				err = fmt.Errorf("variable `%s` is not assigned", name)
-				return
+				unassigned = append(unassigned, name)
 			}
 		}
+		if len(unassigned) > 0 {
+			sort.Strings(unassigned)
+			err = fmt.Errorf("variable `%s` is not assigned", unassigned[0])
+			return
+		}
 		ret.Matcher = &Matcher{
 			Grammar:  root,
 			Scanner:  scanner,
-- 
2.43.0


From bec018cce2aeb8748fb0af23454ead3146e94452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 11/26] fix: compiling a second time with the same scanner
 misread the grammar

A rule named like a keyword of the first grammar was no identifier any
more, so that Cl failed.
---
 tpl/compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index b1db15b..822572b 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -329,9 +329,11 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 		And(Gr('('), grammar, Gr(')')),
 	))
 
+	// The keywords the scanner knows already must not apply to the grammar text.
+	scanner.Init(token.NewFileSet().AddFile("", -1, 0), nil, nil, p.ScanMode)
 	m := &Matcher{
 		Grammar:  doc,
-		Scanner:  scanner,
+		Scanner:  new(Scanner),
 		ScanMode: InsertSemis,
 	}
 	err = m.MatchExactly(p.Grammar, "")
-- 
2.43.0


From ab3b1869023d0e954a2c9541bfeeb90d83fb4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 12/26] fix: EOF in a grammar never matched

README: it is GrEOF, which matches at the end of the tokens.
---
 tpl/compiler.go                    | 6 +++++-
 tpl/generator/static_parser_gen.go | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 822572b..aea8098 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -233,7 +233,11 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 			if tok == ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			g = Gr(tok)
+			if tok == EOF { // tokens never contain EOF
+				g = GrEOF
+			} else {
+				g = Gr(tok)
+			}
 		} else {
 			if g2, ok := grammars[name]; ok {
 				g = Named(name, g2)
diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index dfbf38d..1b7c65a 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -74,6 +74,8 @@ func GenStaticCode(source string) (string, error) {
 			}
 			if strings.HasPrefix(name, "'") {
 				s = fmt.Sprintf("tpl.Gr(%s)", name)
+			} else if tok == tpl.EOF {
+				s = "tpl.GrEOF"
 			} else {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
-- 
2.43.0


From 1841e69f2b93caa8b8b7210e7fec035e6c3a0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 13/26] fix: evaluating a text inside a callback broke Source
 and FileLine

They read the tokens of the outer text against the inner one afterwards.
---
 tpl/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index aea8098..210e5eb 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -103,6 +103,12 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		return fmt.Errorf("unsupported source type: `%v`", src)
 	}
 
+	// Tokens of the text being matched now (if any) must keep their source.
+	if old := p.Scanner.Source(); old.File != nil {
+		defer func() {
+			p.Scanner.Init(old.File, old.Src, nil, p.ScanMode)
+		}()
+	}
 	m := &Matcher{
 		Grammar:  g,
 		Scanner:  p.Scanner,
-- 
2.43.0


From a75d28a55208ffe1eea44881452c07c71eaf99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 14/26] fix: the text of an error changed when its engine
 evaluated something else

MatchError and RuntimeError looked at the source the scanner held when
they were printed instead of the source they occurred in.
---
 tpl/compiler.go                |  5 +++--
 tpl/interpreter/interpreter.go |  2 +-
 tpl/match.go                   | 28 ++++++++++++++++++++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 210e5eb..0b247f0 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -87,12 +87,13 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init
 			p.Init()
 		}
-		matched, err := g.Match(doc, p.Matcher)
+		ctx := p.SourceContext()
+		matched, err := g.Match(doc, ctx)
 		if err != nil {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc, nil, 0}
+			return &MatchError{GrEOF, ctx, doc, nil, 0}
 		}
 		return nil
 	case []byte:
diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..d76c3ce 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -241,7 +241,7 @@ func New(ipt interpreter.Interface, options *Options) (p *Engine, err error) {
 					}
 					err = &RuntimeError{
 						Grammar: g,
-						Ctx:     p.Matcher,
+						Ctx:     p.SourceContext(),
 						Err:     err,
 						Src:     tokens,
 					}
diff --git a/tpl/match.go b/tpl/match.go
index 33fb3d3..7c86fc0 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -76,6 +76,30 @@ func (p *Matcher) Tokener() Tokener {
 	return p.requireScanner()
 }
 
+type fixedTokener struct {
+	Tokener
+	src TokenSource
+}
+
+func (p *fixedTokener) Source() TokenSource {
+	return p.src
+}
+
+type fixedContext struct {
+	tokener Tokener
+}
+
+func (p fixedContext) Tokener() Tokener {
+	return p.tokener
+}
+
+// SourceContext returns a context of the text tokenized last. It doesn't follow
+// the scanner to the next text, so that errors can refer to it at any time.
+func (p *Matcher) SourceContext() Context {
+	s := p.requireScanner()
+	return fixedContext{&fixedTokener{s, s.Source()}}
+}
+
 // Match matches src.
 func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	g := p.Grammar
@@ -91,7 +115,7 @@ func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	if p.Init != nil {
 		p.Init()
 	}
-	n, err := g.Match(tokens, p)
+	n, err := g.Match(tokens, p.SourceContext())
 	if err != nil {
 		return
 	}
@@ -106,7 +130,7 @@ func (p *Matcher) MatchExactly(src []byte, fname string) (err error) {
 	}
 
 	if len(next) != 0 {
-		return &MatchError{GrEOF, p, next, nil, 0}
+		return &MatchError{GrEOF, p.SourceContext(), next, nil, 0}
 	}
 	return
 }
-- 
2.43.0


From 2b2d5dfc089921e626443ff94c85a7f524b052c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 15/26] fix: EvalSub with a text did not initialise the engine

Evaluating a text (instead of tokens) with EvalSub or EvalCode did not run
Init: callbacks stayed muted when an earlier evaluation had failed inside a
muted part, and an extraction kept the nodes of the last one (or crashed when
there was none).
---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 0b247f0..d6724fa 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -114,6 +114,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From 046540fef38aecc105039a837ac866c5a4e9b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 16/26] fix: the end position of a ';' token was one too far

---
 tpl/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..71337bd 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,11 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	n := len(p.Literal)
+	if n == 0 {
+		n = TokenLen(p.Kind)
+	}
+	return p.Pos + token.Pos(n)
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From 1a85f2aad3d12adf92f334ea1a9e83074876aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 17/26] fix: a callback that matched its own grammar again
 changed the item count

G/x/LEN reads the item count of G after x was called: when x evaluates
something with the same G, LEN got the count of that nested match.
---
 tpl/grammar.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index d1443e1..e9e96fb 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -646,10 +646,11 @@ func Named(name string, g Grammar) *GrNamed {
 type grAction struct {
 	g   Grammar
 	act func(tokens []Token, g Grammar)
+	len int
 }
 
 func (p *grAction) Len() int {
-	return p.g.Len()
+	return p.len
 }
 
 func (p *grAction) Match(src []Token, ctx Context) (n int, err error) {
@@ -657,7 +658,9 @@ func (p *grAction) Match(src []Token, ctx Context) (n int, err error) {
 	if n, err = g.Match(src, ctx); err != nil {
 		return
 	}
-	p.act(src[:n], g)
+	len := g.Len()
+	p.act(src[:n], g) // may match g again
+	p.len = len
 	return
 }
 
@@ -667,7 +670,7 @@ func (p *grAction) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 
 // Action represents G/action.
 func Action(g Grammar, act func(tokens []Token, g Grammar)) Grammar {
-	return &grAction{g, act}
+	return &grAction{g, act, g.Len()}
 }
 
 // -----------------------------------------------------------------------------
@@ -677,16 +680,19 @@ type grTrans struct {
 	g     Grammar
 	begin func() interface{}
 	end   func(trans interface{}, err error)
+	len   int
 }
 
 func (p *grTrans) Len() int {
-	return p.g.Len()
+	return p.len
 }
 
 func (p *grTrans) Match(src []Token, ctx Context) (n int, err error) {
 	trans := p.begin()
 	n, err = p.g.Match(src, ctx)
-	p.end(trans, err)
+	len := p.g.Len()
+	p.end(trans, err) // may match p.g again
+	p.len = len
 	return
 }
 
@@ -697,7 +703,7 @@ func (p *grTrans) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 // Transaction represents G/Transaction.
 func Transaction(
 	g Grammar, begin func() interface{}, end func(trans interface{}, err error)) Grammar {
-	return &grTrans{g, begin, end}
+	return &grTrans{g, begin, end, g.Len()}
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 8cebe6ffbd9543c86011a7dcdb6e182d111ad897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 18/26] fix: qlang: recover() in a closure returned the failure
 of a function that had ended

---
 tpl/qlang/cl/function.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 063960e..68f752a 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -408,8 +408,9 @@ func (p *Function) Call(args ...interface{}) interface{} {
 			}
 			calc.ExecDefers(p.engine)
 			stk.SetFrame(base)
-			if calc.Recov != nil {
-				panic(calc.Recov)
+			if e := calc.Recov; e != nil {
+				calc.Recov = nil
+				panic(e)
 			}
 		}()
 		return p.engine.EvalCode(calc, "doc", p.fnb)
-- 
2.43.0


From 33afb099265c8c696627b9cc29b329bba97c7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 19/26] fix: qlang: a conflicting Import left a random part of
 the symbols behind

---
 tpl/qlang/engine.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index 427e6d2..be12759 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -66,6 +66,23 @@ func (p Qlang) SafeEval(expr string) (err error) {
 
 func Import(mod string, table map[string]interface{}) {
 
+	old := make(map[string]interface{}, len(qlang.Fntable))
+	for name, fn := range qlang.Fntable {
+		old[name] = fn
+	}
+	defer func() {
+		if e := recover(); e != nil { // import all of them, or none
+			for name := range qlang.Fntable {
+				if _, ok := old[name]; !ok {
+					delete(qlang.Fntable, name)
+				}
+			}
+			for name, fn := range old {
+				qlang.Fntable[name] = fn
+			}
+			panic(e)
+		}
+	}()
 	qlang.Import(mod, table)
 }
 
-- 
2.43.0


From 36326a512fedda9cdceb54caa52c586660f9ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 20/26] fix: qlang: a syntax error inside call arguments or
 elif ran statements with misplaced operands

---
 tpl/qlang/cl/qlang.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpl/qlang/cl/qlang.go b/tpl/qlang/cl/qlang.go
index 60dd6a6..4bef1c7 100644
--- a/tpl/qlang/cl/qlang.go
+++ b/tpl/qlang/cl/qlang.go
@@ -47,22 +47,22 @@ fnbody = '(' IDENT/name %= ','/ARITY ?"..."/ARITY ')' '{'/_mute ?doc/_code '}'/_
 
 clsname = '(' IDENT/ref ')' | IDENT/ref
 
-newargs = ?('(' expr %= ','/ARITY ')')/ARITY
+newargs = ?('('! expr %= ','/ARITY ')')/ARITY
 
 classb = "fn"! IDENT/name fnbody ?';'/mfn
 
 atom =
-	'(' expr %= ','/ARITY ?"..."/ARITY ?',' ')'/call |
-	'.' (IDENT|"class"|"new"|"recover"|"main")/mref |
-	'[' ?expr/ARITY ?':'/ARITY ?expr/ARITY ']'/index
+	'('! expr %= ','/ARITY ?"..."/ARITY ?',' ')'/call |
+	'.'! (IDENT|"class"|"new"|"recover"|"main")/mref |
+	'['! ?expr/ARITY ?':'/ARITY ?expr/ARITY ']'/index
 
 factor =
 	INT/pushi |
 	FLOAT/pushf |
 	STRING/pushs |
 	CHAR/pushc |
-	(IDENT/ref | '('! expr ')' | "fn"! fnbody/fn | '[' expr %= ','/ARITY ?',' ']'/slice) *atom |
-	"if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute/if |
+	(IDENT/ref | '('! expr ')' | "fn"! fnbody/fn | '['! expr %= ','/ARITY ?',' ']'/slice) *atom |
+	"if"/_mute! expr/_code ifbody *("elif"! expr/_code ifbody)/_ARITY ?("else"! ifbody)/_ARITY/_unmute/if |
 	"switch"/_mute! ?(~'{' expr)/_code '{' swbody '}'/_unmute/switch |
 	"for"/_mute! (~'{' s)/_code %= ';'/_ARITY '{' ?doc/_code '}'/_unmute/for |
 	"new"! clsname newargs /new |
-- 
2.43.0


From 3f47df88bcd6870cb34009a74b423a18da906323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 21/26] fix: extractor keeps all items of an array that is
 interleaved with others

---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..24a3d6d 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]map[string]interface{}); ok { // interleaved with other items
+				items = append(items, later...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]interface{}); ok { // interleaved with other items
+				items = append(items, later...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From bb69fbfa885e99580eb1a7c9e95259066a0122d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 22/26] fix: tplgen skips declarations that hold no string
 literal instead of crashing

---
 tpl/cmd/tplgen/main.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 6dae85a..665f982 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -23,6 +23,15 @@ func exitIfNotNil(err error) {
 	}
 }
 
+// stringLit returns the source text of a string literal, "" if expr isn't one.
+func stringLit(expr ast.Expr) string {
+	basicLit, ok := expr.(*ast.BasicLit)
+	if ok && basicLit.Kind == token.STRING {
+		return basicLit.Value
+	}
+	return ""
+}
+
 // find value of ident 'grammar' in GenDecl.
 func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 	for _, spec := range genDecl.Specs {
@@ -34,10 +43,9 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 					index = i
 				}
 			}
-			if index != -1 {
-				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
-				if ok {
-					return basicLit.Value
+			if index != -1 && index < len(valueSpec.Values) {
+				if lit := stringLit(valueSpec.Values[index]); lit != "" {
+					return lit
 				}
 			}
 		}
@@ -56,11 +64,8 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 			}
 		}
 	}
-	if index != -1 {
-		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
-		if ok {
-			return basicLit.Value
-		}
+	if index != -1 && index < len(assignStmt.Rhs) {
+		return stringLit(assignStmt.Rhs[index])
 	}
 	return ""
 }
@@ -74,7 +79,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
-- 
2.43.0


From 4b57abcf2e1bdcb836c9292876585d000007c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 23/26] fix: tplgen takes the value of the grammar literal, not
 its source text

---
 tpl/cmd/tplgen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 665f982..d1bc74c 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"runtime"
 	"sort"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -139,7 +140,9 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	grammarContent, err = strconv.Unquote(grammarContent)
+	exitIfNotNil(err)
+	code, err := generator.GenStaticCode(grammarContent)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From 979a6e7035b79b1bae5f751d320a57b6a0bac9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 24/26] fix: EvalSub of tokens reports where a text with a rest
 stops matching

---
 tpl/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index d6724fa..ec7ee7e 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -93,7 +93,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, ctx, doc, nil, 0}
+			return &MatchError{GrEOF, ctx, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
-- 
2.43.0


From f35a9efee7311f59d0845b2b55aec6f39c9cade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 25/26] fix: generated compilers of grammars with 'true',
 undefined rules, or rules used again after a forward reference

---
 tpl/generator/static_parser_gen.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b7c65a..a09aae9 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -54,7 +54,10 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
+		if v, ok := vars[name]; ok {
+			if v != name {
+				panic(tpl.ErrVarAssigned)
+			}
 			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
@@ -81,16 +84,16 @@ func GenStaticCode(source string) (string, error) {
 			}
 		} else {
 			_, ok := grammars[name]
+			if !ok {
+				_, ok = vars[name]
+			}
 			if ok {
 				s = name
-			} else if s, ok = vars[name]; !ok {
-				if name == "true" {
-					vars[name] = "tpl.GrTrue"
-					s = "tpl.GrTrue"
-				} else {
-					vars[name] = name
-					s = name
-				}
+			} else if name == "true" {
+				s = "tpl.GrTrue"
+			} else {
+				vars[name] = name
+				s = name
 			}
 		}
 		stk = append(stk, s)
@@ -207,6 +210,11 @@ func GenStaticCode(source string) (string, error) {
 	}
 	declarations += ")\n"
 	if _, ok := grammars["doc"]; ok {
+		for _, k := range sortedKeys(vars) {
+			if vars[k] == k {
+				return "", fmt.Errorf("variable `%s` is not assigned", k)
+			}
+		}
 		output := fmt.Sprintf("\n"+
 			"type StaticCompiler struct {\n"+
 			"	Grammar  string\n"+
-- 
2.43.0


From a3ce5fdb2ec6c8bc603d2fcbbdf65b6233a1524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 26/26] fix: generated compilers ignore their ScanMode

---
 tpl/generator/static_parser_gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index a09aae9..cc0934e 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -230,6 +230,7 @@ func GenStaticCode(source string) (string, error) {
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
 			"return ret}\n",
-- 
2.43.0

