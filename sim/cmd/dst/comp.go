package main

// World "comp": compilers, hosts, options and scanners used for compilation
// after compilation, some of which fail at a chosen place, also in the middle
// of an evaluation by another engine; all engines ever built keep being
// evaluated against the reference matchers.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	"github.com/qiniu/text/tpl/interpreter"
)

type cpGram struct {
	Kind  string  `json:"kind"` // raw, host, extr
	Rules []gRule `json:"rules"`
}

type cpSite struct {
	Kind string `json:"kind"` // raw, host, callfn, extr
	Scan int    `json:"scan"` // shared scanner, or -1
	Opts bool   `json:"opts,omitempty"`
	Hook bool   `json:"hook,omitempty"`
}

type cpOp struct {
	K    string `json:"k"` // comp, eval
	Site int    `json:"site,omitempty"`
	Gram int    `json:"gram,omitempty"`
	Fail string `json:"fail,omitempty"`
	At   int    `json:"at,omitempty"`

	Eng   int      `json:"eng,omitempty"`
	Toks  []string `json:"toks,omitempty"`
	Lay   int      `json:"lay,omitempty"`
	File  string   `json:"file,omitempty"`
	Mode  int      `json:"mode,omitempty"` // 0 exact, 2 EvalSub
	Rule  string   `json:"rule,omitempty"`
	Fault *Fault   `json:"f,omitempty"`
	Comp  *cpOp    `json:"comp,omitempty"` // compiled in the At-th callback of this evaluation
}

type compPlan struct {
	Grams []cpGram `json:"grams"`
	Sites []cpSite `json:"sites"`
	Ops   []cpOp   `json:"ops"`
}

type cpSiteR struct {
	spec *cpSite
	idx  int
	r    *gEngR
	cl   *tpl.Compiler
	scan int
	iopt *interpreter.Options
	xopt *extractor.Options
	tab  string
	// the marker of the compilation going on
	marks   int
	panicAt int
	kind    string
}

type cpEng struct {
	site *cpSiteR
	gram int
	in   *gInfo
	scan int
	ret  tpl.CompileRet
	eng  *interpreter.Engine
	ex   *extractor.Engine
}

type cpRun struct {
	c     *Ctx
	p     *compPlan
	run   *gRun
	m     *gModel
	sites []*cpSiteR
	engs  []*cpEng
	ins   []*gInfo
	scans []*tpl.AutoKwScanner
	known map[int]map[string]bool
	maybe map[int]map[string]bool
	fails int
	kept  []exKept
	steps int
}

var cpFails = []string{"syntax", "token", "char", "string", "dup", "dupvar", "missing", "nodoc", "empty", "two", "mark", "marker", "tail", "space"}

// cpText is the text of a grammar with a mistake at a chosen rule.
func cpText(g *cpGram, fail string, at int) string {
	var rules []string
	for _, r := range g.Rules {
		rules = append(rules, (&gEngine{Rules: []gRule{r}}).text())
	}
	if at < 0 {
		at = -at
	}
	at %= len(rules) + 1
	ins := func(s string) { rules = append(rules[:at:at], append([]string{s + "\n"}, rules[at:]...)...) }
	switch fail {
	case "syntax":
		ins("zz = (INT;")
	case "token":
		ins("zz = \"zw\" INT NOSUCH \"zv\";")
	case "char":
		ins("zz = '\\q';")
	case "string":
		ins("zz = INT \"open;")
	case "dup":
		ins("zz = INT;")
		at++
		ins("zz = \"zw\" CHAR;")
	case "dupvar":
		ins("zy = zz;\nzz = INT;\nzz = CHAR;")
	case "missing":
		ins("zz = *INT (zzz | \"zw\");")
	case "nodoc":
		for i, r := range g.Rules {
			if r.Name == "doc" {
				rules[i] = "z" + rules[i]
			}
		}
	case "empty":
		return ""
	case "space":
		return " \n"
	case "two":
		ins("zz = 2;")
	case "mark":
		ins("zz = INT/zzz;")
	case "tail":
		rules = append(rules, "zz")
	}
	return strings.Join(rules, "")
}

func (x *cpRun) words(g int) []string { return sortedSet(x.ins[g].kw) }

// comp compiles as an operation says.
func (x *cpRun) comp(op *cpOp, nested *cpEng) {
	c := x.c
	if op.Site < 0 || op.Site >= len(x.sites) || op.Gram < 0 || op.Gram >= len(x.p.Grams) {
		return
	}
	s := x.sites[op.Site]
	g := &x.p.Grams[op.Gram]
	if g.Kind != s.spec.Kind && !(g.Kind == "host" && s.spec.Kind == "callfn") {
		return
	}
	fail := op.Fail
	known := fail == ""
	for _, f := range cpFails {
		known = known || f == fail
	}
	if !known || fail == "mark" && g.Kind == "raw" {
		return
	}
	nmarks := 0
	for _, r := range g.Rules {
		r.E.walk(func(n *gN) {
			if n.K == "mark" {
				nmarks++
			}
		})
	}
	at := op.At
	if at < 0 {
		at = -at
	}
	s.panicAt, s.marks = -1, 0
	if fail == "marker" {
		if g.Kind != "raw" || nmarks == 0 {
			return
		}
		s.panicAt = at % nmarks
		s.kind = []string{"str", "err", "other"}[at%3]
	}
	if nested != nil && s.scan >= 0 && s.scan == nested.scan {
		return // the scanner is in use
	}
	text := cpText(g, fail, at)
	e := &cpEng{site: s, gram: op.Gram, in: x.ins[op.Gram], scan: s.scan}
	if e.scan < 0 {
		e.scan = 1000 + len(x.engs)
	}
	what := fmt.Sprintf("compiling %q (%s at %d)", text, map[bool]string{true: "no mistake", false: fail}[fail == ""], at)
	err, pan := caught(func() (err error) {
		switch s.spec.Kind {
		case "raw":
			s.cl.Grammar = []byte(text)
			e.ret, err = s.cl.Cl()
		case "extr":
			if at%2 == 0 {
				e.ex, err = extractor.New(text, s.xopt)
			} else {
				e.ex, err = extractor.New([]byte(text), s.xopt)
			}
		default:
			s.r.gtext = text
			e.eng, err = interpreter.New(s.r.hosts[0], s.iopt)
		}
		return
	})
	s.panicAt = -1
	for _, w := range x.words(op.Gram) {
		m := x.maybe
		if fail == "" {
			m = x.known
		}
		if m[e.scan] == nil {
			m[e.scan] = map[string]bool{}
		}
		m[e.scan][w] = true
	}
	ok := err == nil && pan == nil
	c.Logf("compile site %d gram %d %s@%d nested %v -> %v", op.Site, op.Gram, fail, at, nested != nil, ok)
	if s.r != nil && s.r.keep && s.r.tab != nil {
		if t := tabText(s.r.tab); s.tab == "" {
			s.tab = t
		} else if t != s.tab {
			c.Viol("table-changed", "%s: the table of functions was %s, now it is %s", what, s.tab, t)
		}
	}
	if fail == "" {
		if !ok {
			c.Viol("refused", "%s, after %d failed compilations: %s", what, x.fails, failText(err, pan))
			return
		}
		c.Inc("compilations")
		if x.fails > 0 {
			c.NonTriv = true
		}
		x.engs = append(x.engs, e)
		c.State("compiled", s.spec.Kind, x.fails > 2, nested != nil)
		return
	}
	x.fails++
	c.NonTriv = true
	c.Inc("fault_compile_" + fail)
	if ok {
		c.Viol("not-reported", "%s succeeded", what)
		return
	}
	if pan == nil || isErr(pan) {
		c.keepErr(err, pan)
	}
	if fail == "marker" {
		want := map[string]interface{}{"str": causeStr, "err": errInjected, "other": otherPanic}[s.kind]
		if pan != want && !(s.kind == "err" && err == errInjected) && !(s.kind == "str" && err != nil && strings.Contains(safeErr(err), causeStr)) {
			c.Viol("not-reported", "%s: the mark handler panicked with %v, the caller gets %s", what, want, failText(err, pan))
		}
	}
}

func isErr(v interface{}) bool { _, ok := v.(error); return ok }

func tabText(t map[string]interface{}) string {
	var ks []string
	for k, v := range t {
		ks = append(ks, fmt.Sprintf("%s:%T", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d entries, %x", len(ks), hash(ks))
}

// infoOf is what is known about an engine's grammar, with the words its
// scanner has learned; ok is false when a word of the text may or may not have
// been learned.
func (x *cpRun) infoOf(e *cpEng, toks []string) (*gInfo, bool) {
	in := *e.in
	in.kw = map[string]bool{}
	for w := range e.in.kw {
		in.kw[w] = true
	}
	for w := range x.known[e.scan] {
		in.kw[w] = true
	}
	for _, t := range toks {
		if !in.kw[t] && (x.maybe[e.scan][t] || t == "zw" || t == "zv") {
			return nil, false
		}
	}
	return &in, true
}

func (x *cpRun) eval(oi int, op *cpOp) {
	c := x.c
	if op.Eng < 0 || len(x.engs) == 0 {
		return
	}
	e := x.engs[op.Eng%len(x.engs)]
	in, ok := x.infoOf(e, op.Toks)
	if !ok {
		c.Inc("words_in_doubt")
		return
	}
	si := e.site.idx
	t := newGText(op.Toks, op.Lay, op.File)
	rule := "doc"
	if op.Mode == 2 {
		rule = nestRule(in, op.Rule)
		t.file = ""
	}
	gt := cpText(&x.p.Grams[e.gram], "", 0)
	what := fmt.Sprintf("op %d engine %d of site %d (%s) rule %s text %q grammar %q, after %d failed compilations", oi, op.Eng%len(x.engs), si, e.site.spec.Kind, rule, t.src, gt, x.fails)
	var nest *cpOp
	if op.Comp != nil && op.Comp.K == "comp" {
		nest = op.Comp
	}
	done := false
	x.run.hook = func(i int) {
		if nest != nil && !done && i == nest.At%8 {
			done = true
			x.c.Inc("compilations_in_callbacks")
			x.comp(nest, e)
		}
	}
	defer func() { x.run.hook = nil }()
	if e.ex != nil {
		x.evalEx(op, e, in, t, rule, what)
		return
	}
	m := x.m
	m.ev, m.n, m.f, m.nest = nil, 0, op.Fault, nil
	s := m.st[si]
	s.in, s.text, s.mute, s.host, s.caps = in, t, 0, 0, nil
	m.texts++
	t.id = m.texts
	o := m.eval(s, si, rule, gWin{t, 0, len(t.toks)}, true)
	if o.kind == "budget" {
		c.Inc("over_model_budget")
		c.NonTriv = false
		panic(stopRun{})
	}
	r := e.site.r
	x.run.ev = nil
	r.caps, r.texts = nil, []int{m.texts}
	r.eng, r.ret = e.eng, e.ret
	c.arm(op.Fault)
	err, pan := caught(func() error {
		if r.raw {
			if op.Mode == 2 {
				return e.ret.EvalSub(rule, t.src)
			}
			return e.ret.MatchExactly([]byte(t.src), op.File)
		}
		if op.Mode == 2 {
			return e.eng.EvalSub(rule, t.src)
		}
		return e.eng.MatchExactly([]byte(t.src), op.File)
	})
	c.disarm()
	got := outKind(err, pan, r.raw)
	c.Logf("%d e%d %s -> %s %d events", oi, op.Eng%len(x.engs), short(t.src, 60), got, len(x.run.ev))
	for _, v := range x.run.ev {
		c.Log = append(c.Log, "  "+v.String())
	}
	c.Cnt["callbacks"] += len(x.run.ev)
	c.keepErr(err, pan)
	for i := 0; i < len(m.ev) || i < len(x.run.ev); i++ {
		switch {
		case i >= len(x.run.ev):
			c.Viol("differs", "%s: callback %d %v did not come (%s)", what, i, m.ev[i], failText(err, pan))
			return
		case i >= len(m.ev):
			c.Viol("differs", "%s: unexpected callback %d %v", what, i, x.run.ev[i])
			return
		case !m.ev[i].same(x.run.ev[i]):
			c.Viol("differs", "%s: callback %d should be %v, is %v", what, i, m.ev[i], x.run.ev[i])
			return
		}
	}
	if got != o.kind {
		c.Viol("differs", "%s: should end with %s, ended with %s: %s", what, o.kind, got, failText(err, pan))
		return
	}
	if o.kind == "fail" {
		checkFail(c, "differs", what, o.f, err, pan)
	}
	if (o.kind == "fail" || o.kind == "cut") && !o.noLoc {
		checkLoc(c, what, o, pan)
	}
	if o.kind == "mismatch" && !o.noLoc {
		checkLoc(c, what, o, err)
	}
	if !r.raw {
		for i, st := range x.sites {
			if st.r != nil && !st.r.raw && strings.Join(st.r.stk.v, "|") != strings.Join(m.st[i].stk, "|") {
				c.Viol("differs", "%s: stack of host %d is %q, should be %q", what, i, st.r.stk.v, m.st[i].stk)
			}
		}
	}
	c.State("eval", e.site.spec.Kind, got, x.fails > 0, len(x.engs))
}

type stopRun struct{}

func (x *cpRun) evalEx(op *cpOp, e *cpEng, in *gInfo, t *gText, rule, what string) {
	c := x.c
	m := &exModel{in: in, w: gWin{t, 0, len(t.toks)}, hook: e.site.spec.Hook, f: op.Fault, nested: func(exNest) {}, steps: x.steps}
	o := m.eval(rule)
	x.steps = m.steps
	if o.kind == "budget" {
		c.Inc("over_model_budget")
		c.NonTriv = false
		panic(stopRun{})
	}
	c.arm(op.Fault)
	var doc map[string]interface{}
	err, pan := caught(func() (err error) {
		if op.Mode == 2 {
			if err = e.ex.EvalSub(rule, t.src); err == nil {
				doc = e.ex.Result()
			}
			return
		}
		doc, err = e.ex.SafeParse([]byte(t.src), op.File)
		return
	})
	c.disarm()
	got := exKind(err, pan, o)
	c.Logf("extr %s -> %s %s", short(t.src, 60), got, docText(doc))
	if got != o.kind {
		c.Viol("differs", "%s: should end with %s, ended with %s: %s", what, o.kind, got, failText(err, pan))
		return
	}
	if got == "ok" {
		if d := m.root.diff(doc, ""); d != "" {
			c.Viol("differs", "%s: %s (document %s)", what, d, docText(doc))
		}
		x.kept = append(x.kept, exKept{doc, docText(doc), what})
	}
	c.State("evalex", got, x.fails > 0, len(x.engs))
}

func runComp(c *Ctx, pl interface{}) {
	p := pl.(*compPlan)
	x := &cpRun{c: c, p: p, run: &gRun{c: c}, m: &gModel{}, known: map[int]map[string]bool{}, maybe: map[int]map[string]bool{}}
	for i := range p.Grams {
		g := &p.Grams[i]
		var in *gInfo
		if g.Kind == "extr" {
			in = (&exEng{Rules: g.Rules}).info()
			if !in.ok || !exMarksOK(g.Rules) {
				return
			}
		} else {
			ge := &gEngine{Kind: g.Kind, Rules: g.Rules}
			in = ge.info()
			if !in.ok || !gramMarksOK(ge) {
				return
			}
		}
		for _, r := range g.Rules {
			if strings.HasPrefix(r.Name, "z") || len(g.Rules) == 0 {
				return
			}
		}
		x.ins = append(x.ins, in)
	}
	if len(p.Grams) == 0 {
		return
	}
	x.scans = []*tpl.AutoKwScanner{new(tpl.AutoKwScanner), new(tpl.AutoKwScanner)}
	iopts := []*interpreter.Options{{}, {Scanner: x.scans[0]}, {Scanner: x.scans[1]}}
	getValue := func(typ, lit string) interface{} {
		i := c.fc.n
		c.hit("conv", false)
		if x.run.hook != nil {
			x.run.hook(i)
		}
		return hookVal(typ, lit)
	}
	xopts := []*extractor.Options{{}, {Scanner: x.scans[0]}, {Scanner: x.scans[1]}}
	xhook := []*extractor.Options{{GetValue: getValue}, {Scanner: x.scans[0], GetValue: getValue}, {Scanner: x.scans[1], GetValue: getValue}}
	for i := range p.Sites {
		spec := &p.Sites[i]
		s := &cpSiteR{spec: spec, idx: i, panicAt: -1, scan: spec.Scan}
		if s.scan < -1 || s.scan > 1 {
			s.scan = -1
		}
		oi := s.scan + 1
		st := &gState{raw: spec.Kind == "raw"}
		x.m.st = append(x.m.st, st)
		x.sites = append(x.sites, s)
		switch spec.Kind {
		case "extr":
			if oi > 0 || spec.Opts {
				s.xopt = xopts[oi]
			}
			if spec.Hook {
				s.xopt = xhook[oi]
			}
			continue
		case "raw":
			s.cl = &tpl.Compiler{}
			if s.scan >= 0 {
				s.cl.Scanner = x.scans[s.scan]
			} else {
				s.scan = 100 + i // the compiler keeps the one it makes
			}
		case "host", "callfn":
			if oi > 0 || spec.Opts {
				s.iopt = iopts[oi]
			}
		default:
			return
		}
		r := &gEngR{run: x.run, idx: i, raw: spec.Kind == "raw", keep: true}
		r.stk = &gStk{r: r}
		s.r = r
		x.run.engs = append(x.run.engs, r)
		if r.raw {
			s.cl.Init = func() { x.run.ev = append(x.run.ev, gEvent{eng: i, name: "init"}) }
			s.cl.Marker = x.rawMarker(s)
			continue
		}
		for k := 0; k < 3; k++ {
			if spec.Kind == "callfn" {
				r.hosts = append(r.hosts, &gHostC{gHost{r, k}})
			} else {
				r.hosts = append(r.hosts, &gHost{r, k})
			}
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopRun); !ok {
					panic(e)
				}
			}
		}()
		for oi := range p.Ops {
			op := &p.Ops[oi]
			switch op.K {
			case "comp":
				x.comp(op, nil)
			case "eval":
				x.eval(oi, op)
			}
			if len(c.Viols) > 0 {
				return
			}
		}
	}()
	for _, k := range x.kept {
		if s := docText(k.doc); s != k.text {
			c.Viol("differs", "%s: the document was %s, later it is %s", k.what, k.text, s)
			break
		}
	}
	c.recheckErrs()
}

func (x *cpRun) rawMarker(s *cpSiteR) func(g tpl.Grammar, mark string) tpl.Grammar {
	r := s.r
	return func(g tpl.Grammar, mark string) tpl.Grammar {
		k := s.marks
		s.marks++
		if k == s.panicAt {
			switch s.kind {
			case "str":
				panic(causeStr)
			case "err":
				panic(errInjected)
			}
			panic(otherPanic)
		}
		if mark[0] == 'x' {
			return tpl.Transaction(g, func() interface{} {
				r.host("x", gEvent{name: mark, arg: "begin"}, false)
				return mark
			}, func(tr interface{}, err error) {
				r.host("x", gEvent{name: tr.(string), arg: "end " + strconv.FormatBool(err == nil)}, false)
			})
		}
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
			sc := r.ret.Scanner
			_, line := tpl.FileLine(toks, sc)
			e := gEvent{name: mark, hasSrc: true, src: string(tpl.Source(toks, sc)), line: line}
			if markIsLen(mark) {
				e.arg = fmt.Sprint(g.Len())
			}
			r.host(markType(mark), e, false)
		})
	}
}

func genComp(r *R, o GenOpt) interface{} {
	p := &compPlan{}
	kinds := []string{"raw", "host", "extr"}
	if r.P(50) {
		k := kinds[r.N(3)]
		kinds = []string{k, k, k}
	}
	ng := r.In(1, 3)
	var ins []*gInfo
	for i := 0; i < ng; i++ {
		g := cpGram{Kind: kinds[r.N(3)]}
		switch g.Kind {
		case "extr":
			e := genExEng(r)
			g.Rules = e.Rules
			ins = append(ins, e.info())
		default:
			for {
				e := genGEngine(r, o, false)
				if (e.Kind == "raw") == (g.Kind == "raw") {
					g.Rules = e.Rules
					ins = append(ins, e.info())
					break
				}
			}
		}
		p.Grams = append(p.Grams, g)
	}
	// sites for every kind there is
	siteOf := map[string][]int{}
	for _, k := range []string{"raw", "host", "extr"} {
		used := false
		for _, g := range p.Grams {
			used = used || g.Kind == k
		}
		if !used {
			continue
		}
		for n := r.In(1, 2); n > 0; n-- {
			s := cpSite{Kind: k, Scan: -1, Opts: r.P(60), Hook: r.P(60)}
			if k == "host" && r.P(40) {
				s.Kind = "callfn"
			}
			if r.P(35) {
				s.Scan = r.N(2)
			}
			siteOf[k] = append(siteOf[k], len(p.Sites))
			p.Sites = append(p.Sites, s)
		}
	}
	comp := func(failPct int) cpOp {
		g := r.N(ng)
		l := siteOf[p.Grams[g].Kind]
		op := cpOp{K: "comp", Gram: g, Site: l[r.N(len(l))], At: r.N(12)}
		if r.P(failPct) {
			for {
				op.Fail = cpFails[r.N(len(cpFails))]
				if p.Grams[g].Kind == "raw" && r.P(40) {
					op.Fail = "marker"
				}
				if (op.Fail == "marker") == (p.Grams[g].Kind == "raw") || op.Fail != "marker" && op.Fail != "mark" {
					break
				}
			}
		}
		return op
	}
	nops := r.In(4, 12)
	if o.Big {
		nops = r.In(4, 30)
	}
	failPct := []int{30, 60, 85}[r.N(3)]
	faulty := []int{0, 20, 50}[r.N(3)]
	corrupt := []int{5, 25, 50}[r.N(3)]
	// which grammar each engine has, as far as it can be foreseen
	var engs []int
	n := 0
	for i := 0; i < nops; i++ {
		if len(engs) == 0 || r.P(45) {
			op := comp(failPct)
			if op.Fail == "" {
				engs = append(engs, op.Gram)
			}
			p.Ops = append(p.Ops, op)
			continue
		}
		k := r.N(len(engs))
		g := engs[k]
		op := cpOp{K: "eval", Eng: k}
		rule := "doc"
		if r.P(15) {
			op.Mode = 2
			rules := p.Grams[g].Rules
			op.Rule = rules[r.N(len(rules))].Name
			rule = nestRule(ins[g], op.Rule)
		}
		op.Toks = genToks(r, ins[g], rule, corrupt)
		if p.Grams[g].Kind == "extr" {
			op.Toks = uniq(r, ins[g], op.Toks, &n)
		}
		if r.P(40) {
			op.Lay = r.In(1, 1000)
		}
		if r.P(30) {
			op.File = "f.txt"
		}
		if r.P(faulty) {
			op.Fault = genFault(r, []int{3, 10}[r.N(2)])
		}
		if r.P(25) {
			cp := comp(failPct)
			if cp.Fail == "" {
				op.Comp = &cp // may or may not come to be
			} else {
				op.Comp = &cp
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

var compWorld = regWorld(&World{Name: "comp", Gen: genComp, New: func() interface{} { return new(compPlan) }, Run: runComp, Limit: 40000000})
