package main

// World "extr": random extraction grammars, parsed again and again with failing
// conversions and texts, against a reference matcher that builds the document.

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
)

type exEng struct {
	Rules []gRule `json:"rules"`
	Hook  bool    `json:"hook,omitempty"` // conversions by the simulator's own function
	Bytes bool    `json:"bytes,omitempty"`
	Share bool    `json:"share,omitempty"` // options value shared with the other engines
}

type exNest struct {
	At   int      `json:"at"`
	Eng  int      `json:"eng"`
	Toks []string `json:"toks"`
}

type exOp struct {
	Eng   int      `json:"eng"`
	Toks  []string `json:"toks"`
	Lay   int      `json:"lay,omitempty"`
	Bad   string   `json:"bad,omitempty"`
	File  string   `json:"file,omitempty"`
	API   int      `json:"api,omitempty"` // 0 SafeParse 1 Extract 2 SafeExtract 3 Parse 4 MatchExactly+Result 5 EvalSub+Result
	Rule  string   `json:"rule,omitempty"`
	Fault *Fault   `json:"f,omitempty"`
	Nest  []exNest `json:"nest,omitempty"`
	Again bool     `json:"again,omitempty"` // ask for the result once more
}

type extrPlan struct {
	Engs []exEng `json:"engs"`
	Ops  []exOp  `json:"ops"`
}

// ---- model

type xItem struct {
	tag   string
	node  *xNode
	val   interface{}
	array bool
}

type xNode struct{ items []xItem }

type xMark struct {
	tag, typ string
	array    bool
}

func parseMark(v string) (m xMark, ok bool) {
	if strings.HasSuffix(v, "s") {
		v, m.array = v[:len(v)-1], true
	} else if strings.HasSuffix(v, "Array") {
		v, m.array = v[:len(v)-5], true
	}
	i := strings.LastIndex(v, "_")
	if i < 0 {
		return
	}
	m.tag, m.typ = v[:i], v[i+1:]
	return m, true
}

type exModel struct {
	in     *gInfo
	w      gWin
	cur    *xNode
	root   *xNode
	hook   bool
	n      int
	f      *Fault
	nest   []exNest
	nested func(exNest)
	steps  int
	leafs  map[string]bool // every leaf inserted, also in nodes given up later
}

type exOut struct {
	kind  string // ok mismatch cut fail other notok budget
	cause string
	inj   bool
}

type exPanic struct{ o *exOut }

func (m *exModel) try(n *gN, pos int) (int, bool) {
	m.steps++
	if m.steps > gBudget {
		panic(exPanic{&exOut{kind: "budget"}})
	}
	switch n.K {
	case "tok":
		if n.V == "EOF" {
			return 0, pos == m.w.hi
		}
		if pos < m.w.hi && m.in.tokMatch(n.V, m.w.t.toks[pos]) {
			return 1, true
		}
		return 0, false
	case "true":
		return 0, true
	case "ref":
		return m.try(m.in.rules[n.V], pos)
	case "seq":
		cut, p := false, pos
		for _, x := range n.As {
			if x.K == "cut" {
				cut = true
				continue
			}
			k, ok := m.try(x, p)
			if !ok {
				if cut {
					panic(exPanic{&exOut{kind: "cut"}})
				}
				return 0, false
			}
			p += k
		}
		return p - pos, true
	case "or":
		for _, x := range n.As {
			if k, ok := m.try(x, pos); ok {
				return k, true
			}
		}
		return 0, false
	case "star", "plus":
		p, c := pos, 0
		for {
			k, ok := m.try(n.A, p)
			if !ok {
				return p - pos, c > 0 || n.K == "star"
			}
			p += k
			c++
		}
	case "opt":
		k, ok := m.try(n.A, pos)
		if !ok {
			k = 0
		}
		return k, true
	case "list", "list0":
		k, ok := m.try(n.A, pos)
		if !ok {
			return 0, n.K == "list0"
		}
		p := pos + k
		for {
			k1, ok := m.try(n.B, p)
			if !ok {
				return p - pos, true
			}
			k2, ok := m.try(n.A, p+k1)
			if !ok {
				return p - pos, true
			}
			p += k1 + k2
		}
	case "not":
		_, ok := m.try(n.A, pos)
		return 0, !ok
	case "peek":
		_, ok := m.try(n.A, pos)
		return 0, ok
	case "mark":
		mk, _ := parseMark(n.V)
		if mk.typ == "Node" {
			up, keep := m.cur, len(m.cur.items)
			nd := &xNode{}
			up.items = append(up.items, xItem{tag: mk.tag, node: nd, array: mk.array})
			m.cur = nd
			k, ok := m.try(n.A, pos)
			m.cur = up
			if !ok {
				up.items = up.items[:keep]
			}
			return k, ok
		}
		k, ok := m.try(n.A, pos)
		if ok {
			m.leaf(mk, pos, k)
		}
		return k, ok
	}
	return 0, false
}

func (m *exModel) leaf(mk xMark, pos, k int) {
	if k == 0 { // nothing to convert
		panic(exPanic{&exOut{kind: "fail"}})
	}
	lit := tokLiteral(m.w.t.toks[pos])
	var v interface{}
	if m.hook {
		i := m.n
		m.n++
		if m.f != nil && m.f.At == i {
			switch m.f.Kind {
			case "err", "ret":
				panic(exPanic{&exOut{kind: "fail", cause: causeErr, inj: true}})
			case "other":
				panic(exPanic{&exOut{kind: "other"}})
			}
			panic(exPanic{&exOut{kind: "fail", cause: causeStr}})
		}
		for _, ns := range m.nest {
			if ns.At == i {
				m.nested(ns)
			}
		}
		v = hookVal(mk.typ, lit)
	} else {
		var cause string
		v, cause = exValue(mk.typ, lit)
		if cause != "" {
			panic(exPanic{&exOut{kind: "fail", cause: cause}})
		}
	}
	m.leafs[fmt.Sprintf("%s=%#v", mk.tag, v)] = true
	m.cur.items = append(m.cur.items, xItem{tag: mk.tag, val: v, array: mk.array})
}

func hookVal(typ, lit string) interface{} { return "<" + typ + ">" + lit }

// exValue is what a literal means; cause says why it cannot be converted ("?": some reason).
func exValue(typ, lit string) (v interface{}, cause string) {
	var err error
	switch typ {
	case "String":
		v, err = strconv.Unquote(lit)
	case "Int":
		v, err = strconv.ParseInt(lit, 10, 64)
	case "Float":
		v, err = strconv.ParseFloat(lit, 64)
	case "Text":
		v = lit
	case "Char":
		if len(lit) < 3 {
			return nil, "?"
		}
		r, mb, tail, e := strconv.UnquoteChar(lit[1:len(lit)-1], '\'')
		if e == nil && (mb || tail != "") {
			e = errors.New("invalid char")
		}
		v, err = byte(r), e
	default:
		return nil, "unsupported type: " + typ
	}
	if err != nil {
		return nil, err.Error()
	}
	return v, ""
}

func (m *exModel) eval(rule string) (o *exOut) {
	defer func() {
		if e := recover(); e != nil {
			p, ok := e.(exPanic)
			if !ok {
				panic(e)
			}
			o = p.o
		}
	}()
	m.root = &xNode{}
	m.cur = m.root
	m.leafs = map[string]bool{}
	k, ok := m.try(m.in.rules[rule], 0)
	if !ok || k != m.w.hi {
		return &exOut{kind: "mismatch"}
	}
	return &exOut{kind: "ok"}
}

// diff compares a document with what it should be. Two plain items of one name
// cannot both be there: any of them will do.
func (n *xNode) diff(got map[string]interface{}, path string) string {
	tags := map[string][]xItem{}
	for _, it := range n.items {
		tags[it.tag] = append(tags[it.tag], it)
	}
	var names []string
	for t := range tags {
		names = append(names, t)
	}
	sort.Strings(names)
	for t := range got {
		if tags[t] == nil {
			return fmt.Sprintf("%s%s should not be there", path, t)
		}
	}
	for _, t := range names {
		its := tags[t]
		g, ok := got[t]
		if !ok {
			return fmt.Sprintf("%s%s is missing", path, t)
		}
		mixed := false
		for _, it := range its {
			mixed = mixed || it.array != its[0].array || (it.node == nil) != (its[0].node == nil)
		}
		if mixed {
			continue
		}
		switch {
		case !its[0].array:
			first := ""
			for i, it := range its {
				d := it.diff(g, path+t)
				if d == "" {
					first = ""
					break
				}
				if i == 0 {
					first = d
				}
			}
			if first != "" {
				return first
			}
		case its[0].node != nil:
			arr, ok := g.([]map[string]interface{})
			if !ok || len(arr) != len(its) {
				return fmt.Sprintf("%s%s should be %d nodes, is %#v", path, t, len(its), g)
			}
			for i, it := range its {
				if d := it.diff(arr[i], fmt.Sprintf("%s%s[%d]", path, t, i)); d != "" {
					return d
				}
			}
		default:
			arr, ok := g.([]interface{})
			if !ok || len(arr) != len(its) {
				return fmt.Sprintf("%s%s should be %d items, is %#v", path, t, len(its), g)
			}
			for i, it := range its {
				if d := it.diff(arr[i], fmt.Sprintf("%s%s[%d]", path, t, i)); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

func (it xItem) diff(g interface{}, path string) string {
	if it.node != nil {
		m, ok := g.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s should be a node, is %#v", path, g)
		}
		return it.node.diff(m, path+".")
	}
	if !reflect.DeepEqual(it.val, g) {
		return fmt.Sprintf("%s should be %#v, is %#v", path, it.val, g)
	}
	return ""
}

// docText describes a document completely.
func docText(v interface{}) string {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + docText(x[k]) + " "
		}
		return s + "}"
	case []map[string]interface{}:
		s := "N["
		for _, y := range x {
			s += docText(y) + " "
		}
		return s + "]"
	case []interface{}:
		s := "["
		for _, y := range x {
			s += docText(y) + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%#v", v)
}

func docLeafs(tag string, v interface{}, f func(string)) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, y := range x {
			docLeafs(k, y, f)
		}
	case []map[string]interface{}:
		for _, y := range x {
			docLeafs(tag, y, f)
		}
	case []interface{}:
		for _, y := range x {
			docLeafs(tag, y, f)
		}
	default:
		f(fmt.Sprintf("%s=%#v", tag, v))
	}
}

// ---- running

type exR struct {
	in   *gInfo
	e    *extractor.Engine
	spec *exEng
}

func exMarksOK(rules []gRule) bool {
	ok := true
	for _, r := range rules {
		r.E.walk(func(n *gN) {
			if n.K == "mark" {
				m, is := parseMark(n.V)
				if !is || m.tag == "" {
					ok = false
				}
			}
		})
	}
	return ok
}

func (e *exEng) info() *gInfo {
	// marks are no item counts here, whatever their case
	ge := &gEngine{Rules: e.Rules}
	return ge.infoAnyMark()
}

type exKept struct {
	doc  map[string]interface{}
	text string
	what string
}

func runExtr(c *Ctx, pl interface{}) {
	p := pl.(*extrPlan)
	var engs []*exR
	var nests []exNest
	var doNest func(exNest)
	getValue := func(typ, lit string) interface{} {
		i := c.fc.n
		c.hit("conv", false)
		for _, ns := range nests {
			if ns.At == i {
				doNest(ns)
			}
		}
		return hookVal(typ, lit)
	}
	shared := &extractor.Options{GetValue: getValue}
	sharedDef := &extractor.Options{}
	for i := range p.Engs {
		spec := &p.Engs[i]
		in := spec.info()
		if !in.ok || !exMarksOK(spec.Rules) {
			return
		}
		var o *extractor.Options
		switch {
		case spec.Hook && spec.Share:
			o = shared
		case spec.Hook:
			o = &extractor.Options{GetValue: getValue}
		case spec.Share:
			o = sharedDef
		}
		gt := (&gEngine{Rules: spec.Rules}).text()
		var g interface{} = gt
		if spec.Bytes {
			g = []byte(gt)
		}
		e, err := extractor.New(g, o)
		if err != nil {
			c.Viol("new-failed", "grammar %q: %v", gt, err)
			return
		}
		engs = append(engs, &exR{in, e, spec})
	}
	if len(engs) == 0 {
		return
	}
	var kept []exKept
	keep := func(what string, doc map[string]interface{}) {
		kept = append(kept, exKept{doc, docText(doc), what})
	}
	busy := -1
	budget := false
	doNest = func(ns exNest) {
		if ns.Eng < 0 || ns.Eng >= len(engs) || ns.Eng == busy || engs[ns.Eng].spec.Hook {
			return
		}
		c.Inc("nested_extractions")
		r := engs[ns.Eng]
		t := newGText(ns.Toks, 0, "")
		m := &exModel{in: r.in, w: gWin{t, 0, len(t.toks)}}
		o := m.eval("doc")
		if o.kind == "budget" {
			return
		}
		doc, err := r.e.SafeParse([]byte(t.src), "")
		what := fmt.Sprintf("nested extraction of %q", t.src)
		if (err == nil) != (o.kind == "ok") {
			c.Viol("outcome", "%s: should end with %s, ended with %v", what, o.kind, err)
		} else if err == nil {
			if d := m.root.diff(doc, ""); d != "" {
				c.Viol("document", "%s: %s", what, d)
			}
			keep(what, doc)
		}
	}
	failedBefore := false
	steps := 0
	for oi, op := range p.Ops {
		if op.Eng < 0 || op.Eng >= len(engs) {
			continue
		}
		r := engs[op.Eng]
		gt := (&gEngine{Rules: r.spec.Rules}).text()
		t := newGText(op.Toks, op.Lay, op.File)
		rule := "doc"
		if op.API == 5 {
			rule = nestRule(r.in, op.Rule)
		}
		m := &exModel{in: r.in, w: gWin{t, 0, len(t.toks)}, hook: r.spec.Hook, f: op.Fault, nest: op.Nest, nested: func(exNest) {}, steps: steps}
		var o *exOut
		if op.Bad != "" {
			t.src += " " + op.Bad
			o = &exOut{kind: "notok"}
		} else {
			o = m.eval(rule)
		}
		steps = m.steps
		if o.kind == "budget" {
			budget = true
			break
		}
		what := fmt.Sprintf("op %d api %d rule %s text %q grammar %q", oi, op.API, rule, t.src, gt)

		c.arm(op.Fault)
		nests, busy = op.Nest, op.Eng
		var doc map[string]interface{}
		safe := op.API <= 2
		err, pan := caught(func() (err error) {
			switch op.API {
			case 0:
				doc, err = r.e.SafeParse([]byte(t.src), op.File)
			case 1:
				doc, err = r.e.Extract(t.src)
			case 2:
				doc, err = r.e.SafeExtract(t.src)
			case 3:
				doc, err = r.e.Parse([]byte(t.src), op.File)
			case 5:
				if err = r.e.EvalSub(rule, t.src); err == nil {
					doc = r.e.Result()
				}
			default:
				if err = r.e.MatchExactly([]byte(t.src), op.File); err == nil {
					doc = r.e.Result()
				}
			}
			return
		})
		fired := c.fc.fired
		c.disarm()
		nests, busy = nil, -1
		got := exKind(err, pan, o)
		c.Logf("%d e%d %s -> %s %s", oi, op.Eng, short(t.src, 80), got, docText(doc))
		if got != "ok" {
			c.Inc("outcome_" + got)
			if !fired {
				c.Inc("fault_text_" + got)
			}
		}
		if failedBefore || fired || got != "ok" {
			c.NonTriv = true
		}
		if got != o.kind {
			c.Viol("outcome", "%s: should end with %s, ended with %s: %s", what, o.kind, got, failText(err, pan))
			break
		}
		if safe && pan != nil && got != "other" {
			c.Viol("outcome", "%s: a safe parse panicked: %v", what, pan)
		}
		if got != "ok" && doc != nil {
			c.Viol("document", "%s: failed (%s), and still gave a document: %s", what, failText(err, pan), docText(doc))
		}
		switch got {
		case "ok":
			if d := m.root.diff(doc, ""); d != "" {
				c.Viol("document", "%s: %s (document %s)", what, d, docText(doc))
			}
			keep(what, doc)
			if op.Again {
				if s := docText(r.e.Result()); s != docText(doc) {
					c.Viol("document", "%s: the result is %s, asked again it is %s", what, docText(doc), s)
				}
			}
			c.State("doc", shapeOf(m.root), failedBefore)
		case "mismatch", "fail", "cut", "other":
			// what has been built so far may only come from this parse
			res := r.e.Result()
			docLeafs("", res, func(s string) {
				if !m.leafs[s] {
					c.Viol("leftover", "%s: failed, and the extractor now holds %s from before", what, s)
				}
			})
			if got == "fail" {
				e, _ := err.(error)
				if e == nil {
					e, _ = pan.(error)
				}
				s := ""
				if e != nil {
					s = safeErr(e)
				} else {
					s = fmt.Sprint(pan)
				}
				if o.inj && e != errInjected {
					c.Viol("cause-lost", "%s: the conversion failed with %v, the caller gets %v", what, errInjected, e)
				} else if !o.inj && o.cause != "?" && !strings.Contains(s, o.cause) {
					c.Viol("cause-lost", "%s: the conversion failed with %q, the caller gets %q", what, o.cause, s)
				}
			}
			c.State("failed", got, failedBefore, op.API)
		}
		failedBefore = failedBefore || got != "ok"
		if len(c.Viols) > 0 {
			break
		}
	}
	if budget {
		c.Inc("over_model_budget")
	}
	for _, k := range kept {
		if s := docText(k.doc); s != k.text {
			c.Viol("document-changed", "%s: the document was %s, later it is %s", k.what, k.text, s)
			break
		}
	}
}

func shapeOf(n *xNode) string {
	s := "{"
	for _, it := range n.items {
		s += it.tag
		if it.node != nil {
			s += shapeOf(it.node)
		}
		s += " "
	}
	return s + "}"
}

func exKind(err error, pan interface{}, o *exOut) string {
	var x interface{} = err
	if pan != nil {
		x = pan
		if _, ok := pan.(*tpl.MatchError); ok {
			return "cut"
		}
	} else if err == nil {
		return "ok"
	}
	if x == interface{}(otherPanic) {
		return "other"
	}
	switch x.(type) {
	case *tpl.MatchError:
		if o.kind == "cut" { // the safe functions turn it into an error
			return "cut"
		}
		return "mismatch"
	case *tpl.TokenizeError:
		return "notok"
	}
	return "fail"
}

// ---- generation

var exTypes = []string{"Int", "Float", "String", "Char", "Text"}

func (g *gGen) exMark(n *gN) *gN {
	r := g.r
	if n.K == "cut" || !r.P(g.marks) {
		return n
	}
	g.tags++
	tag := r.Str("a", "b", "item", "val_x", "_q", "es") + strconv.Itoa(g.tags)
	if r.P(25) {
		tag = r.Str("p", "q")
	}
	sfx := r.Str("", "", "s", "Array")
	leaf := n.K == "tok" && n.V != "EOF"
	typ := ""
	switch {
	case leaf && r.P(85):
		typ = map[string]string{"INT": "Int", "FLOAT": "Float", "STRING": "String", "CHAR": "Char"}[n.V]
		if typ == "" || r.P(30) {
			typ = "Text"
		}
		if n.V == "INT" && r.P(20) {
			typ = "Float"
		}
		if r.P(6) {
			typ = r.Str("Int", "Float", "String", "Char", "Foo", "Bool")
		}
	case leaf || r.P(80):
		typ = "Node"
	default:
		typ = "Text"
	}
	// a tag has one kind of item: mixtures mean nothing
	if tag == "p" || tag == "q" {
		kind := typ == "Node"
		if g.tagKind == nil {
			g.tagKind = map[string]string{}
		}
		k := fmt.Sprint(kind) + map[bool]string{true: "arr", false: ""}[sfx != ""]
		if old, ok := g.tagKind[tag]; !ok {
			g.tagKind[tag] = k
		} else if old != k {
			tag += map[bool]string{true: "n", false: "l"}[kind] + map[bool]string{true: "r", false: "p"}[sfx != ""]
		}
	}
	return &gN{K: "mark", V: tag + "_" + typ + sfx, A: n}
}

func genExEng(r *R) exEng {
	for try := 0; ; try++ {
		e := exEng{Hook: r.P(60), Bytes: r.P(30), Share: r.P(40)}
		nr := r.In(1, 4)
		names := []string{"doc"}
		for i := 1; i < nr; i++ {
			names = append(names, []string{"", "aa", "bb", "cc"}[i])
		}
		g := &gGen{r: r, rules: names, marks: r.In(30, 75), cuts: r.N(3), extr: true}
		if r.P(4) {
			g.kws = r.In(5, 40)
		}
		if r.P(50) {
			g.cuts = 0
		}
		for i, nm := range names {
			g.self = i
			e.Rules = append(e.Rules, gRule{nm, g.node(r.In(2, 4))})
		}
		if r.P(50) {
			for i := range e.Rules {
				j := r.N(i + 1)
				e.Rules[i], e.Rules[j] = e.Rules[j], e.Rules[i]
			}
		}
		if in := e.info(); in.ok && exMarksOK(e.Rules) && (try > 40 || !in.nullable(in.rules["doc"]) || r.P(20)) {
			return e
		}
		if try > 200 {
			return exEng{Rules: []gRule{{"doc", &gN{K: "mark", V: "a_Int", A: &gN{K: "tok", V: "INT"}}}}}
		}
	}
}

// uniq makes most literals of the text different from all others of the plan.
func uniq(r *R, in *gInfo, toks []string, n *int) []string {
	for i, t := range toks {
		*n++
		switch tokKind(t) {
		case "INT":
			if r.P(92) {
				toks[i] = strconv.Itoa(100 + *n)
			} else if r.P(20) {
				toks[i] = r.Str("99999999999999999999", "0x1F")
			}
		case "FLOAT":
			if r.P(92) {
				toks[i] = strconv.Itoa(100+*n) + ".5"
			} else if r.P(30) {
				toks[i] = "1e999"
			}
		case "STRING":
			if r.P(85) {
				toks[i] = fmt.Sprintf("\"s%d\"", *n)
			}
		case "CHAR":
			if r.P(10) {
				toks[i] = "'é'"
			}
		case "IDENT":
			if !in.kw[t] && r.P(85) {
				toks[i] = fmt.Sprintf("id%d", *n)
			}
		}
	}
	return toks
}

func genExtr(r *R, o GenOpt) interface{} {
	p := &extrPlan{}
	ne := 1
	if r.P(25) {
		ne = 2
	}
	var ins []*gInfo
	for i := 0; i < ne; i++ {
		e := genExEng(r)
		p.Engs = append(p.Engs, e)
		ins = append(ins, e.info())
	}
	faulty := r.N(4)
	corrupt := []int{5, 25, 50}[r.N(3)]
	nops := r.In(2, 7)
	if o.Big {
		nops = r.In(2, 20)
	}
	n := 0
	for i := 0; i < nops; i++ {
		op := exOp{Eng: r.N(ne), API: r.W(40, 10, 10, 15, 15, 10), Again: r.P(30)}
		in := ins[op.Eng]
		rule := "doc"
		if op.API == 5 {
			rules := p.Engs[op.Eng].Rules
			op.Rule = rules[r.N(len(rules))].Name
			rule = nestRule(in, op.Rule)
		}
		op.Toks = uniq(r, in, genToks(r, in, rule, corrupt), &n)
		if r.P(40) {
			op.Lay = r.In(1, 1000)
		}
		if r.P(30) {
			op.File = "f.txt"
		}
		if r.P(4) {
			op.Bad = r.Str("\"unterminated", "'", "`open", "/* open", "$")
		}
		if r.P([]int{0, 15, 45, 75}[faulty]) {
			op.Fault = genFault(r, []int{3, 8, 20}[r.N(3)], "str", "err", "other")
		}
		if ne > 1 && r.P(40) {
			k := r.N(ne)
			op.Nest = append(op.Nest, exNest{At: r.N(6), Eng: k, Toks: uniq(r, ins[k], genToks(r, ins[k], "doc", corrupt), &n)})
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

var extrWorld = regWorld(&World{Name: "extr", Gen: genExtr, New: func() interface{} { return new(extrPlan) }, Run: runExtr, Limit: 40000000})
