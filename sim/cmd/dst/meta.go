package main

// World "meta": interpreters written as qlang classes (package
// tpl/qlang/cl/interpreter). Random grammars whose marks are bound to methods
// of the stack's and the interpreter's class, to script functions and to host
// functions, evaluated again and again, from Go and by scripts in the middle
// of an expression, with failing methods, against the reference matcher.

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	qlang "github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	minterp "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

type metaOp struct {
	gOp
	Do  string `json:"do"` // exec, eval, script, code, new, build
	As  int    `json:"as,omitempty"`
	Var string `json:"var,omitempty"` // of new: what is wrong
}

type metaPlan struct {
	Engs  []gEngine `json:"engs"`
	Style []int     `json:"style"`
	Ops   []metaOp  `json:"ops"`
}

// mkind is what a mark is bound to.
type mkind struct {
	recv string // stk, ip, fn, go
	n    int    // parameters
	arg  string // none, lit, int, float, src, eng, len, pop
	sfx  string
}

var metaKinds = map[string]mkind{
	"n":   {"stk", 1, "none", ""},
	"s":   {"stk", 2, "lit", ""},
	"w":   {"stk", 2, "lit", "Word"},
	"i":   {"stk", 2, "int", "Int"},
	"f":   {"stk", 2, "float", "Float"},
	"c":   {"stk", 2, "src", "Src"},
	"e":   {"stk", 2, "eng", "Engine"},
	"Len": {"stk", 2, "len", ""},
	"h":   {"ip", 1, "none", ""},
	"k":   {"ip", 2, "lit", ""},
	"g":   {"ip", 2, "src", "Src"},
	"q":   {"ip", 2, "eng", "Engine"},
	"j":   {"ip", 2, "int", "BigInt"},
	"Num": {"ip", 2, "len", "Src"},
	"d":   {"fn", 2, "pop", ""},
	"u":   {"fn", 1, "pop", ""},
	"o":   {"go", 2, "pop", ""},
	"v":   {"go", 1, "pop", ""},
	"t":   {"fn", 3, "pop", ""},
	"y":   {"go", 3, "pop", ""},
	"A":   {"stk", 2, "len", ""},
	"Z":   {"ip", 2, "len", ""},
}

const metaMarkN = 2

// metaBase takes a mark apart.
func metaBase(name string) (base string, kd mkind, ok bool) {
	v := strings.TrimPrefix(name, "_")
	for b, k := range metaKinds {
		if strings.HasPrefix(v, b) && len(v) == len(b)+1+len(k.sfx) && v[len(b)] >= '0' && v[len(b)] < '0'+metaMarkN && strings.HasSuffix(v, k.sfx) {
			return b, k, true
		}
	}
	return
}

func metaPick(r *R, n *gN) string {
	leaf := n.K == "tok" && n.V != "EOF"
	var b string
	switch {
	case isRep(n) && r.P(65):
		b = r.Str("Len", "Len", "Num", "A", "Z")
	case leaf && n.V == "INT" && r.P(50):
		b = r.Str("i", "f", "s", "j")
	case leaf && n.V == "FLOAT" && r.P(50):
		b = r.Str("f", "s", "i")
	case leaf:
		b = r.Str("s", "s", "s", "w", "c", "h", "n", "g", "k", "s")
	default:
		b = r.Str("n", "c", "e", "h", "d", "g", "q", "u", "o", "v", "t", "y", "c", "g")
	}
	return b + strconv.Itoa(r.N(metaMarkN)) + metaKinds[b].sfx
}

func metaMarksOK(e *gEngine) bool {
	ok := true
	for _, r := range e.Rules {
		r.E.walk(func(n *gN) {
			if n.K == "mark" && n.V != "_mute" && n.V != "_unmute" {
				_, _, k := metaBase(n.V)
				ok = ok && k
			}
		})
	}
	return ok
}

// ---- model

func (m *gModel) metaMark(s *gState, ei int, name string, w gWin, pos, k, cnt int) {
	b, kd, _ := metaBase(name)
	e := gEvent{eng: ei, host: -1, name: name}
	if kd.recv == "ip" {
		e.host = s.host
	}
	fail := func(cause string) { m.fail(s, &mFail{cause: cause, tok: pos}, w, pos, 0) }
	call := func(e gEvent) {
		m.ev = append(m.ev, e)
		m.host(s, ei, e.name, w, pos, k)
	}
	push := func(v string) {
		call(gEvent{eng: ei, host: -1, name: "push", arg: v})
		s.stk = append(s.stk, v)
	}
	lit := ""
	if k > 0 {
		lit = tokLiteral(w.t.toks[pos])
	}
	switch kd.arg {
	case "len":
		e.arg = fmt.Sprint(cnt)
	case "lit", "int", "float":
		if k == 0 {
			fail("")
		}
		e.arg = lit
		if kd.arg == "int" {
			v, err := strconv.Atoi(lit)
			if err != nil {
				fail("parse mark `" + name + "` failed")
			}
			e.arg = fmt.Sprint(v)
		}
		if kd.arg == "float" {
			v, err := strconv.ParseFloat(lit, 64)
			if err != nil {
				fail("parse mark `" + name + "` failed")
			}
			e.arg = fmt.Sprint(v)
		}
	case "src":
		if k == 0 {
			e.arg = "nil"
			break
		}
		e.hasSrc = true
		e.src = w.t.src[w.t.offs[pos]:w.t.ends[pos+k-1]]
		e.gap = w.t.src[w.t.ends[pos+k-1]:w.t.offs[pos+k]]
		e.line = w.t.lines[pos]
		s.caps = append(s.caps, gCap{w.t.id, pos, k})
	case "pop":
		call(gEvent{eng: ei, host: -1, name: "pop", arg: fmt.Sprint(kd.n)})
		if len(s.stk) < kd.n {
			fail("stack damaged")
		}
		at := len(s.stk) - kd.n
		e.arg = strings.Join(s.stk[at:], ",")
		s.stk = s.stk[:at:at]
	}
	call(e)
	switch b {
	case "s":
		push(lit)
	case "d", "o", "t", "y":
		push(short(e.arg, 20))
	case "u", "v":
		push("<nil>")
	}
}

// metaKind names the outcome of an evaluation by such an interpreter.
func metaKind(err error, pan interface{}) string {
	e := err
	if pan != nil {
		if pan == interface{}(otherPanic) {
			return "other"
		}
		switch v := pan.(type) {
		case string:
			return "fail"
		case *tpl.MatchError:
			return "cut"
		case error:
			_ = v
			return "fail"
		}
		return fmt.Sprintf("panic %T", pan)
	}
	switch e.(type) {
	case nil:
		return "ok"
	case *tpl.MatchError:
		return "mismatch"
	case *tpl.TokenizeError:
		return "notok"
	}
	return "fail"
}

// ---- the real thing

// body is a method body that makes one call.
func metaBody(style int, call string, ret bool) string {
	if ret {
		switch style % 4 {
		case 1:
			return "if 1 < 2 { return " + call + " }; ev(\"never\", 0, 0, 0); return 1"
		case 2:
			return "_x = " + call + "; return _x"
		case 3:
			return "defer nop(1); return " + call
		}
		return "return " + call
	}
	switch style % 6 {
	case 1:
		return "if 1 < 2 { " + call + "; return }; ev(\"never\", 0, 0, 0)"
	case 2:
		return "_x = 10 - (" + call + " - 1) * 2"
	case 3:
		return "defer nop(2); 7 + nop(" + call + ")"
	case 4:
		return "for _i = 0; _i < 1; _i++ { " + call + " }"
	case 5:
		return "fn() { nop(1); defer " + call + " }()"
	}
	return call
}

func (r *gEngR) metaScript(spec *gEngine, style int) string {
	var st, ip, tab []string
	seen := map[string]bool{}
	n := 0
	for _, rl := range spec.Rules {
		rl.E.walk(func(x *gN) {
			if x.K != "mark" || seen[x.V] || x.V == "_mute" || x.V == "_unmute" {
				return
			}
			seen[x.V] = true
			n++
			b, kd, _ := metaBase(x.V)
			sty := style + n*(style/7)
			name := strconv.Quote(x.V)
			arg := "0"
			param := ""
			if kd.n == 2 {
				param, arg = "a", "a"
			}
			switch kd.recv {
			case "stk":
				body := metaBody(sty, fmt.Sprintf("ev(%s, this.eng, -1, %s)", name, arg), false)
				if b == "s" {
					body = metaBody([]int{0, 2, 4, 5, 3}[sty%5], fmt.Sprintf("ev(%s, this.eng, -1, %s)", name, arg), false) + "; this.push(a)"
				}
				st = append(st, fmt.Sprintf("fn %s(%s) { %s }", x.V, param, body))
				tab = append(tab, fmt.Sprintf("\"$%s\": S%d.%s", x.V, r.idx, x.V))
			case "ip":
				ip = append(ip, fmt.Sprintf("fn %s(%s) { %s }", x.V, param, metaBody(sty, fmt.Sprintf("ev(%s, this.eng, this.id, %s)", name, arg), false)))
				tab = append(tab, fmt.Sprintf("\"$%s\": I%d.%s", x.V, r.idx, x.V))
			case "fn":
				ps, as := "a, b", "a, b"
				switch kd.n {
				case 1:
					ps, as = "a", "a"
				case 3:
					ps, as = "a, b, c", "a, b, c"
				}
				tab = append(tab, fmt.Sprintf("\"$%s\": fn(%s) { %s }", x.V, ps, metaBody(sty, fmt.Sprintf("ev(%s, %d, -1, %s)", name, r.idx, as), b == "d" || b == "t")))
			case "go":
				tab = append(tab, fmt.Sprintf("\"$%s\": gofn(%s, %d)", x.V, name, r.idx))
			}
		})
	}
	sort := func(l []string) string { return strings.Join(l, "; ") }
	i := r.idx
	// a method without a value for "u": the last statement's value is not returned
	src := fmt.Sprintf(`S%d = class {
	fn _init(e) { set(this, "eng", e) }
	fn popArgs(n) { %s }
	fn push(v) { %s }
	%s
};
I%d = class {
	fn _init(e, id, s) { set(this, "eng", e, "id", id, "stk", s) }
	fn stack() { mk(this.eng, "stack"); return this.stk }
	fn fntable() { mk(this.eng, "fntable"); return tab%d }
	fn grammar() { mk(this.eng, "grammar"); return gram%d }
	%s
};
tab%d = {%s};
stk%d = new S%d(%d);
`, i, metaBody(style/3, "popv(this.eng, n)", true), metaBody(style/5, "pushv(this.eng, v)", false), sort(st), i, i, i, sort(ip), i, strings.Join(tab, ", "), i, i, i)
	for k := 0; k < 3; k++ {
		src += fmt.Sprintf("ip%d_%d = new I%d(%d, %d, stk%d);\n", i, k, i, i, k, i)
	}
	return src
}

type metaRun struct {
	gRun
	ql qlang.Qlang
}

// event is called by every method.
func (m *metaRun) event(name string, eng, host int, args ...interface{}) interface{} {
	if name == "never" || eng < 0 || eng >= len(m.engs) {
		m.ev = append(m.ev, gEvent{eng: eng, host: host, name: name})
		return 1
	}
	r := m.engs[eng]
	e := gEvent{name: name, host: host}
	b, kd, ok := metaBase(name)
	if !ok {
		m.ev = append(m.ev, gEvent{eng: eng, host: host, name: name})
		return 1
	}
	switch kd.arg {
	case "none":
	case "src":
		if args[0] == nil {
			e.arg = "nil"
			break
		}
		toks, ok := args[0].([]tpl.Token)
		if !ok {
			e.arg = fmt.Sprintf("%T", args[0])
			break
		}
		sc := r.meta.Scanner
		e.hasSrc = true
		e.src = string(tpl.Source(toks, sc))
		_, e.line = tpl.FileLine(toks, sc)
		r.capture(toks)
	case "eng":
		if x, ok := args[0].(*minterp.Engine); !ok || x != r.meta {
			e.arg = "another engine"
		}
	case "pop":
		var l []string
		for _, a := range args {
			l = append(l, fmt.Sprint(a))
		}
		e.arg = strings.Join(l, ",")
	case "int":
		if _, ok := args[0].(int); !ok {
			e.arg = fmt.Sprintf("%T ", args[0])
		}
		e.arg += fmt.Sprint(args[0])
	case "float":
		if _, ok := args[0].(float64); !ok {
			e.arg = fmt.Sprintf("%T ", args[0])
		}
		e.arg += fmt.Sprint(args[0])
	default:
		e.arg = fmt.Sprint(args[0])
	}
	r.host(name, e, false)
	if b == "d" || b == "o" || b == "t" || b == "y" {
		return short(e.arg, 20)
	}
	return 1
}

func (m *metaRun) setup() {
	q := m.ql
	q.SetVar("ev", func(name string, eng, host int, args ...interface{}) interface{} {
		return m.event(name, eng, host, args...)
	})
	q.SetVar("nop", func(v interface{}) interface{} { return 1 })
	q.SetVar("mk", func(eng int, what string) int {
		m.engs[eng].host("mk", gEvent{name: what, host: -1}, false)
		return 1
	})
	q.SetVar("popv", func(eng, n int) interface{} {
		r := m.engs[eng]
		r.host("pop", gEvent{name: "pop", host: -1, arg: fmt.Sprint(n)}, false)
		v := r.stk.v
		if len(v) < n {
			panic("stack damaged")
		}
		top := v[len(v)-n:]
		r.stk.v = v[: len(v)-n : len(v)-n]
		if r.base%2 == 1 {
			return append([]string{}, top...)
		}
		var out []interface{}
		for _, x := range top {
			out = append(out, x)
		}
		return out
	})
	q.SetVar("pushv", func(eng int, v interface{}) int {
		r := m.engs[eng]
		s := fmt.Sprint(v)
		r.host("push", gEvent{name: "push", host: -1, arg: s}, false)
		r.stk.v = append(r.stk.v, s)
		return 1
	})
	q.SetVar("gofn", func(name string, eng int) interface{} {
		if b, _, _ := metaBase(name); b == "v" {
			return func(a interface{}) { m.event(name, eng, -1, a) }
		}
		if b, _, _ := metaBase(name); b == "y" {
			return func(a, b, c interface{}) string { return m.event(name, eng, -1, a, b, c).(string) }
		}
		return func(a, b interface{}) string { return m.event(name, eng, -1, a, b).(string) }
	})
	for k, v := range minterp.Exports {
		q.SetVar(k, v)
	}
}

var metaBadKinds = []string{"nostack", "nofntable", "nogrammar", "stackint", "tableint", "tablestr", "gramint", "mark", "variadic", "govariadic", "noparam", "gonoparam", "toomany", "item", "syntax", "notobj"}

// bad makes an object from which no interpreter can be built.
func (m *metaRun) bad(what string, n int) interface{} {
	if what == "notobj" {
		return "an object"
	}
	st := "fn stack() { return stk0 }"
	ft := "fn fntable() { return {\"$zz\": S0.push, \"$yy\": nop} }"
	gr := "fn grammar() { return \"doc = INT/zz;\" }"
	switch what {
	case "nostack":
		st = ""
	case "nofntable":
		ft = ""
	case "nogrammar":
		gr = ""
	case "stackint":
		st = "fn stack() { return 3 }"
	case "tableint":
		ft = "fn fntable() { return 3 }"
	case "tablestr":
		ft = "fn fntable() { return {\"$zz\": \"yy\"} }"
	case "gramint":
		gr = "fn grammar() { return 7 }"
	case "mark":
		gr = "fn grammar() { return \"doc = INT/xx;\" }"
	case "variadic":
		ft = "fn fntable() { return {\"$zz\": fn(a, b...) { 1 }, \"$yy\": nop} }"
	case "govariadic":
		ft = "fn fntable() { return {\"$zz\": ev, \"$yy\": nop} }"
	case "noparam":
		ft = "fn fntable() { return {\"$zz\": fn() { 1 }, \"$yy\": nop} }"
	case "gonoparam":
		ft = "fn fntable() { return {\"$zz\": noarg, \"$yy\": nop} }"
	case "toomany":
		ft = "fn fntable() { return {\"$zz\": S0.many, \"$yy\": nop} }"
	case "item":
		ft = "fn fntable() { return {\"$zz\": 5.5, \"$yy\": nop} }"
	case "syntax":
		gr = "fn grammar() { return \"doc = INT/zz (;\" }"
	default:
		return nil
	}
	src := fmt.Sprintf("B%d = class { %s; %s; %s };", n, st, ft, gr)
	src = strings.Replace(strings.Replace(src, "; ;", ";", -1), "{ ;", "{", -1)
	src = strings.Replace(src, "; }\n", " }\n", -1)
	src = strings.Replace(src, ";  };", " };", -1)
	if what == "toomany" {
		src += fmt.Sprintf("SM%d = class { fn many(a, b) { 1 } }; sm%d = new SM%d;", n, n, n)
		src = strings.Replace(strings.Replace(src, "S0.many", fmt.Sprintf("SM%d.many", n), -1), "return stk0", fmt.Sprintf("return sm%d", n), -1)
	}
	m.ql.SetVar("noarg", func() int { return 1 })
	src += fmt.Sprintf("\nb%d = new B%d;", n, n)
	if err := m.ql.SafeEval(src); err != nil {
		m.c.Viol("new-failed", "%s: %v", src, err)
		return nil
	}
	v, _ := m.ql.Var(fmt.Sprintf("b%d", n))
	return v
}

func (m *metaRun) obj(name string) *qcl.Object {
	v, _ := m.ql.Var(name)
	o, _ := v.(*qcl.Object)
	return o
}

func runMeta(c *Ctx, pl interface{}) {
	p := pl.(*metaPlan)
	if len(p.Engs) == 0 || len(p.Style) == 0 {
		return
	}
	ql, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		c.Viol("new-failed", "%v", err)
		return
	}
	run := &metaRun{gRun: gRun{c: c}, ql: ql}
	m := &gModel{maxN: 250}
	run.setup()
	for i := range p.Engs {
		in := p.Engs[i].info()
		if !in.ok || !metaMarksOK(&p.Engs[i]) {
			return
		}
		r := &gEngR{run: &run.gRun, idx: i, in: in, gtext: p.Engs[i].text(), base: p.Style[i%len(p.Style)]}
		r.stk = &gStk{r: r}
		run.engs = append(run.engs, r)
		m.st = append(m.st, &gState{in: in, meta: true})
		ql.SetVar(fmt.Sprintf("gram%d", i), r.gtext)
		src := r.metaScript(&p.Engs[i], r.base)
		if err := ql.SafeEval(src); err != nil {
			c.Viol("new-failed", "script %q: %v", src, err)
			return
		}
		for k := 0; k < 3; k++ {
			o := run.obj(fmt.Sprintf("ip%d_%d", i, k))
			if o == nil {
				c.Viol("new-failed", "no object in %q", src)
				return
			}
			r.objs = append(r.objs, o)
		}
		e, err := minterp.New(r.objs[0], nil)
		if err != nil {
			c.Viol("new-failed", "grammar %q: %v", r.gtext, err)
			return
		}
		r.meta = e
		ql.SetVar(fmt.Sprintf("e%d", i), e)
	}
	ql.SetVar("cnt", 0)
	var pair []interface{}
	ql.SetVar("pair", func(a, b, d interface{}) int { pair = []interface{}{a, b, d}; return 5 })
	failedBefore := false
	for oi, op := range p.Ops {
		if op.Eng < 0 || op.Eng >= len(p.Engs) {
			continue
		}
		r, s := run.engs[op.Eng], m.st[op.Eng]
		m.ev, m.n, m.f, m.nest = nil, 0, op.Fault, op.Nest
		for _, x := range m.st {
			x.caps = nil
		}
		run.ev, run.nest = nil, op.Nest
		for _, x := range run.engs {
			x.caps, x.texts = nil, nil
		}
		var what string
		var o *gOut
		var call func() error
		switch op.Do {
		case "build": // an engine for the same classes and objects
			what = fmt.Sprintf("op %d build", oi)
			o = &gOut{kind: "ok"}
			m.nest, run.nest = nil, nil
			func() {
				defer func() {
					if e := recover(); e != nil {
						o = e.(gPanic).o
					}
				}()
				for _, n := range []string{"stack", "fntable", "grammar"} {
					m.ev = append(m.ev, gEvent{eng: op.Eng, host: -1, name: n})
					t := newGText(nil, 0, "")
					m.host(s, op.Eng, "mk", gWin{t, 0, 0}, 0, 0)
				}
			}()
			call = func() error {
				if op.As%2 == 0 {
					e, err := minterp.New(r.objs[op.As%3], nil)
					if err == nil {
						r.meta = e
						ql.SetVar(fmt.Sprintf("e%d", op.Eng), e)
					}
					return err
				}
				ql.SetVar("bo", r.objs[op.As%3])
				pair = nil
				err := ql.SafeEval("_r = interpreter(bo, nil); pair(_r[0], _r[1], 3)")
				if err != nil {
					return err
				}
				if len(pair) != 3 {
					return fmt.Errorf("no result")
				}
				if pair[1] != nil {
					return pair[1].(error)
				}
				r.meta = pair[0].(*minterp.Engine)
				ql.SetVar(fmt.Sprintf("e%d", op.Eng), r.meta)
				return nil
			}
		case "new":
			what = fmt.Sprintf("op %d new %s", oi, op.Var)
			o = &gOut{kind: "fail", f: &mFail{}}
			obj := run.bad(op.Var, oi)
			if obj == nil {
				if len(c.Viols) > 0 {
					return
				}
				continue
			}
			call = func() error {
				_, err := minterp.New(obj, nil)
				if err != nil {
					c.Inc("fault_build_" + op.Var)
					if op.Var == "syntax" { // reported as it is
						return fmt.Errorf("%v", err)
					}
				}
				return err
			}
		default:
			file := op.File
			if op.Do != "exec" {
				file = ""
			}
			t := newGText(op.Toks, op.Lay, file)
			m.texts++
			t.id = m.texts
			run.texts++
			r.texts = []int{run.texts}
			rule := "doc"
			if op.Do == "code" {
				rule = nestRule(s.in, op.Rule)
			}
			what = fmt.Sprintf("op %d %s rule %s text %q grammar %q style %v", oi, op.Do, rule, t.src, r.gtext, p.Style)
			s.text, s.mute, s.host = t, 0, op.As%3*boolInt(op.Do == "code")
			if s.host == 0 && r.meta.Interpreter != r.objs[0] {
				for k, ob := range r.objs {
					if r.meta.Interpreter == ob && op.Do != "code" {
						s.host = k
					}
				}
			}
			if op.Bad != "" {
				t.src += " " + op.Bad
				o = &gOut{kind: "notok"}
			} else {
				o = m.eval(s, op.Eng, rule, gWin{t, 0, len(t.toks)}, true)
			}
			if o.kind == "budget" {
				c.Inc("over_model_budget")
				return
			}
			switch op.Do {
			case "eval":
				call = func() error { return r.meta.Eval(t.src) }
			case "script":
				ql.SetVar("txt", t.src)
				pair = nil
				call = func() error {
					err := ql.SafeEval(fmt.Sprintf("cnt = cnt + 1 - 1; _y = 3 + pair(cnt * 2, e%d.eval(txt), 7)", op.Eng))
					if err != nil {
						return err
					}
					n, _ := ql.Var("cnt")
					if len(pair) != 3 || pair[0] != n.(int)*2 || pair[2] != 7 {
						c.Viol("session", "%s: operands around the evaluation were %v", what, pair)
					}
					if v, _ := ql.Var("_y"); v != 8 {
						c.Viol("session", "%s: the value around the evaluation is %v", what, v)
					}
					if len(pair) == 3 && pair[1] != nil {
						return pair[1].(error)
					}
					return nil
				}
			case "code":
				call = func() error {
					old := r.meta.Interpreter
					defer func() {
						if r.meta.Interpreter != old {
							c.Viol("leftover", "%s: another interpreter is in charge afterwards", what)
						}
					}()
					return r.meta.EvalCode(r.objs[op.As%3], rule, t.src)
				}
			default:
				call = func() error { return r.meta.Exec([]byte(t.src), op.File) }
			}
		}
		c.arm(op.Fault)
		err, pan := caught(call)
		fired := c.fc.fired
		c.disarm()
		got := metaKind(err, pan)
		want := o.kind
		if op.Do != "code" && want == "cut" {
			want = "mismatch"
		}
		c.Logf("%d e%d %s %s -> %s %d events", oi, op.Eng, op.Do, short(what, 80), got, len(run.ev))
		for _, e := range run.ev {
			c.Log = append(c.Log, "  "+e.String())
		}
		if got != "ok" {
			c.Inc("outcome_" + got)
			if !fired && op.Do != "new" {
				c.Inc("fault_text_" + got)
			}
		}
		c.Cnt["callbacks"] += len(run.ev)
		if failedBefore || fired {
			c.NonTriv = true
		}
		bad := false
		for i := 0; !bad && (i < len(m.ev) || i < len(run.ev)); i++ {
			switch {
			case i >= len(run.ev):
				c.Viol("callbacks", "%s: call %d %v did not come (%s)", what, i, m.ev[i], failText(err, pan))
				bad = true
			case i >= len(m.ev):
				c.Viol("callbacks", "%s: unexpected call %d %v (expected end: %s)", what, i, run.ev[i], o.kind)
				bad = true
			case !m.ev[i].same(run.ev[i]):
				c.Viol("callbacks", "%s: call %d should be %v, is %v", what, i, m.ev[i], run.ev[i])
				bad = true
			}
		}
		if op.Do == "new" {
			if err == nil && pan == nil {
				c.Viol("outcome", "%s: was accepted", what)
			} else if pan != nil {
				c.Viol("outcome", "%s: panicked with %v", what, pan)
			}
			bad = true
		}
		if t, ok := pan.(string); ok && op.Do == "code" { // EvalCode leaves panics to the evaluation around it
			pan = errors.New(t)
		}
		c.keepErr(err, pan)
		if !bad && want != got {
			c.Viol("outcome", "%s: should end with %s, ended with %s: %s", what, want, got, failText(err, pan))
			bad = true
		}
		if !bad && (want == "fail" || want == "other") {
			checkFail(c, "cause-lost", what, o.f, err, pan)
		}
		if op.Do != "new" {
			for i, x := range run.engs {
				if !bad && strings.Join(x.stk.v, "|") != strings.Join(m.st[i].stk, "|") {
					c.Viol("operands", "%s: stack of engine %d is %q, should be %q", what, i, x.stk.v, m.st[i].stk)
				}
			}
		}
		// the script session around it
		n, _ := ql.Var("cnt")
		if err, pan := caught(func() error { return ql.SafeEval("cnt = cnt + 1") }); err != nil || pan != nil {
			c.Viol("session", "%s: the script session fails afterwards: %s", what, failText(err, pan))
		}
		if v, _ := ql.Var("cnt"); v != n.(int)+1 {
			c.Viol("session", "%s: the script session counts %v afterwards, expected %d", what, v, n.(int)+1)
		}
		ql.Ret()
		if v, ok := ql.Ret(); ok {
			c.Viol("session", "%s: the script session had left %v", what, v)
		}
		for _, e := range run.ev {
			c.State(e.name, e.arg == "", e.host)
		}
		c.State("out", got, o.kind, len(op.Nest), op.Do, op.Var, failedBefore)
		failedBefore = failedBefore || got != "ok"
		if len(c.Viols) > 0 {
			break
		}
	}
	c.recheckErrs()
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func genMetaEngine(r *R) gEngine {
	for try := 0; ; try++ {
		e := gEngine{Kind: "meta"}
		names := []string{"doc", "aa", "bb"}[:r.In(1, 3)]
		g := &gGen{r: r, rules: names, marks: r.In(20, 70), mute: r.P(45), cuts: r.N(3), meta: true}
		if r.P(4) {
			g.kws = r.In(5, 40)
		}
		if r.P(50) {
			g.cuts = 0
		}
		for i, nm := range names {
			g.self = i
			e.Rules = append(e.Rules, gRule{nm, g.node(r.In(2, 3))})
		}
		if in := e.info(); in.ok && metaMarksOK(&e) && (try > 40 || !in.nullable(in.rules["doc"]) || r.P(20)) {
			return e
		}
		if try > 200 {
			return gEngine{Kind: "meta", Rules: []gRule{{"doc", &gN{K: "mark", V: "s0", A: &gN{K: "tok", V: "INT"}}}}}
		}
	}
}

func genMeta(r *R, o GenOpt) interface{} {
	p := &metaPlan{}
	ne := 1
	if r.P(25) {
		ne = 2
	}
	var ins []*gInfo
	for i := 0; i < ne; i++ {
		e := genMetaEngine(r)
		p.Engs = append(p.Engs, e)
		p.Style = append(p.Style, r.N(100))
		ins = append(ins, e.info())
	}
	nest := r.P(50)
	faulty := r.N(4)
	corrupt := []int{5, 25, 50}[r.N(3)]
	nops := r.In(2, 6)
	if o.Big {
		nops = r.In(2, 16)
	}
	lay := r.P(60)
	for i := 0; i < nops; i++ {
		op := metaOp{gOp: gOp{Eng: r.N(ne)}, As: r.N(6)}
		op.Do = []string{"exec", "eval", "script", "code", "new", "build"}[r.W(30, 15, 25, 12, 9, 9)]
		if r.P([]int{0, 15, 45, 75}[faulty]) {
			op.Fault = genFault(r, []int{4, 12, 30}[r.N(3)], "str", "err", "other")
			if op.Do == "build" {
				op.Fault.At = r.N(4)
			}
		}
		switch op.Do {
		case "new":
			op.Var = r.Str(metaBadKinds...)
			op.Fault = nil
			p.Ops = append(p.Ops, op)
			continue
		case "build":
			p.Ops = append(p.Ops, op)
			continue
		}
		in := ins[op.Eng]
		rule := "doc"
		if op.Do == "code" {
			rule = p.Engs[op.Eng].Rules[r.N(len(p.Engs[op.Eng].Rules))].Name
			op.Rule = rule
			rule = nestRule(in, rule)
		}
		op.Toks = genToks(r, in, rule, corrupt)
		if lay {
			op.Lay = r.In(1, 1000)
		}
		if r.P(40) {
			op.File = r.Str("f.txt", "d/g.q")
		}
		if r.P(4) {
			op.Bad = r.Str("\"unterminated", "#\x01\n\x01", "'", "`open", "/* open", "$")
		}
		if nest && r.P(75) {
			for j := r.In(1, 3); j > 0; j-- {
				ns := gNest{At: r.N([]int{3, 8, 20}[r.N(3)]), Eng: r.N(ne), Host: r.N(3), Swallow: r.P(75)}
				rules := p.Engs[ns.Eng].Rules
				ns.Rule = rules[r.N(len(rules))].Name
				if r.P(45) {
					ns.Code = r.N(8)
				} else {
					ns.Code = -1
					ns.Toks = genToks(r, ins[ns.Eng], nestRule(ins[ns.Eng], ns.Rule), corrupt)
					ns.Lay = r.In(0, 1000)
				}
				op.Nest = append(op.Nest, ns)
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

var metaWorld = regWorld(&World{Name: "meta", Gen: genMeta, New: func() interface{} { return new(metaPlan) }, Run: runMeta, Limit: 60000000})
