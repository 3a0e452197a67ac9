package main

// World "ql": sessions of the script language, against a reference interpreter.

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	qspec "github.com/qiniu/text/tpl/qlang/spec"
)

// qN is a node of a script.
//
// expressions: str(V) flt(N quarters) idx(A,B) sub(A; As, Ps has "i" and "j") map(As: key, value...)
// bi(V built-in; As; N=1 spreads the last) pos(A) int(N) var(V) bin(V,A,B) not(A) neg(A) h(N;As) r(N) hc(N;A;V=1
// swallows) call(A;As) fn(Ps;V=...;B) mc(V;A;As) mg(V;A) sl(As) new(V;As;Ps=()
// given) class(As: m(V;Ps;B)) if(As: cond,block...;B else) sw(A;As: value,block...;B)
// for(As: init,cond,step;B) main(B) paren(A)
// statements: set(V;A) mset(Ps;A) ops(V=var;Ps[0]=op;A) inc(V) dec(V) ret(A)
// defer(A) boom(N; V=int) sm(V;A;B) unset(V) and expressions; blk(As)
type qN struct {
	K  string   `json:"k"`
	V  string   `json:"v,omitempty"`
	N  int      `json:"n,omitempty"`
	A  *qN      `json:"a,omitempty"`
	B  *qN      `json:"b,omitempty"`
	As []*qN    `json:"as,omitempty"`
	Ps []string `json:"ps,omitempty"`

	t, op int // token a failure here is located at
}

type qlOp struct {
	B     *qN     `json:"b,omitempty"`
	Raw   string  `json:"raw,omitempty"`
	Fault *Fault  `json:"f,omitempty"`
	Lay   int     `json:"lay,omitempty"`
	Semi  bool    `json:"semi,omitempty"` // a ';' after the last statement
	File  string  `json:"file,omitempty"`
	Junk  string  `json:"junk,omitempty"` // "~" at statement JS, token JT of it; or a lexical error
	JS    int     `json:"js,omitempty"`
	JT    int     `json:"jt,omitempty"`
	Keep  bool    `json:"keep,omitempty"` // do not take the value
	SetV  []qSetV `json:"setv,omitempty"` // by the host, before the evaluation
}

type qSetV struct {
	V string `json:"v"`
	N int    `json:"n,omitempty"`
}

type qlPlan struct {
	Insert bool   `json:"insert,omitempty"`
	Ops    []qlOp `json:"ops"`
}

// ---- rendering

type qRender struct {
	toks  []string
	op    int
	stmts [][2]int
}

func (w *qRender) em(s ...string) int {
	n := len(w.toks)
	w.toks = append(w.toks, s...)
	return n
}

func qComposite(n *qN) bool {
	switch n.K {
	case "bin", "not", "neg", "pos", "if", "sw", "for", "main", "fn", "class", "new", "map":
		return true
	}
	return false
}

// operand renders n as an operand and returns its first token.
func (w *qRender) operand(n *qN) int {
	n = qFix(n)
	t := len(w.toks)
	if qComposite(n) {
		w.em("(")
		w.expr(n)
		w.em(")")
		return t
	}
	w.expr(n)
	return t
}

// atom renders n so that a call, member or index may follow.
func (w *qRender) atom(n *qN) {
	n = qFix(n)
	switch n.K {
	case "int", "str", "flt", "chr", "r":
		w.em("(")
		w.expr(n)
		w.em(")")
		return
	}
	w.operand(n)
}

// head renders the head of a statement that a block follows.
func (w *qRender) head(n *qN) {
	if n = qFix(n); n.K == "map" {
		w.operand(n)
		return
	}
	w.expr(n)
}

func (n *qN) spread() bool { return len(n.Ps) > 0 && n.Ps[0] == "..." }

func (w *qRender) actuals(n *qN) {
	w.list(n.As)
	if n.spread() {
		w.em("...")
	}
	if len(n.Ps) > 1 && n.Ps[1] == "," && len(n.As) > 0 {
		w.em(",")
	}
}

func qFix(n *qN) *qN {
	if n == nil {
		return &qN{K: "int", N: 1}
	}
	return n
}

func (w *qRender) list(as []*qN) {
	for i, a := range as {
		if i > 0 {
			w.em(",")
		}
		w.expr(a)
	}
}

func (w *qRender) fnbody(ps []string, variadic bool, b *qN) {
	w.em("(")
	for i, p := range ps {
		if i > 0 {
			w.em(",")
		}
		w.em(p)
	}
	if variadic && len(ps) > 0 {
		w.em("...")
	}
	w.em(")")
	w.block(b)
}

func (w *qRender) block(b *qN) {
	w.em("{")
	if b != nil {
		for i, s := range b.As {
			if i > 0 {
				w.em(";\n")
			}
			w.stmt(s)
		}
	}
	w.em("}")
}

func (w *qRender) expr(n *qN) {
	n = qFix(n)
	n.op = w.op
	qNames(n)
	switch n.K {
	case "int":
		if n.N < 0 {
			n.N = -n.N
		}
		switch n.V {
		case "x":
			n.t = w.em("0x" + strconv.FormatInt(int64(n.N), 16))
		case "o":
			n.t = w.em("0" + strconv.FormatInt(int64(n.N), 8))
		case "big": // not an integer of the machine
			n.t = w.em("9223372036854775" + strconv.Itoa(1000+n.N%1000))
		default:
			n.t = w.em(strconv.Itoa(n.N))
		}
	case "var":
		n.t = w.em(n.V)
	case "bin":
		w.operand(n.A)
		w.em(n.V)
		n.t = w.operand(n.B)
	case "not":
		w.em("!")
		n.t = w.operand(n.A)
	case "neg":
		w.em("-")
		n.t = w.operand(n.A)
	case "h":
		w.em("h", "(", strconv.Itoa(n.N))
		for _, a := range n.As {
			w.em(",")
			w.expr(a)
		}
		n.t = w.em(")")
	case "r":
		w.em("r", "(", strconv.Itoa(n.N), ",", "recover", "(", ")")
		n.t = w.em(")")
	case "hc":
		w.em("hc", "(", strconv.Itoa(n.N), ",")
		w.expr(n.A)
		w.em(",", map[bool]string{true: "1", false: "0"}[n.V == "1"])
		n.t = w.em(")")
	case "call":
		if a := qFix(n.A); a.K == "fn" {
			w.expr(a)
		} else {
			w.atom(a)
		}
		w.em("(")
		w.actuals(n)
		n.t = w.em(")")
	case "fn":
		w.em("fn")
		w.fnbody(n.Ps, n.V == "...", n.B)
	case "mc":
		w.atom(n.A)
		w.em(".")
		n.N = w.em(n.V) // location of the member
		w.em("(")
		w.actuals(n)
		n.t = w.em(")")
	case "mg":
		w.atom(n.A)
		w.em(".")
		n.t = w.em(n.V)
	case "sl":
		w.em("[")
		w.list(n.As)
		w.em("]")
	case "str":
		w.em(strconv.Quote(n.V))
	case "chr":
		if n.V == "bad" {
			n.t = w.em("'é'")
			break
		}
		n.t = w.em(strconv.QuoteRune(rune('a' + qAbs(n.N)%20)))
	case "flt":
		w.em(strconv.FormatFloat(float64(qAbs(n.N))/4, 'f', 2, 64))
	case "pos":
		w.em("+")
		w.operand(n.A)
	case "idx":
		w.atom(n.A)
		w.em("[")
		w.expr(n.B)
		n.t = w.em("]")
	case "sub":
		w.atom(n.A)
		w.em("[")
		if i, _ := n.bounds(); i != nil {
			w.expr(i)
		}
		w.em(":")
		if _, j := n.bounds(); j != nil {
			w.expr(j)
		}
		n.t = w.em("]")
	case "map":
		w.em("{")
		for i := 0; i+1 < len(n.As); i += 2 {
			if i > 0 {
				w.em(",")
			}
			w.expr(n.As[i])
			w.em(":")
			w.expr(n.As[i+1])
		}
		n.t = w.em("}")
	case "bi":
		w.em(n.V, "(")
		w.actuals(n)
		n.t = w.em(")")
	case "new":
		w.em("new")
		n.N = w.em(n.V)
		n.t = -1
		if len(n.Ps) > 0 || len(n.As) > 0 {
			n.t = w.em("(")
			w.list(n.As)
			w.em(")")
		}
	case "class":
		w.em("class", "{")
		for _, m := range n.As {
			w.em("fn", m.V)
			w.fnbody(m.Ps, m.K == "mv", m.B)
			w.em(";\n")
		}
		w.em("}")
	case "if":
		for i := 0; i+1 < len(n.As); i += 2 {
			if i == 0 {
				w.em("if")
			} else {
				w.em("elif")
			}
			w.head(n.As[i])
			w.block(n.As[i+1])
		}
		n.t = -1
		if n.B != nil {
			n.t = w.em("else")
			w.block(n.B)
		}
	case "sw":
		w.em("switch")
		if n.A != nil {
			w.head(n.A)
		}
		w.em("{")
		for i := 0; i+1 < len(n.As); i += 2 {
			w.em("case")
			w.expr(n.As[i])
			w.em(":")
			w.swdoc(n.As[i+1])
		}
		if n.B != nil {
			w.em("default", ":")
			w.swdoc(n.B)
		}
		n.t = w.em("}")
	case "for":
		w.em("for")
		for i, s := range n.As {
			if i > 0 {
				w.em(";")
			}
			if s = qFix(s); s.K == "map" {
				w.operand(s)
				continue
			}
			w.stmt(s)
		}
		w.block(n.B)
		n.t = len(w.toks) - 1
	case "main":
		w.em("main")
		w.block(n.B)
		n.t = len(w.toks) - 1
	case "paren":
		w.em("(")
		w.expr(n.A)
		w.em(")")
	default:
		w.em("1")
	}
}

func (w *qRender) swdoc(b *qN) {
	for i, s := range b.As {
		if i > 0 {
			w.em(";\n")
		}
		w.stmt(s)
	}
}

// qNames repairs what shrinking may have done to a name.
func qNames(n *qN) {
	switch n.K {
	case "bi":
		if n.V == "" {
			n.V = "len"
		}
	case "var", "set", "ops", "inc", "dec", "mc", "mg", "new", "sm", "unset":
		if n.V == "" {
			n.V = "a"
		}
	case "bin":
		if n.V == "" {
			n.V = "+"
		}
	}
	for n.K == "mset" && len(n.Ps) < 2 {
		n.Ps = append(n.Ps, "a")
	}
	for i := range n.Ps {
		if n.Ps[i] == "" {
			n.Ps[i] = "a"
		}
	}
	for _, m := range n.As {
		if m != nil && (m.K == "m" || m.K == "mv") && m.V == "" {
			m.V = "a"
		}
	}
}

func (w *qRender) stmt(n *qN) {
	n = qFix(n)
	n.op = w.op
	qNames(n)
	switch n.K {
	case "set":
		n.t = w.em(n.V, "=")
		w.expr(n.A)
	case "mset":
		for i, p := range n.Ps {
			if i > 0 {
				w.em(",")
			}
			w.em(p)
		}
		w.em("=")
		n.t = len(w.toks)
		w.expr(n.A)
	case "ops":
		n.t = w.em(n.V, n.op1()+"=")
		w.expr(n.A)
	case "inc":
		n.t = w.em(n.V, "++")
	case "dec":
		n.t = w.em(n.V, "--")
	case "ret":
		w.em("return")
		n.t = -1
		if n.A != nil {
			n.t = len(w.toks)
			w.expr(n.A)
		}
	case "defer":
		w.em("defer")
		w.expr(n.A)
	case "boom":
		if n.V == "int" {
			w.em("panic", "(", strconv.Itoa(qAbs(n.N)))
		} else {
			w.em("panic", "(", fmt.Sprintf(`"boom%d!"`, n.N))
		}
		n.t = w.em(")")
	case "unset":
		w.em("unset", "(", strconv.Quote(n.V))
		n.t = w.em(")")
	case "sm":
		w.em("set", "(")
		w.expr(n.A)
		w.em(",", strconv.Quote(n.V), ",")
		w.expr(n.B)
		n.t = w.em(")")
	default:
		w.expr(n)
	}
}

func qAbs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// bounds are those of a "sub".
func (n *qN) bounds() (i, j *qN) {
	k := 0
	for _, p := range n.Ps {
		if k >= len(n.As) {
			break
		}
		if p == "i" && i == nil && j == nil {
			i = qFix(n.As[k])
			k++
		} else if p == "j" && j == nil {
			j = qFix(n.As[k])
			k++
		}
	}
	return
}

func (n *qN) op1() string {
	if len(n.Ps) == 1 {
		switch n.Ps[0] {
		case "-", "*", "%", "/":
			return n.Ps[0]
		}
	}
	return "+"
}

var qTrig = regexp.MustCompile(`^([A-Za-z_0-9"'].*|\)|\]|\}|\+\+|--)$`)

// layout turns tokens into a text; lines[i] is the line of token i.
func (w *qRender) layout(lay int, insert bool) (string, []int, []int) {
	if !insert {
		toks := make([]string, len(w.toks))
		for i, t := range w.toks {
			toks[i] = strings.TrimSuffix(t, "\n")
		}
		return renderToks(toks, lay)
	}
	r := NewR("qlay", lay)
	var b strings.Builder
	var lines, offs []int
	line := 1
	put := func(s string) {
		b.WriteString(s)
		line += strings.Count(s, "\n")
	}
	for i, t := range w.toks {
		trig := i > 0 && qTrig.MatchString(w.toks[i-1])
		if t == ";\n" {
			lines = append(lines, line)
			offs = append(offs, b.Len())
			if lay != 0 && trig && r.P(60) {
				put(r.Str("\n", " \n", " //c\n", "\n\n", " /*x*/\n"))
			} else {
				put(";")
			}
			continue
		}
		switch {
		case i == 0 || lay == 0:
			put(" ")
		case trig:
			put(r.Str(" ", "  ", "\t", " /*c*/ "))
		default:
			put(r.Str(" ", " ", "\n", " //c\n", "\t", "\r\n", " /*\n*/ "))
		}
		lines = append(lines, line)
		offs = append(offs, b.Len())
		put(t)
	}
	if lay != 0 && r.P(30) {
		put("\n")
	}
	return b.String(), lines, offs
}

// ---- values

type mFn struct {
	ps       []string
	variadic bool
	b        *qN
	up       *qFrame
	this     *mObj
}

type mCls struct {
	fns map[string]*mFn
}

type mObj struct {
	cls  *mCls
	vars map[string]interface{}
}

type qBuiltin string

type qExt struct{ f *qFrame }

// qUnexp renders a value of an unexported field.
func qUnexp(v reflect.Value) interface{} {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Int:
		return int(v.Int())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.Uint8:
		return byte(v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Invalid:
		return nil
	case reflect.Ptr:
		return &mFn{}
	}
	return []interface{}{"?"}
}

func qVars(m map[string]interface{}) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []string
	for _, k := range ks {
		l = append(l, k+":"+qVal(m[k]))
	}
	return "{" + strings.Join(l, " ") + "}"
}

// qMembers renders the members of an object, without following references.
func qMembers(m map[string]interface{}) string {
	f := map[string]interface{}{}
	for k, v := range m {
		switch v.(type) {
		case nil, int, bool, string, float64, byte:
			f[k] = v
		default:
			f[k] = []interface{}{}
		}
	}
	return qVars(f)
}

// ---- the reference interpreter

type qFrame struct {
	vars   map[string]interface{}
	up     *qFrame
	recov  *qFail
	defers []*qN
	ret    interface{}
}

type qFail struct {
	cause   string
	other   bool
	val     interface{} // a panic value of the script's own
	inj     bool
	located bool
	op, tok int // tok -1: no place known
	fold    bool
}

type qReturn struct{}
type qExit struct{ code int }
type qOver struct{}

type qM struct {
	top   *qFrame
	ev    []string
	f     *Fault
	n     int
	fired bool
	steps int
	depth int
	cnt   map[string]int
}

func (m *qM) step() {
	m.steps++
	if m.steps > 1500 {
		panic(qOver{})
	}
}

func (m *qM) hit() {
	i := m.n
	m.n++
	if m.f == nil || m.fired || i != m.f.At {
		return
	}
	m.fired = true
	switch m.f.Kind {
	case "err", "ret":
		panic(&qFail{cause: causeErr, inj: true})
	case "other":
		panic(&qFail{other: true})
	}
	panic(&qFail{cause: causeStr})
}

const qTypeErr = "type"

func qThrow(cause string) { panic(&qFail{cause: cause}) }

// at gives a failure of f its place.
func (m *qM) at(n *qN, tok int, f func() interface{}) interface{} {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*qFail); ok && !x.located && !x.other {
				x.located = true
				x.op, x.tok = n.op, tok
			}
			panic(e)
		}
	}()
	return f()
}

func (f *qFail) canon() string {
	if f.other && f.val != nil {
		return qCanon(f.val)
	}
	if f.other {
		return "other"
	}
	return f.cause
}

func (m *qM) lookup(fr *qFrame, name string) interface{} {
	if v, ok := fr.vars[name]; ok {
		if x, ok := v.(qExt); ok {
			return x.f.vars[name]
		}
		return v
	}
	if name[0] != '_' {
		for t := fr.up; t != nil; t = t.up {
			if v, ok := t.vars[name]; ok {
				x, isX := v.(qExt)
				if isX {
					v = x.f.vars[name]
				} else {
					x = qExt{t}
				}
				fr.vars[name] = x
				return v
			}
		}
	}
	switch name {
	case "nil":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "ho":
		return qHostObj
	case "undefined":
		return qspec.Undefined
	case "h", "r", "hc", "set", "panic", "append", "len", "get", "delete", "ht", "hv", "hx", "hs", "unset":
		return qBuiltin(name)
	}
	qThrow("symbol not found: " + name)
	return nil
}

func (m *qM) target(fr *qFrame, name string) map[string]interface{} {
	if v, ok := fr.vars[name]; ok {
		if x, ok := v.(qExt); ok {
			return x.f.vars
		}
		return fr.vars
	}
	if name[0] != '_' {
		for t := fr.up; t != nil; t = t.up {
			if _, ok := t.vars[name]; ok {
				qThrow(fmt.Sprintf("variable `%s` exists in extern function", name))
			}
		}
	}
	return fr.vars
}

func (m *qM) own(fr *qFrame, name string) (map[string]interface{}, interface{}) {
	v, ok := fr.vars[name]
	if !ok {
		qThrow(fmt.Sprintf("variable `%s` not found", name))
	}
	if x, ok := v.(qExt); ok {
		return x.f.vars, x.f.vars[name]
	}
	return fr.vars, v
}

func (m *qM) block(fr *qFrame, b *qN) (v interface{}) {
	for _, s := range b.As {
		v = m.stmt(fr, s)
	}
	return
}

func (m *qM) event(f string, a ...interface{}) {
	if len(m.ev) > 2000 {
		panic(qOver{})
	}
	m.ev = append(m.ev, fmt.Sprintf(f, a...))
}

func (m *qM) args(fr *qFrame, as []*qN) (out []interface{}) {
	for _, a := range as {
		out = append(out, m.expr(fr, a))
	}
	return
}

func qArgs(as []interface{}) string {
	s := ""
	for _, a := range as {
		s += " " + qVal(a)
	}
	return s
}

func (m *qM) call(fv interface{}, args []interface{}) interface{} {
	fn, ok := fv.(*mFn)
	if !ok {
		if b, isB := fv.(qBuiltin); isB {
			return m.builtin(string(b), args)
		}
		qThrow(qTypeErr)
	}
	if fn.this != nil {
		args = append([]interface{}{fn.this}, args...)
	}
	n := len(fn.ps)
	if fn.variadic {
		if len(args) < n-1 {
			qThrow(fmt.Sprintf("function requires >= %d arguments, but we got %d", n-1, len(args)))
		}
	} else if len(args) != n {
		qThrow(fmt.Sprintf("function requires %d arguments, but we got %d", n, len(args)))
	}
	if fn.b == nil || len(fn.b.As) == 0 {
		return nil
	}
	m.depth++
	if m.depth > 40 {
		panic(qOver{})
	}
	defer func() { m.depth-- }()
	fr := &qFrame{vars: map[string]interface{}{}, up: fn.up}
	if fn.variadic {
		for i := 0; i < n-1; i++ {
			fr.vars[fn.ps[i]] = args[i]
		}
		fr.vars[fn.ps[n-1]] = anyList(args[n-1:])
	} else {
		for i, a := range args {
			fr.vars[fn.ps[i]] = a
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case *qFail:
					fr.recov = x
					m.cnt["function_failed"]++
				case qReturn:
				default:
					panic(e)
				}
			}
		}()
		m.block(fr, fn.b)
	}()
	m.runDefers(fr)
	if f := fr.recov; f != nil {
		fr.recov = nil
		panic(f)
	}
	return fr.ret
}

func (m *qM) runDefers(fr *qFrame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.cnt["deferred_run"]++
		if fr.recov != nil {
			m.cnt["deferred_run_while_failing"]++
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch x := e.(type) {
					case *qFail:
						m.cnt["deferred_failed"]++
						fr.recov = x
					case qReturn:
					default:
						panic(e)
					}
				}
			}()
			m.expr(fr, d)
		}()
	}
}

func (m *qM) expr(fr *qFrame, n *qN) (v interface{}) {
	n = qFix(n)
	m.step()
	switch n.K {
	case "int":
		if n.V == "big" {
			m.at(n, n.t, func() interface{} { qThrow(qTypeErr); return nil })
		}
		return n.N
	case "var":
		return m.at(n, n.t, func() interface{} { return m.lookup(fr, n.V) })
	case "bin":
		a := m.expr(fr, n.A)
		if n.V == "&&" || n.V == "||" {
			// the action belongs to what follows the captured operand: it has
			// the captured operand's place
			x, ok := a.(bool)
			if !ok {
				panic(&qFail{cause: qTypeErr, located: true, op: n.op, tok: n.t, fold: true})
			}
			if x == (n.V == "||") {
				return x
			}
			return m.expr(fr, n.B)
		}
		b := m.expr(fr, n.B)
		return m.at(n, n.t, func() interface{} { return qArith(n.V, a, b) })
	case "not":
		a := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} {
			x, ok := a.(bool)
			if !ok {
				qThrow(qTypeErr)
			}
			return !x
		})
	case "neg":
		a := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} {
			if f, ok := a.(float64); ok {
				return -f
			}
			x, ok := a.(int)
			if !ok {
				qThrow(qTypeErr)
			}
			return -x
		})
	case "h":
		as := m.args(fr, n.As)
		return m.at(n, n.t, func() interface{} {
			m.event("h %d%s", n.N, qArgs(as))
			m.hit()
			if len(as) > 0 {
				return as[len(as)-1]
			}
			return n.N
		})
	case "r":
		var f *qFail
		if fr.up != nil {
			f = fr.up.recov
			fr.up.recov = nil
		}
		return m.at(n, n.t, func() interface{} {
			if f == nil {
				m.event("r %d nil", n.N)
				m.hit()
				return 0
			}
			m.cnt["recovered"]++
			m.event("r %d %s", n.N, f.canon())
			m.hit()
			return 1
		})
	case "hc":
		fv := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} {
			m.event("hc %d", n.N)
			m.hit()
			if _, ok := fv.(*mFn); !ok {
				m.event("hc %d nofn", n.N)
				return 0
			}
			if n.V != "1" {
				return m.call(fv, nil)
			}
			var ret interface{}
			func() {
				defer func() {
					if e := recover(); e != nil {
						f, ok := e.(*qFail)
						if !ok {
							panic(e)
						}
						m.event("hc %d caught %s", n.N, f.canon())
						m.cnt["caught_by_host"]++
						ret = 0
					}
				}()
				ret = m.call(fv, nil)
			}()
			return ret
		})
	case "call":
		fv := m.expr(fr, n.A)
		as := m.args(fr, n.As)
		return m.at(n, n.t, func() interface{} {
			if n.spread() {
				as = qSpread(as)
			}
			return m.call(fv, as)
		})
	case "fn":
		return &mFn{ps: n.Ps, variadic: n.V == "..." && len(n.Ps) > 0, b: n.B, up: fr}
	case "mc":
		o := m.expr(fr, n.A)
		fv := m.at(n, n.N, func() interface{} { return m.member(o, n.V) })
		as := m.args(fr, n.As)
		return m.at(n, n.t, func() interface{} {
			if n.spread() {
				as = qSpread(as)
			}
			return m.call(fv, as)
		})
	case "mg":
		o := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} { return m.member(o, n.V) })
	case "sl":
		return qList(m.args(fr, n.As))
	case "str":
		return n.V
	case "chr":
		if n.V == "bad" {
			m.at(n, n.t, func() interface{} { qThrow(qTypeErr); return nil })
		}
		return byte('a' + qAbs(n.N)%20)
	case "flt":
		return float64(qAbs(n.N)) / 4
	case "pos":
		return m.expr(fr, n.A)
	case "idx":
		o := m.expr(fr, n.A)
		k := m.expr(fr, n.B)
		return m.at(n, n.t, func() interface{} { return qGet(o, k) })
	case "sub":
		o := m.expr(fr, n.A)
		i, j := n.bounds()
		var iv, jv interface{}
		if i != nil {
			iv = m.expr(fr, i)
		}
		if j != nil {
			jv = m.expr(fr, j)
		}
		return m.at(n, n.t, func() interface{} { return qSub(o, iv, jv) })
	case "map":
		as := m.args(fr, n.As[:len(n.As)/2*2])
		return m.at(n, n.t, func() interface{} { return qMapLit(as) })
	case "bi":
		as := m.args(fr, n.As)
		return m.at(n, n.t, func() interface{} {
			if n.spread() {
				as = qSpread(as)
			}
			return m.builtin(n.V, as)
		})
	case "new":
		cv := m.at(n, n.N, func() interface{} { return m.lookup(fr, n.V) })
		as := m.args(fr, n.As)
		return m.at(n, n.t, func() interface{} {
			cls, ok := cv.(*mCls)
			if !ok {
				qThrow(qTypeErr)
			}
			o := &mObj{cls: cls, vars: map[string]interface{}{}}
			if init := cls.fns["_init"]; init != nil {
				f := *init
				f.this = o
				m.call(&f, as)
			}
			return o
		})
	case "class":
		c := &mCls{fns: map[string]*mFn{}}
		for _, x := range n.As {
			c.fns[x.V] = &mFn{ps: append([]string{"this"}, x.Ps...), variadic: x.K == "mv" && len(x.Ps) > 0, b: x.B, up: fr}
		}
		return c
	case "if":
		for i := 0; i+1 < len(n.As); i += 2 {
			c, ok := m.expr(fr, n.As[i]).(bool)
			if !ok {
				panic(&qFail{cause: qTypeErr, located: true, op: n.op, tok: n.t})
			}
			if c {
				return m.block(fr, n.As[i+1])
			}
		}
		if n.B != nil {
			return m.block(fr, n.B)
		}
		return nil
	case "sw":
		var x interface{} = true
		if n.A != nil {
			x = m.expr(fr, n.A)
		}
		for i := 0; i+1 < len(n.As); i += 2 {
			y := m.expr(fr, n.As[i])
			if eq, _ := m.at(n, n.t, func() interface{} { return qArith("==", x, y) }).(bool); eq {
				return m.block(fr, n.As[i+1])
			}
		}
		if n.B != nil {
			return m.block(fr, n.B)
		}
		return nil
	case "for":
		var init, cond, step *qN
		switch len(n.As) {
		case 1:
			cond = n.As[0]
		case 3:
			init, cond, step = n.As[0], n.As[1], n.As[2]
		case 0:
		default: // an illegal form
			panic(&qFail{cause: qTypeErr, located: true, op: n.op, tok: n.t})
		}
		if init != nil {
			m.stmt(fr, init)
		}
		for {
			m.step()
			if cond != nil {
				c, ok := m.stmt(fr, cond).(bool)
				if !ok {
					panic(&qFail{cause: qTypeErr, located: true, op: n.op, tok: n.t})
				}
				if !c {
					return nil
				}
			}
			if n.B != nil {
				m.block(fr, n.B)
			}
			if step != nil {
				m.stmt(fr, step)
			}
		}
	case "main":
		ret := m.at(n, n.t, func() interface{} {
			r := m.call(&mFn{b: n.B, up: fr}, nil)
			if r != nil {
				if _, ok := r.(int); !ok {
					qThrow(qTypeErr)
				}
			}
			return r
		})
		code, _ := ret.(int)
		panic(qExit{code})
	case "paren":
		return m.expr(fr, n.A)
	}
	return 1
}

func (m *qM) member(o interface{}, name string) interface{} {
	switch x := o.(type) {
	case *mMap:
		if v, ok := x.m[name]; ok && x.key == reflect.String {
			return v
		}
		qThrow(qTypeErr)
	case *qHost:
		switch name {
		case "add":
			return qBuiltin("ho.add")
		case "base":
			return x.Base
		case "tick", "tock": // called at once
			m.event("ho.%s", name)
			m.hit()
			if name == "tick" {
				return 5
			}
			return anyList([]interface{}{"t", 200, 2.5})
		}
		qThrow(qTypeErr)
	}
	x, ok := o.(*mObj)
	if !ok {
		if c, isC := o.(*mCls); isC && c.fns[name] != nil {
			return c.fns[name]
		}
		if _, isB := o.(qBuiltin); isB {
			panic(qOver{})
		}
		qThrow(qTypeErr)
	}
	if v, ok := x.vars[name]; ok {
		return v
	}
	if f := x.cls.fns[name]; f != nil {
		g := *f
		g.this = x
		return &g
	}
	qThrow(qTypeErr)
	return nil
}

func (m *qM) stmt(fr *qFrame, n *qN) (v interface{}) {
	n = qFix(n)
	m.step()
	switch n.K {
	case "junk": // the text does not go on here
		panic(&qFail{cause: "match", fold: true, tok: -1})
	case "set":
		v := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} {
			m.target(fr, n.V)[n.V] = v
			return v
		})
	case "mset":
		v := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} {
			l, ok := v.(*mL)
			if !ok || l.hi-l.lo != len(n.Ps) {
				qThrow(qTypeErr)
			}
			for i, p := range n.Ps {
				m.target(fr, p)[p] = l.vals()[i]
			}
			return v
		})
	case "ops":
		b := m.expr(fr, n.A)
		return m.at(n, n.t, func() interface{} {
			vs, a := m.own(fr, n.V)
			v := qArith(n.op1(), a, b)
			vs[n.V] = v
			return v
		})
	case "inc", "dec":
		return m.at(n, n.t, func() interface{} {
			vs, a := m.own(fr, n.V)
			if b, ok := a.(byte); ok {
				if n.K == "inc" {
					b++
				} else {
					b--
				}
				vs[n.V] = b
				return b
			}
			x, ok := a.(int)
			if !ok {
				qThrow(qTypeErr)
			}
			if n.K == "inc" {
				x++
			} else {
				x--
			}
			vs[n.V] = x
			return x
		})
	case "ret":
		var v interface{}
		if n.A != nil {
			v = m.expr(fr, n.A)
		}
		fr.ret = v
		if fr.up != nil {
			panic(qReturn{})
		}
		m.runDefers(fr)
		if f := fr.recov; f != nil {
			fr.recov = nil
			panic(f)
		}
		return m.at(n, n.t, func() interface{} {
			if v == nil {
				panic(qExit{0})
			}
			code, ok := v.(int)
			if !ok {
				qThrow(qTypeErr)
			}
			panic(qExit{code})
		})
	case "defer":
		fr.defers = append(fr.defers, qFix(n.A))
		return nil
	case "boom":
		return m.at(n, n.t, func() interface{} {
			if n.V == "int" {
				panic(&qFail{other: true, val: qAbs(n.N)})
			}
			qThrow(fmt.Sprintf("boom%d!", n.N))
			return nil
		})
	case "unset":
		delete(fr.vars, n.V)
		return nil
	case "sm":
		o := m.expr(fr, n.A)
		v := m.expr(fr, n.B)
		return m.at(n, n.t, func() interface{} {
			return m.builtin("set", []interface{}{o, n.V, v})
		})
	}
	return m.expr(fr, n)
}

// qOut is how an evaluation ends.
type qOut struct {
	val  interface{}
	fail *qFail
	exit bool
	code int
	over bool
	rec  bool // it failed, but a deferred function recovered: no value is specified
}

// run evaluates statements at the top level. With defers false, the pending
// deferred expressions are kept.
func (m *qM) run(stmts []*qN, defers bool) (o qOut) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case qExit:
			o.exit, o.code = true, x.code
		case qOver:
			o.over = true
		default:
			panic(x)
		}
	}()
	failed := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(*qFail)
				if !ok {
					panic(e)
				}
				m.top.recov = f
				failed = true
			}
		}()
		o.val = m.block(m.top, &qN{As: stmts})
	}()
	if defers || m.top.recov != nil {
		m.runDefers(m.top)
	}
	o.rec = failed && m.top.recov == nil
	o.fail = m.top.recov
	m.top.recov = nil
	return
}

// ---- the host functions of the scripts

type qCaller interface {
	Call(args ...interface{}) interface{}
}

type qlEnv struct {
	ev   []string
	lang qlang.Qlang
}

func curQl() *qlEnv {
	c := curCtx()
	if c == nil {
		return nil
	}
	if e, ok := c.ql.(*qlEnv); ok {
		return e
	}
	return &qlEnv{}
}

func (e *qlEnv) event(f string, a ...interface{}) {
	if len(e.ev) < 5000 {
		e.ev = append(e.ev, fmt.Sprintf(f, a...))
	}
}

var qKnown = regexp.MustCompile("^(injected string|injected error|boom\\d+!|symbol not found: .*|variable `.*` (not found|exists in extern function)|function requires .*)$")

func qCanon(v interface{}) string {
	switch x := v.(type) {
	case otherVal:
		return "other"
	case *interpreter.RuntimeError:
		if x == nil || x.Err == nil {
			return "<nil error>"
		}
		return qCanonText(x.Err.Error())
	case *tpl.MatchError:
		return "match"
	case error:
		return "raw " + qCanonText(safeErr(x))
	case string:
		return "raw " + qCanonText(x)
	}
	return fmt.Sprintf("<%T>", v)
}

func qCanonText(s string) string {
	if qKnown.MatchString(s) {
		return s
	}
	return qTypeErr
}

func init() {
	qlang.Import("", map[string]interface{}{
		"h": func(id int, a ...interface{}) interface{} {
			e := curQl()
			e.event("h %d%s", id, qArgs(a))
			curCtx().hit("h", false)
			if len(a) > 0 {
				return a[len(a)-1]
			}
			return id
		},
		"r": func(id int, v interface{}) int {
			e := curQl()
			if v == nil {
				e.event("r %d nil", id)
				curCtx().hit("r", false)
				return 0
			}
			e.event("r %d %s", id, qCanon(v))
			curCtx().hit("r", false)
			return 1
		},
		"hc": func(id int, f interface{}, swallow int) (ret interface{}) {
			e := curQl()
			e.event("hc %d", id)
			curCtx().hit("hc", false)
			fn, ok := f.(qCaller)
			if !ok {
				e.event("hc %d nofn", id)
				return 0
			}
			if swallow == 1 {
				defer func() {
					if x := recover(); x != nil {
						e.event("hc %d caught %s", id, strings.TrimPrefix(qCanon(x), "raw "))
						ret = 0
					}
				}()
			}
			return fn.Call()
		},
	})
	qlang.Import("", qHostFns())
}

// ---- run

func qTouched(n *qN, set map[string]bool) {
	if n == nil || n.K == "fn" || n.K == "class" {
		return
	}
	switch n.K {
	case "set", "ops", "inc", "dec", "unset":
		set[n.V] = true
	case "mset":
		for _, p := range n.Ps {
			set[p] = true
		}
	}
	qTouched(n.A, set)
	qTouched(n.B, set)
	for _, a := range n.As {
		qTouched(a, set)
	}
}

// qPure: executing a part of n changes nothing but top-level variables.
func qPure(n *qN) bool {
	if n == nil {
		return true
	}
	switch n.K {
	case "call", "mc", "new", "hc", "sm", "ret", "main", "defer", "unset":
		return false
	case "mg":
		if n.V == "tick" || n.V == "tock" {
			return false
		}
	case "int", "chr":
		if n.V != "" {
			return false
		}
	case "bi":
		if n.V != "len" && n.V != "get" && n.V != "h" {
			return false
		}
	}
	if !qPure(n.A) || !qPure(n.B) {
		return false
	}
	for _, a := range n.As {
		if !qPure(a) {
			return false
		}
	}
	return true
}

func qLexical(junk string) bool {
	return junk != "~" && junk != "cut" && junk != "close"
}

// qJunkPlace says what junk in front of token at does to statement n, which
// begins at token from: dead, nothing of the statement takes effect; hard, the
// statement itself (an assignment, say) does not take effect, parts of its
// operand may; open is the innermost bracket there.
func qJunkPlace(n *qN, toks []string, from, at int) (dead bool, open string, hard bool) {
	n = qFix(n)
	var st []string
	eq := -1
	committed := false
	for i := from; i < at; i++ {
		switch t := toks[i]; t {
		case "(", "[", "{":
			st = append(st, t)
			if i == from || toks[i-1] != "recover" {
				committed = true
			}
		case ")", "]", "}":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
			if len(st) == 0 {
				committed = false
			}
		case "=", "+=", "-=", "*=", "/=", "%=":
			if eq < 0 && len(st) == 0 {
				eq = i
			}
		}
	}
	if len(st) > 0 {
		open = st[len(st)-1]
	}
	inner := len(st) > 0 && committed
	prev := toks[at-1]
	kw := false
	switch prev {
	case "if", "elif", "else", "switch", "for", "new", "fn", "class", "defer", ".":
		kw = true
	}
	// a whole that takes effect when it is complete
	whole := func(x *qN) bool {
		switch x = qFix(x); x.K {
		case "if":
			return inner || kw
		case "sw", "for", "fn", "class", "main":
			return true
		}
		return false
	}
	hard = inner || kw
	switch n.K {
	case "set", "mset", "ops":
		if eq < 0 || at <= eq+1 {
			return true, open, at == eq+1 && n.K != "mset"
		}
		return whole(n.A), open, hard
	case "inc", "dec":
		return true, open, false
	case "defer":
		return inner || kw, open, hard
	}
	return whole(n), open, hard
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func qlRun(c *Ctx, pl interface{}) {
	p := pl.(*qlPlan)
	opts := (*qlang.Options)(nil)
	if p.Insert {
		opts = qlang.InsertSemis
	}
	lang, err := qlang.New(opts)
	if err != nil {
		c.Viol("new-failed", "%v", err)
		return
	}
	env := &qlEnv{lang: lang}
	c.ql = env
	m := &qM{top: &qFrame{vars: map[string]interface{}{}}, cnt: c.Cnt}
	c.onEnd = func(exited bool, code int) {
		if exited {
			c.Viol("wrong-exit", "the process ended with status %d", code)
		}
	}
	var opLines, opOffs [][]int
	failedBefore := false
	for oi := range p.Ops {
		op := &p.Ops[oi]
		if op.B == nil {
			op.B = &qN{K: "blk"}
		}
		w := &qRender{op: oi}
		for i, s := range op.B.As {
			if i > 0 {
				w.em(";\n")
			}
			a := len(w.toks)
			w.stmt(s)
			w.stmts = append(w.stmts, [2]int{a, len(w.toks)})
		}
		if op.Semi && len(op.B.As) > 0 {
			w.em(";")
		}
		ns := len(op.B.As)
		junkAt, inside, hard, raises := -1, false, false, false
		soft := false
		if op.Junk != "" && ns > 0 {
			js := op.JS
			if js < 0 {
				js = -js
			}
			js %= ns
			op.JS = js
			s := w.stmts[js]
			junkAt = s[0]
			junk, cut := op.Junk, false
			if k := s[1] - s[0] - 1; op.JT > 0 && k > 0 && !qLexical(op.Junk) {
				at := s[0] + 1 + (op.JT-1)%k
				dead, open, in := qJunkPlace(op.B.As[js], w.toks, s[0], at)
				if dead || qPure(op.B.As[js]) {
					junkAt, inside, hard = at, !dead, in
					raises = dead && in && op.B.As[js].K != "main"
					soft = dead && !raises
				}
				switch {
				case junkAt == at && open != "" && junk == "cut":
					cut = true
				case junkAt == at && open == "(" && junk == "close":
					junk = "]"
				case junkAt == at && open != "" && junk == "close":
					junk = ")"
				}
			}
			switch {
			case cut:
				w.toks = w.toks[:junkAt]
			case qLexical(op.Junk):
				w.toks = append(w.toks[:junkAt:junkAt], append([]string{junk}, w.toks[junkAt:]...)...)
			default:
				if junk == "cut" || junk == "close" {
					junk = "~"
				}
				w.toks = append(w.toks[:junkAt:junkAt], append([]string{junk}, w.toks[junkAt:]...)...)
			}
		}
		text, lines, offs := w.layout(op.Lay, p.Insert)
		opLines = append(opLines, lines)
		opOffs = append(opOffs, offs)
		raw := op.Raw != ""
		if raw {
			text = op.Raw
		}
		if ns == 0 && !raw {
			raw = true // nothing to evaluate is an error
			text = ""
		}
		what := fmt.Sprintf("op %d %q", oi, short(text, 1500))

		for _, x := range op.SetV {
			m.top.vars[x.V] = x.N
			lang.SetVar(x.V, x.N)
		}

		// the model first: it also says whether the script is small enough
		m.ev, m.f, m.n, m.fired, m.steps, m.depth = nil, op.Fault, 0, false, 0, 0
		m.top.defers = nil
		var o qOut
		var upper []string
		lexical := op.Junk != "" && qLexical(op.Junk)
		var touched map[string]bool
		switch {
		case raw || junkAt >= 0 && lexical:
			o.fail = &qFail{cause: "", tok: -1, fold: true}
		case junkAt >= 0 && raises:
			m.f = nil
			o = m.run(append(append([]*qN{}, op.B.As[:op.JS]...), &qN{K: "junk"}), true)
		case junkAt >= 0:
			m.f = nil
			o = m.run(op.B.As[:op.JS], !inside && !soft)
			if o.fail == nil && !o.exit && !o.over && !o.rec {
				if touched = map[string]bool{}; soft && len(m.top.defers) > 0 {
					return // which kind of failure is not predictable
				}
				if inside {
					if len(m.top.defers) > 0 {
						return // not predictable
					}
					snap := append([]string{}, m.ev...)
					saved := map[string]interface{}{}
					for k, v := range m.top.vars {
						saved[k] = v
					}
					u := m.run(op.B.As[op.JS:op.JS+1], true)
					if u.over || u.exit {
						return
					}
					upper = m.ev
					m.ev = snap
					m.top.vars = saved
					if x := op.B.As[op.JS]; hard { // not its own target: it did not match
						qTouched(x.A, touched)
						qTouched(x.B, touched)
						for _, a := range x.As {
							qTouched(a, touched)
						}
					} else {
						qTouched(x, touched)
					}
				} else {
					upper = m.ev
				}
				o.fail = &qFail{cause: "", tok: -1, fold: true}
			}
		default:
			o = m.run(op.B.As, true)
		}
		if o.over {
			c.Inc("over_model_budget")
			c.onEnd = nil
			return
		}
		if upper == nil {
			upper = m.ev
		}
		if m.fired || junkAt >= 0 || raw {
			c.NonTriv = true
		}
		if junkAt >= 0 {
			c.Inc("fault_text_corrupted")
		} else if raw {
			c.Inc("fault_text_empty")
		}

		// the real one
		env.ev = nil
		done := false
		c.onEnd = func(exited bool, code int) {
			if done {
				return
			}
			c.Logf("%d %s -> exit %d %s", oi, short(text, 300), code, strings.Join(env.ev, "; "))
			c.NonTriv = true
			c.Inc("process_exits")
			switch {
			case !exited:
			case !o.exit:
				c.Viol("wrong-exit", "%s: the process ended with status %d, the script should %s", what, code, o)
			case code != o.code:
				c.Viol("wrong-exit", "%s: the process ended with status %d instead of %d", what, code, o.code)
			case strings.Join(env.ev, ";") != strings.Join(m.ev, ";"):
				c.Viol("exit-order", "%s: before the exit the host saw %q, should be %q", what, env.ev, m.ev)
			}
		}
		c.arm(op.Fault)
		if junkAt >= 0 && !lexical {
			c.disarm()
		}
		err, pan := caught(func() error {
			if op.File != "" {
				return lang.SafeExec([]byte(text), op.File)
			}
			return lang.SafeEval(text)
		})
		c.disarm()
		done = true
		out := failText(err, pan)
		c.Logf("%d %s -> %s | %s", oi, short(text, 300), short(out, 300), strings.Join(env.ev, "; "))
		c.keepErr(err, pan)
		if failedBefore {
			c.Inc("evaluation_after_failure")
		}
		if o.exit {
			c.Viol("wrong-exit", "%s: the script should %s, but the evaluation gave %s", what, o, out)
			return
		}
		if out == "ok" != (o.fail == nil) {
			c.Viol("outcome", "%s: should %s, gave %s; host calls %q", what, o, out, env.ev)
			return
		}
		if !isPrefix(m.ev, env.ev) || !isPrefix(env.ev, upper) {
			c.Viol("effects", "%s: the host saw %q, should be %q", what, env.ev, upper)
			return
		}
		if f := o.fail; f != nil && !f.fold {
			if f.other && f.val != nil {
				if pan != f.val {
					c.Viol("cause-lost", "%s: the panic value %v of the script was changed: %s", what, f.val, out)
				}
			} else if f.other {
				if pan != interface{}(otherPanic) {
					c.Viol("cause-lost", "%s: the panic value of the host call was changed: %s", what, out)
				}
			} else if pan != nil {
				c.Viol("cause-lost", "%s: panicked instead of returning an error: %s", what, out)
			} else {
				if got := qCanon(err); got != f.cause {
					c.Viol("cause-lost", "%s: failed with %q instead of %q: %s", what, got, f.cause, out)
				}
				if re, ok := err.(*interpreter.RuntimeError); ok && f.inj && re.Err != errInjected {
					c.Viol("cause-lost", "%s: the original error value is not carried", what)
				}
				if f.located && f.tok >= 0 && f.op < len(opLines) && f.tok < len(opLines[f.op]) {
					file := op.File
					want := fmt.Sprintf("line %d: ", opLines[f.op][f.tok])
					if file != "" {
						want = fmt.Sprintf("%s:%d: ", file, opLines[f.op][f.tok])
					}
					c.Inc("locations_checked")
					if s := safeErr(err); !strings.HasPrefix(s, want) {
						sig := ""
						if f.op != oi { // the known defect looks the place up in this text
							off := opOffs[f.op][f.tok]
							if off >= len(text) {
								off = len(text) - 1
							}
							line := 1 + strings.Count(text[:off], "\n")
							if strings.HasPrefix(s, fmt.Sprintf("line %d: ", line)) || file != "" && strings.HasPrefix(s, fmt.Sprintf("%s:%d: ", file, line)) {
								sig = "function-of-earlier-evaluation"
							}
						}
						c.ViolSig("wrong-location", sig, "%s: the failure is at %q, reported %q", what, want, s)
					}
				}
			}
		} else if f != nil && pan != nil {
			if _, ok := pan.(error); !ok {
				c.Viol("outcome", "%s: gave %s", what, out)
			}
		}
		if f := o.fail; f != nil {
			failedBefore = true
			c.NonTriv = true
			if !m.fired && junkAt < 0 && !raw {
				c.Inc("fault_script_error")
			}
		}

		// variables
		real := lang.Vars()
		for k := range touched {
			v, ok := real[k]
			if !ok {
				if _, had := m.top.vars[k]; had {
					c.Viol("variables", "%s: variable %s is gone", what, k)
				}
				continue
			}
			switch v.(type) {
			case nil, int, bool, string, float64, byte:
				m.top.vars[k] = v
			default:
				if mv, ok := m.top.vars[k]; !ok || qVal(mv) != qVal(v) {
					c.onEnd = nil
					return // not predictable
				}
			}
		}
		if a, b := qVars(real), qVars(m.top.vars); a != b {
			c.Viol("variables", "%s: the variables are %s, should be %s", what, a, b)
			return
		}

		for k, v := range real {
			if v2, ok := lang.Var(k); !ok || qVal(v2) != qVal(v) {
				c.Viol("variables", "%s: Var(%q) is %s, %v", what, k, qVal(v2), ok)
			}
		}

		// value
		if !op.Keep {
			v, ok := lang.Ret()
			if o.fail == nil && !o.rec {
				want := o.val
				trail := op.Semi || p.Insert && qTrig.MatchString(w.toks[len(w.toks)-1])
				if trail {
					want = nil
				}
				if !ok {
					c.Viol("value", "%s: no value, should be %s", what, qVal(want))
				} else if qVal(v) != qVal(want) {
					c.Viol("value", "%s: value %s, should be %s", what, qVal(v), qVal(want))
				}
				c.Logf("  = %s", qVal(v))
			}
			if v2, ok2 := lang.Ret(); ok2 {
				c.Viol("value", "%s: a second value %s is left", what, qVal(v2))
			}
		}
		c.State(qVars(real), out == "ok", len(env.ev))
		if len(c.Viols) > 0 {
			if len(c.Viols) > 0 && c.Viols[0].Sig == "" {
				break
			}
		}
	}
	c.onEnd = nil
	c.recheckErrs()
}

func (o qOut) String() string {
	switch {
	case o.exit:
		return fmt.Sprintf("end the process with status %d", o.code)
	case o.fail != nil:
		return fmt.Sprintf("fail with %q", o.fail.canon())
	}
	return "give " + qVal(o.val)
}

var qlWorld = regWorld(&World{Name: "ql", Gen: genQl, New: func() interface{} { return new(qlPlan) }, Run: qlRun, Limit: 40000000})
