package main

// World "gram": random grammars with marks, evaluated again and again with
// failing callbacks and evaluations nested in callbacks, against a reference
// PEG matcher that predicts every callback.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	iu "github.com/qiniu/text/tpl/interpreter.util"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	minterp "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

// gN is a node of a grammar.
// K: tok (V), true, seq, or, star, plus, opt, list, list0, not, peek, ref (V), mark (V), cut
type gN struct {
	K  string `json:"k"`
	V  string `json:"v,omitempty"`
	A  *gN    `json:"a,omitempty"`
	B  *gN    `json:"b,omitempty"`
	As []*gN  `json:"as,omitempty"`
}

type gRule struct {
	Name string `json:"n"`
	E    *gN    `json:"e"`
}

type gEngine struct {
	Kind  string  `json:"kind"` // host, callfn, raw
	Rules []gRule `json:"rules"`
	Semis bool    `json:"semis,omitempty"` // semicolons are inserted at ends of lines
}

type gNest struct {
	At      int      `json:"at"`
	Eng     int      `json:"eng"`
	Host    int      `json:"host,omitempty"`
	Rule    string   `json:"rule"`
	Code    int      `json:"code"` // >=0: captured code; -1: text
	Toks    []string `json:"toks,omitempty"`
	Lay     int      `json:"lay,omitempty"`
	Swallow bool     `json:"swallow,omitempty"`
}

type gOp struct {
	Eng   int      `json:"eng"`
	Toks  []string `json:"toks"`
	Lay   int      `json:"lay,omitempty"`
	Bad   string   `json:"bad,omitempty"` // text of an untokenizable tail
	File  string   `json:"file,omitempty"`
	Mode  int      `json:"mode,omitempty"` // 0 exact, 1 prefix, 2 EvalSub text, 3 Tokenize+EvalSub tokens
	Rule  string   `json:"rule,omitempty"`
	Fault *Fault   `json:"f,omitempty"`
	Nest  []gNest  `json:"nest,omitempty"`
}

type gramPlan struct {
	Engs []gEngine `json:"engs"`
	Ops  []gOp     `json:"ops"`
}

// ---- text of a grammar

func (n *gN) text(b *strings.Builder) {
	if n == nil {
		b.WriteString("1")
		return
	}
	par := func(x *gN) {
		b.WriteString("(")
		x.text(b)
		b.WriteString(")")
	}
	switch n.K {
	case "tok", "ref":
		b.WriteString(n.V)
	case "seq":
		for i, x := range n.As {
			if i > 0 {
				b.WriteString(" ")
			}
			if x.K == "cut" {
				b.WriteString("!")
			} else {
				par(x)
			}
		}
	case "or":
		for i, x := range n.As {
			if i > 0 {
				b.WriteString(" | ")
			}
			par(x)
		}
	case "star", "plus", "opt", "not", "peek":
		b.WriteString(map[string]string{"star": "*", "plus": "+", "opt": "?", "not": "~", "peek": "@"}[n.K])
		par(n.A)
	case "list", "list0":
		par(n.A)
		b.WriteString(map[string]string{"list": " % ", "list0": " %= "}[n.K])
		par(n.B)
	case "mark":
		par(n.A)
		b.WriteString("/" + n.V)
	default:
		if n.V == "true" {
			b.WriteString("true")
		} else {
			b.WriteString("1")
		}
	}
}

func (e *gEngine) text() string {
	var b strings.Builder
	for _, r := range e.Rules {
		b.WriteString(r.Name + " = ")
		r.E.text(&b)
		b.WriteString(";\n")
	}
	return b.String()
}

func (n *gN) walk(f func(*gN)) {
	if n == nil {
		return
	}
	f(n)
	n.A.walk(f)
	n.B.walk(f)
	for _, x := range n.As {
		x.walk(f)
	}
}

func markIsLen(v string) bool {
	v = strings.TrimPrefix(v, "_")
	return v != "" && v[0] >= 'A' && v[0] <= 'Z'
}

// gInfo is what is known statically about a grammar.
type gInfo struct {
	rules  map[string]*gN
	null   map[string]bool
	vars   map[string]bool // referenced before defined
	kw     map[string]bool
	ok     bool
	hasDoc bool
}

func (e *gEngine) info() *gInfo { return e.analyse(false) }

// infoAnyMark is info for grammars whose marks are no item counts.
func (e *gEngine) infoAnyMark() *gInfo { return e.analyse(true) }

func (e *gEngine) analyse(anyMark bool) *gInfo {
	in := &gInfo{rules: map[string]*gN{}, null: map[string]bool{}, vars: map[string]bool{}, kw: map[string]bool{}}
	for _, r := range e.Rules {
		if r.E == nil || in.rules[r.Name] != nil || r.Name == "" {
			return in
		}
		in.rules[r.Name] = r.E
	}
	if in.rules["doc"] == nil {
		return in
	}
	bad := false
	seen := map[string]bool{}
	for _, r := range e.Rules {
		r.E.walk(func(n *gN) {
			switch n.K {
			case "ref":
				if in.rules[n.V] == nil || n.V == "doc" {
					bad = true
				}
				if !seen[n.V] {
					in.vars[n.V] = true
				}
			case "tok":
				if strings.HasPrefix(n.V, "\"") && n.V[1] >= 'a' && n.V[1] <= 'z' {
					in.kw[strings.Trim(n.V, "\"")] = true
				}
				if n.V == "" {
					bad = true
				}
			case "seq", "or":
				if len(n.As) == 0 {
					bad = true
				}
				real := false
				for _, x := range n.As {
					if x == nil || (x.K == "cut" && n.K == "or") {
						bad = true
					}
					real = real || (x != nil && x.K != "cut")
				}
				if !real {
					bad = true
				}
			case "mark":
				if n.A == nil || n.V == "" {
					bad = true
				} else if !anyMark && markIsLen(n.V) && !isRep(n.A) {
					bad = true
				}
				if n.A != nil && n.A.K == "cut" {
					bad = true
				}
			case "star", "plus", "opt", "not", "peek":
				if n.A == nil || n.A.K == "cut" {
					bad = true
				}
			case "list", "list0":
				if n.A == nil || n.B == nil || n.A.K == "cut" || n.B.K == "cut" {
					bad = true
				}
			case "cut", "true":
			default:
				bad = true
			}
		})
		if r.E.K == "cut" {
			bad = true
		}
		seen[r.Name] = true
	}
	if bad {
		return in
	}
	for ch := true; ch; {
		ch = false
		for _, r := range e.Rules {
			if !in.null[r.Name] && in.nullable(r.E) {
				in.null[r.Name] = true
				ch = true
			}
		}
	}
	for _, r := range e.Rules {
		r.E.walk(func(n *gN) {
			switch n.K {
			case "star", "plus":
				bad = bad || in.nullable(n.A)
			case "list", "list0":
				bad = bad || (in.nullable(n.A) && in.nullable(n.B))
			}
		})
	}
	// left recursion
	first := map[string]map[string]bool{}
	for _, r := range e.Rules {
		s := map[string]bool{}
		in.first(r.E, s)
		first[r.Name] = s
	}
	for ch := true; ch; {
		ch = false
		for a := range first {
			for b := range first[a] {
				for c := range first[b] {
					if !first[a][c] {
						first[a][c] = true
						ch = true
					}
				}
			}
		}
	}
	for a := range first {
		bad = bad || first[a][a]
	}
	in.ok = !bad
	return in
}

func isRep(n *gN) bool {
	for n != nil && n.K == "mark" {
		n = n.A
	}
	if n == nil {
		return false
	}
	switch n.K {
	case "star", "plus", "opt", "list", "list0":
		return true
	}
	return false
}

func (in *gInfo) nullable(n *gN) bool {
	switch n.K {
	case "tok":
		return n.V == "EOF"
	case "true", "star", "opt", "list0", "not", "peek", "cut":
		return true
	case "seq":
		for _, x := range n.As {
			if !in.nullable(x) {
				return false
			}
		}
		return true
	case "or":
		for _, x := range n.As {
			if in.nullable(x) {
				return true
			}
		}
		return false
	case "plus", "mark", "list":
		return in.nullable(n.A)
	case "ref":
		return in.null[n.V]
	}
	return false
}

func (in *gInfo) first(n *gN, s map[string]bool) {
	switch n.K {
	case "ref":
		s[n.V] = true
	case "seq":
		for _, x := range n.As {
			in.first(x, s)
			if !in.nullable(x) {
				return
			}
		}
	case "or":
		for _, x := range n.As {
			in.first(x, s)
		}
	case "star", "plus", "opt", "not", "peek", "mark":
		in.first(n.A, s)
	case "list", "list0":
		in.first(n.A, s)
		if in.nullable(n.A) {
			in.first(n.B, s)
		}
	}
}

// ---- text that is matched

type gText struct {
	id    int
	toks  []string
	src   string
	file  string
	lines []int // len(toks)+1
	offs  []int // len(toks)+1
	ends  []int
}

var gTextID int

// newGText lays out the tokens; "\n" is no token but a line feed.
func newGText(toks []string, lay int, file string) *gText {
	t := &gText{file: file}
	src, lines, offs := renderToks(toks, lay)
	t.src = src
	for i, x := range toks {
		if x != "\n" {
			t.add(x, offs[i], lines[i])
		}
	}
	t.end()
	return t
}

func (t *gText) add(x string, off, line int) {
	t.toks = append(t.toks, x)
	t.offs = append(t.offs, off)
	t.ends = append(t.ends, off+len(x))
	t.lines = append(t.lines, line)
}

func (t *gText) end() {
	// a line feed at the very end does not begin another line (as in go/token)
	t.lines = append(t.lines, 1+strings.Count(strings.TrimSuffix(t.src, "\n"), "\n"))
	t.offs = append(t.offs, len(t.src))
}

// upTo is the text of tokens.
func (t *gText) upTo(from, last int) string {
	if t.ends[last] > len(t.src) { // a semicolon inserted at the end
		return t.src[t.offs[from]:]
	}
	return t.src[t.offs[from]:t.ends[last]]
}

// semis adds the semicolons (written "\n") that are inserted at ends of lines.
func (t *gText) semis() {
	o := &gText{id: t.id, src: t.src, file: t.file}
	for i, x := range t.toks {
		o.add(x, t.offs[i], t.lines[i])
		gap := t.src[t.ends[i]:t.offs[i+1]]
		if i+1 == len(t.toks) { // the end of the text ends a line
			gap += "\n"
		}
		if p := semiAt(x, gap); p >= 0 {
			p += t.ends[i]
			o.add("\n", p, 1+strings.Count(t.src[:p], "\n"))
			if p == len(t.src) {
				o.lines[len(o.lines)-1] = t.lines[len(t.toks)]
			}
		}
	}
	o.end()
	*t = *o
}

// semiAt says where in the gap after a token a semicolon is inserted.
func semiAt(tok, gap string) int {
	switch tok {
	case ")", "]", "}", "++", "--":
	default:
		if tokKind(tok) == "op" {
			return -1
		}
	}
	// the gap ends with the text or before the next token
	first, p := -1, 0
	at := func(p int) int {
		if first >= 0 {
			return first
		}
		return p
	}
	for p < len(gap) {
		switch {
		case gap[p] == '\n':
			return at(p)
		case strings.HasPrefix(gap[p:], "//"), gap[p] == '#':
			return at(p)
		case strings.HasPrefix(gap[p:], "/*"):
			n := strings.Index(gap[p:], "*/")
			if strings.Contains(gap[p:p+n], "\n") {
				return at(p)
			}
			first = at(p)
			p += n + 2
		default:
			p++
		}
	}
	return -1
}

// tokKind classifies a token of the text.
func tokKind(s string) string {
	switch {
	case s == "":
		return "?"
	case s[0] == '"' || s[0] == '`':
		return "STRING"
	case s[0] == '\'':
		return "CHAR"
	case s[0] >= '0' && s[0] <= '9':
		if strings.HasPrefix(s, "0x") || !strings.ContainsAny(s, ".e") {
			return "INT"
		}
		return "FLOAT"
	case s[0] == '_' || s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' || s[0] >= 0x80:
		return "IDENT"
	}
	return "op"
}

func tokLiteral(s string) string {
	if tokKind(s) == "op" && s != ";" && s != "\n" {
		return ""
	}
	return s
}

func (in *gInfo) tokMatch(spec, tok string) bool {
	k := tokKind(tok)
	switch spec[0] {
	case '\'':
		return k == "op" && spec == "'"+tok+"'" || tok == "\n" && spec == "';'"
	case '"':
		return (k == "op" || k == "IDENT" && in.kw[tok]) && spec == "\""+tok+"\""
	}
	switch spec {
	case "IDENT":
		return k == "IDENT" && !in.kw[tok]
	case "FLOAT":
		return k == "FLOAT" || k == "INT"
	}
	return k == spec
}

// ---- events

type gEvent struct {
	eng, host int
	name      string
	arg       string
	hasSrc    bool
	src       string
	gap       string // what may follow src
	line      int
	span      int
}

func (e gEvent) String() string {
	s := fmt.Sprintf("e%dh%d %s(%s)", e.eng, e.host, e.name, e.arg)
	if e.hasSrc {
		s += fmt.Sprintf(" %q line %d span %d", e.src, e.line, e.span)
	}
	return s
}

func (want gEvent) same(got gEvent) bool {
	if want.eng != got.eng || want.host != got.host || want.name != got.name || want.arg != got.arg || want.hasSrc != got.hasSrc {
		return false
	}
	if !want.hasSrc {
		return true
	}
	if want.line != got.line || want.span != got.span || !strings.HasPrefix(got.src, want.src) {
		return false
	}
	return strings.HasPrefix(want.gap, got.src[len(want.src):])
}

// ---- model

// gOut is the outcome of an evaluation.
type gOut struct {
	kind  string // ok, mismatch, fail, cut, raw, notok, budget
	n     int
	f     *mFail
	file  string
	lo    int // line range
	hi    int
	text  string // the text up to there, if known
	noLoc bool
}

type gPanic struct{ o *gOut }

type gCap struct{ text, pos, n int }

type gState struct {
	in    *gInfo
	raw   bool
	meta  bool
	semis bool
	mute  int
	host  int
	stk   []string
	text  *gText
	caps  []gCap
	depth int
}

type gModel struct {
	plan  *gramPlan
	st    []*gState
	ev    []gEvent
	n     int
	f     *Fault
	nest  []gNest
	steps int
	texts int
	maxN  int // host calls, if not zero
	eAt   int // of the latest failure to match
	eTo   int
}

type gWin struct {
	t      *gText
	lo, hi int
}

const gBudget = 100000 // steps of the reference matcher in a whole run

// match returns, as k, how many tokens were matched, or in a failure how far
// the matching got (which decides what the text of a failure is about); then
// m.eAt and m.eTo are the beginning of the text and the token not matched.
func (m *gModel) match(s *gState, ei int, n *gN, w gWin, pos int) (k int, ok bool, cnt int) {
	m.steps++
	if m.steps > gBudget {
		panic(gPanic{&gOut{kind: "budget"}})
	}
	cnt = -1
	try := func(x *gN, p int) (int, bool) {
		k, ok, _ := m.match(s, ei, x, w, p)
		return k, ok
	}
	no := func() (int, bool, int) {
		m.eAt, m.eTo = pos, pos
		return 0, false, -1
	}
	switch n.K {
	case "tok":
		if n.V == "EOF" {
			if pos == w.hi {
				return 0, true, -1
			}
		} else if pos < w.hi && s.in.tokMatch(n.V, w.t.toks[pos]) {
			return 1, true, -1
		}
		return no()
	case "true":
		return 0, true, -1
	case "ref":
		k, ok = try(s.in.rules[n.V], pos)
		return k, ok, -1
	case "seq":
		cut := false
		p := pos
		single := len(n.As) == 1
		for _, x := range n.As {
			if x.K == "cut" {
				cut = true
				continue
			}
			k, ok, c := m.match(s, ei, x, w, p)
			if !ok {
				if cut {
					m.eAt, m.eTo = pos, p+k
					o := &gOut{kind: "cut"}
					m.where(o, w)
					panic(gPanic{o})
				}
				return p + k - pos, false, -1
			}
			if single {
				return k, true, c
			}
			p += k
		}
		return p - pos, true, -1
	case "or":
		best, tie, at, to := 0, true, 0, 0
		for _, x := range n.As {
			k, ok, c := m.match(s, ei, x, w, pos)
			if ok || len(n.As) == 1 {
				if len(n.As) > 1 {
					c = -1
				}
				return k, ok, c
			}
			if k > best {
				best, tie, at, to = k, false, m.eAt, m.eTo
			} else if k == best {
				tie = true
			}
		}
		if tie { // several got equally far
			at, to = pos, pos
		}
		m.eAt, m.eTo = at, to
		return best, false, -1
	case "star", "plus":
		p, c := pos, 0
		for {
			k, ok := try(n.A, p)
			if !ok {
				if c == 0 && n.K == "plus" {
					return k, false, 0
				}
				break
			}
			p += k
			c++
		}
		return p - pos, true, c
	case "opt":
		if k, ok := try(n.A, pos); ok {
			return k, true, 1
		}
		return 0, true, 0
	case "list", "list0":
		k, ok := try(n.A, pos)
		if !ok {
			if n.K == "list0" {
				return 0, true, 0
			}
			return k, false, 0
		}
		p, c := pos+k, 1
		for {
			k1, ok := try(n.B, p)
			if !ok {
				break
			}
			k2, ok := try(n.A, p+k1)
			if !ok {
				break
			}
			p += k1 + k2
			c++
		}
		return p - pos, true, c
	case "not":
		if _, ok = try(n.A, pos); ok {
			return no()
		}
		return 0, true, -1
	case "peek":
		if _, ok = try(n.A, pos); !ok {
			return no()
		}
		return 0, true, -1
	case "mark":
		if s.raw && n.V[0] == 'x' {
			m.ev = append(m.ev, gEvent{eng: ei, name: n.V, arg: "begin"})
			m.host(s, ei, "x", w, pos, 0)
			k, ok, cnt = m.match(s, ei, n.A, w, pos)
			at, to := m.eAt, m.eTo
			m.ev = append(m.ev, gEvent{eng: ei, name: n.V, arg: "end " + strconv.FormatBool(ok)})
			m.host(s, ei, "x", w, pos, 0)
			m.eAt, m.eTo = at, to
			return
		}
		k, ok, cnt = m.match(s, ei, n.A, w, pos)
		if ok {
			m.mark(s, ei, n.V, w, pos, k, cnt)
		}
		return
	}
	return 0, false, -1
}

// where notes what the text of a failure to match should be about.
func (m *gModel) where(o *gOut, w gWin) {
	if m.eAt >= w.hi {
		o.noLoc = true // the text was at its end already
		return
	}
	o.lo, o.hi = w.t.lines[m.eTo], w.t.lines[m.eTo]
	o.text = w.t.src[w.t.offs[m.eAt]:w.t.offs[m.eTo]]
	if m.eTo < w.hi {
		o.text = w.t.upTo(m.eAt, m.eTo)
	}
}

func (m *gModel) mark(s *gState, ei int, name string, w gWin, pos, k, cnt int) {
	if !s.raw {
		switch name {
		case "_mute":
			s.mute++
			return
		case "_unmute":
			s.mute--
			return
		}
		if s.mute > 0 && (name[0] != '_' || s.mute > 1) {
			return
		}
	}
	if s.meta {
		m.metaMark(s, ei, name, w, pos, k, cnt)
		return
	}
	e := gEvent{eng: ei, host: -1, name: name}
	if k > 0 {
		e.src = w.t.upTo(pos, pos+k-1)
		e.gap = w.t.src[w.t.offs[pos]+len(e.src) : w.t.offs[pos+k]]
		e.line = w.t.lines[pos]
		e.span = w.t.ends[pos+k-1] - w.t.offs[pos]
	}
	ty := markType(name)
	lit := ""
	if k > 0 {
		lit = tokLiteral(w.t.toks[pos])
	}
	fail := func(cause string) {
		m.fail(s, &mFail{cause: cause, tok: pos}, w, pos, k)
	}
	if s.raw {
		e.host = 0
		e.hasSrc = true
		e.span = 0
		if markIsLen(name) {
			e.arg = fmt.Sprint(cnt)
		}
		s.caps = append(s.caps, gCap{w.t.id, pos, k})
		m.ev = append(m.ev, e)
		m.host(s, ei, ty, w, pos, k)
		return
	}
	switch ty {
	case "s":
		if k == 0 {
			fail("")
		}
		e.arg = lit
	case "i":
		if k == 0 || lit == "" {
			fail("")
		}
		v, err := refInt(lit)
		if err != nil {
			fail("invalid function `" + name + "` argument")
		}
		e.arg = fmt.Sprint(v)
	case "f":
		if k == 0 || lit == "" {
			fail("")
		}
		v, err := refFloat(lit)
		if err != nil {
			fail("invalid function `" + name + "` argument")
		}
		e.arg = fmt.Sprint(v)
	case "r":
		if k == 0 {
			fail("")
		}
		e.arg = lit
		e.hasSrc = true
	case "c", "t":
		e.hasSrc = true
		s.caps = append(s.caps, gCap{w.t.id, pos, k})
		if ty == "t" {
			if !markLong(name) {
				e.span = 0
			}
			if k == 0 {
				e.arg = "nil"
			}
		}
	case "h":
		e.host = s.host
	case "g":
		e.host = s.host
		e.hasSrc = true
	case "L":
		e.arg = fmt.Sprint(cnt)
		if markHost(name) {
			e.host = s.host
		}
	case "d":
		if len(s.stk) < 2 {
			fail("stack damaged")
		}
		a, b := s.stk[len(s.stk)-2], s.stk[len(s.stk)-1]
		s.stk = s.stk[:len(s.stk)-2]
		e.arg = a + "," + b
	}
	if markLong(name) && strings.Contains("ifeL", ty) {
		e.hasSrc = true
	}
	m.ev = append(m.ev, e)
	m.host(s, ei, ty, w, pos, k)
	switch ty {
	case "s":
		s.stk = append(s.stk, lit)
	case "d":
		s.stk = append(s.stk, short(e.arg, 20))
	}
}

// host is the moment where a callback may fail or evaluate something.
func (m *gModel) host(s *gState, ei int, ty string, w gWin, pos, k int) {
	i := m.n
	m.n++
	if m.maxN > 0 && m.n > m.maxN {
		panic(gPanic{&gOut{kind: "budget"}})
	}
	if m.f != nil && m.f.At == i {
		f := &mFail{tok: pos}
		switch m.f.Kind {
		case "ret", "err":
			f.cause, f.inj = causeErr, true
		case "other":
			f.other = true
		default:
			f.cause = causeStr
		}
		m.fail(s, f, w, pos, k)
	}
	for _, ns := range m.nest {
		if ns.At != i {
			continue
		}
		o := m.nested(ns, s, ei)
		if o == nil {
			continue
		}
		m.ev = append(m.ev, gEvent{eng: ns.Eng, name: "nested", arg: o.kind})
		if o.kind != "ok" && !ns.Swallow {
			o2 := *o
			switch o.kind {
			case "mismatch":
				o2.kind = "cut"
			case "raw":
				if !s.raw { // the plain value gets wrapped here
					f := *o.f
					f.tok = pos
					m.fail(s, &f, w, pos, k)
				}
			}
			panic(gPanic{&o2})
		}
	}
}

func (m *gModel) fail(s *gState, f *mFail, w gWin, pos, k int) {
	o := &gOut{kind: "fail", f: f, file: w.t.file, lo: w.t.lines[pos], hi: w.t.lines[pos], noLoc: k == 0}
	if s.raw {
		o.kind = "raw"
	}
	if f.other {
		o.kind = "other"
	}
	panic(gPanic{o})
}

// resolve says what a nested evaluation works on.
func (m *gModel) nested(ns gNest, from *gState, fi int) *gOut {
	if ns.Eng < 0 || ns.Eng >= len(m.st) {
		return nil
	}
	s := m.st[ns.Eng]
	rule := nestRule(s.in, ns.Rule)
	var w gWin
	if ns.Code >= 0 {
		j := pickCap(s, ns.Code)
		if j < 0 {
			return nil
		}
		cp := s.caps[j]
		w = gWin{s.text, cp.pos, cp.pos + cp.n}
	} else {
		t := newGText(ns.Toks, ns.Lay, "")
		if s.semis {
			t.semis()
		}
		m.texts++
		t.id = m.texts
		w = gWin{t, 0, len(t.toks)}
	}
	oldText, oldMute, oldHost := s.text, s.mute, s.host
	s.text = w.t
	s.mute = 0
	s.host = ns.Host % 3
	s.depth++
	o := m.eval(s, ns.Eng, rule, w, true)
	s.depth--
	s.text, s.host = oldText, oldHost
	s.mute = oldMute
	if o.kind == "budget" {
		panic(gPanic{o})
	}
	return o
}

func pickCap(s *gState, code int) int {
	var ok []int
	for j, cp := range s.caps {
		if s.text != nil && cp.text == s.text.id {
			ok = append(ok, j)
		}
	}
	if len(ok) == 0 {
		return -1
	}
	return ok[code%len(ok)]
}

func nestRule(in *gInfo, name string) string {
	if in.rules[name] == nil || in.vars[name] {
		return "doc"
	}
	return name
}

func (m *gModel) eval(s *gState, ei int, rule string, w gWin, exact bool) (o *gOut) {
	defer func() {
		if e := recover(); e != nil {
			p, ok := e.(gPanic)
			if !ok {
				panic(e)
			}
			o = p.o
		}
	}()
	if s.raw {
		m.ev = append(m.ev, gEvent{eng: ei, name: "init"})
	}
	k, ok, _ := m.match(s, ei, s.in.rules[rule], w, w.lo)
	if ok && exact && w.lo+k != w.hi {
		ok = false
		m.eAt, m.eTo = w.lo+k, w.lo+k
	}
	if !ok {
		o = &gOut{kind: "mismatch"}
		m.where(o, w)
		return o
	}
	return &gOut{kind: "ok", n: k}
}

// ---- the real thing

type gStk struct {
	r *gEngR
	v []string
}

func (p *gStk) PopArgs(n int) ([]reflect.Value, bool) {
	if len(p.v) < n {
		return nil, false
	}
	var out []reflect.Value
	for _, x := range p.v[len(p.v)-n:] {
		out = append(out, reflect.ValueOf(x))
	}
	p.v = p.v[:len(p.v)-n]
	return out, true
}

func (p *gStk) PushRet(ret []reflect.Value) error {
	for _, r := range ret {
		p.v = append(p.v, r.Interface().(string))
	}
	return nil
}

type gHost struct {
	r  *gEngR
	id int
}

type gHostC struct{ gHost }

func (p *gHost) Grammar() string                  { return p.r.gtext }
func (p *gHost) Stack() iu.Stack                  { return p.r.stk }
func (p *gHost) Fntable() map[string]interface{}  { return p.r.tableOf((*gHost)(nil)) }
func (p *gHostC) Fntable() map[string]interface{} { return p.r.tableOf((*gHostC)(nil)) }
func (p *gHostC) CallFn(fn interface{}) {
	f := fn.(func(a, b string) string)
	s := p.r.stk
	if len(s.v) < 2 {
		panic("callfn: stack damaged")
	}
	a, b := s.v[len(s.v)-2], s.v[len(s.v)-1]
	s.v = s.v[:len(s.v)-2]
	s.v = append(s.v, f(a, b))
}

type gEngR struct {
	run   *gRun
	idx   int
	in    *gInfo
	raw   bool
	gtext string
	stk   *gStk
	hosts []iu.Interface
	eng   *interpreter.Engine
	meta  *minterp.Engine
	objs  []*qcl.Object
	ret   tpl.CompileRet
	caps  []gRealCap
	base  int
	texts []int // ids of the texts being matched, innermost last
	keep  bool  // one table of functions for all engines
	tab   map[string]interface{}
}

type gRealCap struct {
	text int
	toks []tpl.Token
}

type gRun struct {
	c     *Ctx
	plan  *gramPlan
	engs  []*gEngR
	ev    []gEvent
	nest  []gNest
	texts int
	hook  func(i int) // called in every callback
}

func markType(name string) string {
	n := strings.TrimPrefix(name, "_")
	if markIsLen(name) {
		return "L"
	}
	return n[:1]
}

// refInt and refFloat are the values of number literals.
func refInt(lit string) (int64, error) {
	switch {
	case lit == "0":
		return 0, nil
	case len(lit) > 1 && (lit[:2] == "0x" || lit[:2] == "0X"):
		return strconv.ParseInt(lit[2:], 16, 64)
	case lit[0] == '0':
		return strconv.ParseInt(lit[1:], 8, 64)
	}
	return strconv.ParseInt(lit, 10, 64)
}

func refFloat(lit string) (float64, error) {
	if lit[0] == '0' {
		if v, err := refInt(lit); err == nil || len(lit) > 1 && lit[1]|32 == 'x' {
			return float64(v), err
		}
	}
	return strconv.ParseFloat(lit, 64)
}

const gMarkN = 4

// markLong is whether the function of a mark has all the parameters it may
// have, and a result; markHost whether it is a method of the host.
func markLong(name string) bool { return (name[len(name)-1]-'0')&1 != 0 }
func markHost(name string) bool { return (name[len(name)-1]-'0')&2 != 0 }

func srcNil(src interface{}) string { // an empty match is nil
	if src == nil {
		return "nil"
	}
	return ""
}

func (r *gEngR) tableOf(recv interface{}) map[string]interface{} {
	if !r.keep {
		return r.table(recv)
	}
	if r.tab == nil {
		r.tab = r.table(recv)
	}
	return r.tab
}

func (r *gEngR) table(recv interface{}) map[string]interface{} {
	t := map[string]interface{}{}
	for _, pre := range []string{"", "_"} {
		for i := 0; i < gMarkN; i++ {
			sfx := strconv.Itoa(i)
			add := func(ty string, fn interface{}) { t["$"+pre+ty+sfx] = fn }
			nm := func(ty string) string { return pre + ty + sfx }
			add("n", func(s *gStk) { r.host("n", gEvent{name: nm("n"), host: -1}, false) })
			if markLong(sfx) {
				add("n", func(s *gStk) error { return r.host("n", gEvent{name: nm("n"), host: -1}, true) })
			}
			add("s", func(s *gStk, lit string) {
				r.host("s", gEvent{name: nm("s"), host: -1, arg: lit}, false)
				s.v = append(s.v, lit)
			})
			add("i", func(s *gStk, v int) { r.host("i", gEvent{name: nm("i"), host: -1, arg: fmt.Sprint(v)}, false) })
			add("f", func(s *gStk, v float64) {
				r.host("f", gEvent{name: nm("f"), host: -1, arg: fmt.Sprint(v)}, false)
			})
			add("r", func(s *gStk, lit string, ctx *iu.Context) error {
				return r.host("r", r.ctxEvent(nm("r"), lit, -1, ctx), true)
			})
			add("c", func(s *gStk, ctx *iu.Context) {
				e := r.ctxEvent(nm("c"), "", -1, ctx)
				r.capture(ctx.Src)
				r.host("c", e, false)
			})
			add("t", func(s *gStk, src interface{}) {
				e := gEvent{name: nm("t"), host: -1, arg: srcNil(src), hasSrc: true, src: string(r.eng.Source(src)), line: r.eng.FileLine(src).Line}
				r.capture(src)
				r.host("t", e, false)
			})
			add("e", func(s *gStk, eng iu.Engine) {
				a := ""
				if eng != iu.Engine(r.eng) {
					a = "another engine"
				}
				r.host("e", gEvent{name: nm("e"), host: -1, arg: a}, false)
			})
			add("Len", func(s *gStk, n int) { r.host("L", gEvent{name: nm("Len"), host: -1, arg: fmt.Sprint(n)}, false) })
			if markLong(sfx) { // one more parameter, and a result
				add("i", func(s *gStk, v int, ctx *iu.Context) error {
					return r.host("i", r.ctxEvent(nm("i"), fmt.Sprint(v), -1, ctx), true)
				})
				add("f", func(s *gStk, v float64, ctx *iu.Context) error {
					return r.host("f", r.ctxEvent(nm("f"), fmt.Sprint(v), -1, ctx), true)
				})
				add("c", func(s *gStk, ctx, ctx2 *iu.Context) error {
					e := r.ctxEvent(nm("c"), "", -1, ctx)
					if e2 := r.ctxEvent(nm("c"), "", -1, ctx2); e2 != e {
						e.arg = "two contexts: " + e2.String()
					}
					r.capture(ctx.Src)
					return r.host("c", e, true)
				})
				add("t", func(s *gStk, src interface{}, ctx *iu.Context) error {
					e := r.ctxEvent(nm("t"), srcNil(src), -1, ctx)
					r.capture(src)
					return r.host("t", e, true)
				})
				add("e", func(s *gStk, eng iu.Engine, ctx *iu.Context) error {
					a := ""
					if eng != iu.Engine(r.eng) {
						a = "another engine"
					}
					return r.host("e", r.ctxEvent(nm("e"), a, -1, ctx), true)
				})
				add("Len", func(s *gStk, n int, ctx *iu.Context) error {
					return r.host("L", r.ctxEvent(nm("Len"), fmt.Sprint(n), -1, ctx), true)
				})
			}
			if markHost(sfx) {
				add("i", func(s *gStk, v int64) { r.host("i", gEvent{name: nm("i"), host: -1, arg: fmt.Sprint(v)}, false) })
				if markLong(sfx) {
					add("i", func(s *gStk, v int64, ctx *iu.Context) error {
						return r.host("i", r.ctxEvent(nm("i"), fmt.Sprint(v), -1, ctx), true)
					})
				}
				if _, ok := recv.(*gHostC); ok {
					add("Len", func(h *gHostC, n int) { r.host("L", gEvent{name: nm("Len"), host: h.id, arg: fmt.Sprint(n)}, false) })
				} else {
					add("Len", func(h *gHost, n int) { r.host("L", gEvent{name: nm("Len"), host: h.id, arg: fmt.Sprint(n)}, false) })
				}
				if markLong(sfx) {
					if _, ok := recv.(*gHostC); ok {
						add("Len", func(h *gHostC, n int, ctx *iu.Context) error {
							return r.host("L", r.ctxEvent(nm("Len"), fmt.Sprint(n), h.id, ctx), true)
						})
					} else {
						add("Len", func(h *gHost, n int, ctx *iu.Context) error {
							return r.host("L", r.ctxEvent(nm("Len"), fmt.Sprint(n), h.id, ctx), true)
						})
					}
				}
			}
			add("d", func(a, b string) string {
				arg := a + "," + b
				r.host("d", gEvent{name: nm("d"), host: -1, arg: arg}, false)
				return short(arg, 20)
			})
			if _, ok := recv.(*gHostC); ok {
				add("h", func(h *gHostC) { r.host("h", gEvent{name: nm("h"), host: h.id}, false) })
				add("g", func(h *gHostC, ctx *iu.Context) {
					r.host("g", r.ctxEvent(nm("g"), "", h.id, ctx), false)
				})
			} else {
				add("h", func(h *gHost) { r.host("h", gEvent{name: nm("h"), host: h.id}, false) })
				add("g", func(h *gHost, ctx *iu.Context) {
					r.host("g", r.ctxEvent(nm("g"), "", h.id, ctx), false)
				})
			}
		}
	}
	return t
}

func (r *gEngR) ctxEvent(name, arg string, host int, ctx *iu.Context) gEvent {
	e := gEvent{name: name, arg: arg, host: host, hasSrc: true}
	e.src = string(ctx.Engine.Source(ctx.Src))
	e.line = ctx.Engine.FileLine(ctx.Src).Line
	e.span = int(ctx.End - ctx.Pos)
	return e
}

func (r *gEngR) capture(src interface{}) {
	t, _ := src.([]tpl.Token)
	id := -1
	if len(r.texts) > 0 {
		id = r.texts[len(r.texts)-1]
	}
	r.caps = append(r.caps, gRealCap{id, t})
}

// host is called by every callback.
func (r *gEngR) host(ty string, e gEvent, canRet bool) error {
	run := r.run
	e.eng = r.idx
	run.ev = append(run.ev, e)
	i := run.c.fc.n
	if err := run.c.hit(ty, canRet); err != nil {
		return err
	}
	if run.hook != nil {
		run.hook(i)
	}
	for _, ns := range run.nest {
		if ns.At == i {
			run.nested(ns)
		}
	}
	return nil
}

func (run *gRun) nested(ns gNest) {
	if ns.Eng < 0 || ns.Eng >= len(run.engs) {
		return
	}
	r := run.engs[ns.Eng]
	var src interface{}
	id := 0
	if ns.Code >= 0 {
		var ok []int
		for j, cp := range r.caps {
			if len(r.texts) > 0 && cp.text == r.texts[len(r.texts)-1] {
				ok = append(ok, j)
			}
		}
		if len(ok) == 0 {
			return
		}
		toks := r.caps[ok[ns.Code%len(ok)]].toks
		src = toks
		id = r.texts[len(r.texts)-1]
	} else {
		t := newGText(ns.Toks, ns.Lay, "")
		run.texts++
		id = run.texts
		src = t.src
		if ns.Lay%2 == 1 {
			src = []byte(t.src)
		}
	}
	rule := nestRule(r.in, ns.Rule)
	r.texts = append(r.texts, id)
	run.c.Inc("nested_evaluations")
	err, pan := caught(func() error {
		if r.raw {
			return r.ret.EvalSub(rule, src)
		}
		if r.meta != nil {
			return r.meta.EvalCode(r.objs[ns.Host%3], rule, src)
		}
		return r.eng.EvalCode(r.hosts[ns.Host%3], rule, src)
	})
	r.texts = r.texts[:len(r.texts)-1]
	kind := outKind(err, pan, r.raw)
	if r.meta != nil {
		kind = metaKind(err, pan)
	}
	run.ev = append(run.ev, gEvent{eng: ns.Eng, name: "nested", arg: kind})
	run.c.keepErr(err, pan)
	if kind != "ok" {
		run.c.Inc("nested_failures")
		if !ns.Swallow {
			if pan != nil {
				panic(pan)
			}
			panic(err)
		}
	}
}

func outKind(err error, pan interface{}, raw bool) string {
	if pan != nil {
		switch pan.(type) {
		case *tpl.MatchError:
			return "cut"
		case *interpreter.RuntimeError:
			return "fail"
		}
		if pan == interface{}(otherPanic) {
			return "other"
		}
		if raw {
			return "raw"
		}
		return fmt.Sprintf("panic %T", pan)
	}
	if err != nil {
		switch err.(type) {
		case *tpl.MatchError:
			return "mismatch"
		case *tpl.TokenizeError:
			return "notok"
		}
		return fmt.Sprintf("error %T %v", err, err)
	}
	return "ok"
}

func (run *gRun) newEngine(i int, spec gEngine, in *gInfo) (*gEngR, error) {
	r := &gEngR{run: run, idx: i, in: in, gtext: spec.text(), raw: spec.Kind == "raw"}
	r.stk = &gStk{r: r}
	if r.raw {
		cl := &tpl.Compiler{Grammar: []byte(r.gtext)}
		cl.Init = func() { run.ev = append(run.ev, gEvent{eng: i, name: "init"}) }
		cl.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
			if mark[0] == 'x' {
				return tpl.Transaction(g, func() interface{} {
					r.host("x", gEvent{name: mark, arg: "begin"}, false)
					return mark
				}, func(tr interface{}, err error) {
					r.host("x", gEvent{name: tr.(string), arg: "end " + strconv.FormatBool(err == nil)}, false)
				})
			}
			return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
				sc := r.ret.Scanner
				_, line := tpl.FileLine(toks, sc)
				e := gEvent{name: mark, hasSrc: true, src: string(tpl.Source(toks, sc)), line: line}
				if markIsLen(mark) {
					e.arg = fmt.Sprint(g.Len())
				}
				r.capture(toks)
				r.host(markType(mark), e, false)
			})
		}
		if spec.Semis {
			cl.ScanMode = tpl.InsertSemis
		}
		ret, err := cl.Cl()
		r.ret = ret
		return r, err
	}
	for k := 0; k < 3; k++ {
		if spec.Kind == "callfn" {
			r.hosts = append(r.hosts, &gHostC{gHost{r, k}})
		} else {
			r.hosts = append(r.hosts, &gHost{r, k})
		}
	}
	var err error
	var opt *interpreter.Options
	if spec.Semis {
		opt = interpreter.InsertSemis
	}
	r.eng, err = interpreter.New(r.hosts[0], opt)
	return r, err
}

func gramMarksOK(e *gEngine) bool {
	ok := true
	for _, r := range e.Rules {
		r.E.walk(func(n *gN) {
			if n.K != "mark" || n.V == "_mute" || n.V == "_unmute" {
				return
			}
			v := strings.TrimPrefix(n.V, "_")
			if len(v) < 2 || v[len(v)-1] < '0' || v[len(v)-1] >= '0'+gMarkN {
				ok = false
				return
			}
			switch v[:len(v)-1] {
			case "n", "s", "i", "f", "r", "c", "t", "e", "d", "h", "g", "Len":
			case "x":
				ok = ok && e.Kind == "raw"
			default:
				ok = false
			}
		})
	}
	return ok
}

func runGram(c *Ctx, pl interface{}) {
	p := pl.(*gramPlan)
	if len(p.Engs) == 0 {
		return
	}
	run := &gRun{c: c, plan: p}
	m := &gModel{plan: p}
	for i := range p.Engs {
		in := p.Engs[i].info()
		if !in.ok || !gramMarksOK(&p.Engs[i]) {
			return
		}
		r, err := run.newEngine(i, p.Engs[i], in)
		if err != nil {
			c.Viol("new-failed", "grammar %q: %v", p.Engs[i].text(), err)
			return
		}
		run.engs = append(run.engs, r)
		m.st = append(m.st, &gState{in: in, raw: r.raw, semis: p.Engs[i].Semis})
	}
	failedBefore := false
	for oi, op := range p.Ops {
		if op.Eng < 0 || op.Eng >= len(p.Engs) {
			continue
		}
		r, s := run.engs[op.Eng], m.st[op.Eng]
		file := op.File
		if op.Mode == 2 {
			file = ""
		}
		t := newGText(op.Toks, op.Lay, file)
		if s.semis {
			t.semis()
		}
		m.texts++
		t.id = m.texts
		rule := "doc"
		if op.Mode >= 2 {
			rule = nestRule(s.in, op.Rule)
		}
		what := fmt.Sprintf("op %d mode %d rule %s text %q grammar %q", oi, op.Mode, rule, t.src, r.gtext)

		// model first: it decides whether the plan is small enough
		m.ev, m.n, m.f, m.nest = nil, 0, op.Fault, op.Nest
		s.text, s.mute, s.host = t, 0, 0
		for _, x := range m.st {
			x.caps = nil
		}
		var o *gOut
		if op.Bad != "" {
			t.src += " " + op.Bad
			o = &gOut{kind: "notok"}
		} else {
			w := gWin{t, 0, len(t.toks)}
			o = m.eval(s, op.Eng, rule, w, op.Mode != 1)
		}
		if o.kind == "budget" {
			c.Inc("over_model_budget")
			return
		}
		if op.Mode != 1 && op.Mode != 0 {
			o.n = 0
		}

		// real
		run.ev, run.nest = nil, op.Nest
		for _, x := range run.engs {
			x.caps, x.texts = nil, nil
		}
		run.texts++
		r.texts = []int{run.texts}
		c.arm(op.Fault)
		left := -1
		var mt *tpl.Matcher
		var evalSub func(string, interface{}) error
		if r.raw {
			mt, evalSub = r.ret.Matcher, r.ret.EvalSub
		} else {
			mt, evalSub = r.eng.Matcher, r.eng.EvalSub
		}
		err, pan := caught(func() error {
			switch op.Mode {
			case 1:
				next, err := mt.Match([]byte(t.src), op.File)
				left = len(next)
				return err
			case 2:
				return evalSub(rule, t.src)
			case 3:
				toks, err := mt.Tokenize([]byte(t.src), op.File)
				if err != nil {
					return err
				}
				return evalSub(rule, toks)
			}
			return mt.MatchExactly([]byte(t.src), op.File)
		})
		fired := c.fc.fired
		c.disarm()
		got := outKind(err, pan, r.raw)
		c.Logf("%d e%d %s -> %s %d events", oi, op.Eng, short(t.src, 60), got, len(run.ev))
		for _, e := range run.ev {
			c.Log = append(c.Log, "  "+e.String())
		}
		if got != "ok" {
			c.Inc("outcome_" + got)
			if !fired {
				c.Inc("fault_text_" + got)
			}
		}
		c.Cnt["callbacks"] += len(run.ev)
		if failedBefore || fired {
			c.NonTriv = true
		}

		// callbacks
		if o.kind == "notok" { // whether Init comes before or after tokenizing is of no matter
			var ev []gEvent
			for _, e := range run.ev {
				if e.name != "init" {
					ev = append(ev, e)
				}
			}
			run.ev = ev
		}
		bad := false
		hasNest := len(op.Nest) > 0
		cl := "callbacks"
		if hasNest {
			for _, e := range m.ev {
				if e.name == "nested" {
					cl = "nested-disturbs"
					c.NonTriv = true
				}
			}
		}
		for i := 0; i < len(m.ev) || i < len(run.ev); i++ {
			switch {
			case i >= len(run.ev):
				c.Viol(cl, "%s: callback %d %v did not come (%s)", what, i, m.ev[i], failText(err, pan))
				bad = true
			case i >= len(m.ev):
				c.Viol(cl, "%s: unexpected callback %d %v (expected end: %s)", what, i, run.ev[i], o.kind)
				bad = true
			case !m.ev[i].same(run.ev[i]):
				c.Viol(cl, "%s: callback %d should be %v, is %v", what, i, m.ev[i], run.ev[i])
				bad = true
			}
			if bad {
				break
			}
		}
		// outcome
		c.keepErr(err, pan)
		wantKind := o.kind
		if !bad && wantKind != got {
			c.Viol(map[bool]string{true: "nested-disturbs", false: "outcome"}[hasNest], "%s: should end with %s, ended with %s: %s", what, o.kind, got, failText(err, pan))
			bad = true
		}
		if !bad {
			switch o.kind {
			case "fail", "raw":
				if o.kind == "raw" {
					checkRaw(c, what, o.f, pan)
				} else {
					checkFail(c, "cause-lost", what, o.f, err, pan)
				}
				if !o.noLoc && o.kind == "fail" {
					checkLoc(c, what, o, pan)
				}
			case "cut":
				if !o.noLoc {
					checkLoc(c, what, o, pan)
				}
			case "mismatch":
				if !o.noLoc {
					checkLoc(c, what, o, err)
				}
			case "ok":
				if op.Mode == 1 && left != len(t.toks)-o.n {
					c.Viol("outcome", "%s: %d tokens should be left, got %d", what, len(t.toks)-o.n, left)
				}
			}
		}
		// state
		if !r.raw {
			if r.eng.Interpreter != r.hosts[0] {
				c.Viol("nested-disturbs", "%s: the interpreter of the engine is not its own afterwards", what)
			}
			for i, x := range run.engs {
				if !bad && !x.raw && strings.Join(x.stk.v, "|") != strings.Join(m.st[i].stk, "|") {
					c.Viol("operands", "%s: stack of engine %d is %q, should be %q", what, i, x.stk.v, m.st[i].stk)
				}
			}
		}
		for _, e := range run.ev {
			c.State(e.name, e.arg == "", e.host)
		}
		c.State("out", got, o.kind, len(op.Nest), op.Mode, failedBefore)
		failedBefore = failedBefore || got != "ok"
		if len(c.Viols) > 0 {
			break
		}
	}
	c.recheckErrs()
}

// checkRaw: without the interpreter, a panic value must come through as it is.
func checkRaw(c *Ctx, what string, f *mFail, pan interface{}) {
	var want interface{} = causeStr
	if f.other {
		want = otherPanic
	} else if f.inj {
		want = errInjected
	} else if f.cause != causeStr {
		return
	}
	if pan != want {
		c.Viol("cause-lost", "%s: the callback panicked with %v, the caller gets %v", what, want, pan)
	}
}

func checkLoc(c *Ctx, what string, o *gOut, pan interface{}) {
	e, ok := pan.(error)
	if !ok {
		return
	}
	s := safeErr(e)
	c.Inc("locations_checked")
	if _, isRT := pan.(*interpreter.RuntimeError); isRT {
		want := fmt.Sprintf("line %d: ", o.lo)
		if o.file != "" {
			want = fmt.Sprintf("%s:%d: ", o.file, o.lo)
		}
		if !strings.HasPrefix(s, want) {
			c.Viol("wrong-location", "%s: the failure is at %q, reported %q", what, want, s)
		}
		return
	}
	var line int
	if _, err := fmt.Sscanf(s, "line %d:", &line); err != nil || line < o.lo || line > o.hi {
		c.Viol("wrong-location", "%s: the failure is in lines %d to %d, reported %q", what, o.lo, o.hi, s)
		return
	}
	if o.text != "" && !strings.Contains(s, "`"+o.text) {
		c.Viol("wrong-location", "%s: the failure is about %q, reported %q", what, o.text, s)
	}
}

// ---- generation

var gTokSpecs = []string{"IDENT", "INT", "FLOAT", "STRING", "CHAR", "'+'", "'-'", "'('", "')'", "','", "';'", "'{'", "'}'", "\"==\"", "\"<<=\"", "\"if\"", "\"do\"", "\"aa\"", "'='"}

func sampleTok(r *R, spec string) string {
	switch spec {
	case "IDENT":
		return r.Str("a", "foo", "x1", "_y", "if2", "if", "né", "aa", "k3", "k21")
	case "INT":
		return r.Str("0", "7", "42", "0x1F", "017", "00", "9223372036854775807", "99999999999999999999")
	case "FLOAT":
		return r.Str("2.5", "1e3", "7", "0.5", "09.5", "017", "0x1F")
	case "STRING":
		return r.Str("\"s\"", "\"a\\\"b\"", "\"\"", "`raw`", "`r\nw`")
	case "CHAR":
		return r.Str("'c'", "'\\n'")
	}
	return strings.Trim(spec, "'\"")
}

type gGen struct {
	r     *R
	rules []string
	self  int
	raw   bool
	marks int
	mute  bool
	lenm  bool
	cuts  int
	kws   int
	nest  bool
	meta  bool // marks of the meta world

	extr    bool // extraction marks
	tags    int
	tagKind map[string]string
}

func (g *gGen) tok() *gN {
	if g.kws > 0 && g.r.P(60) { // more keywords than a handful
		return &gN{K: "tok", V: fmt.Sprintf("\"k%d\"", g.r.N(g.kws))}
	}
	return &gN{K: "tok", V: gTokSpecs[g.r.N(len(gTokSpecs))]}
}

func (g *gGen) node(depth int) *gN {
	r := g.r
	if depth <= 0 || r.P(22) {
		n := g.tok()
		if r.P(4) {
			n = &gN{K: "true", V: r.Str("", "true")}
		} else if r.P(2) {
			n = &gN{K: "tok", V: "EOF"}
		} else if g.self+1 < len(g.rules) && r.P(35) {
			n = &gN{K: "ref", V: g.rules[g.self+1+r.N(len(g.rules)-g.self-1)]}
		} else if r.P(8) && g.self >= 0 && g.self > 0 { // guarded recursion
			n = &gN{K: "seq", As: []*gN{{K: "tok", V: "'('"}, {K: "ref", V: g.rules[1+r.N(g.self)]}, {K: "tok", V: "')'"}}}
		}
		return g.marked(n)
	}
	var n *gN
	switch r.W(34, 20, 8, 6, 7, 8, 6, 5, 6) {
	case 0:
		n = &gN{K: "seq"}
		k := r.In(2, 4)
		if r.P(2) || g.kws > 0 && r.P(15) { // wide
			k, depth = r.In(5, 20), 0
		}
		for i := 0; i < k; i++ {
			if i > 0 && g.cuts > 0 && r.P(15) {
				n.As = append(n.As, &gN{K: "cut"})
				g.cuts--
			}
			n.As = append(n.As, g.node(depth-1))
		}
		if g.mute && !g.raw && len(n.As) >= 2 && r.P(30) {
			n.As[0] = &gN{K: "mark", V: "_mute", A: n.As[0]}
			if r.P(85) {
				n.As[len(n.As)-1] = &gN{K: "mark", V: "_unmute", A: n.As[len(n.As)-1]}
			}
			for i := range n.As {
				if n.As[i].K == "cut" { // a cut is no factor
					continue
				}
			}
		}
	case 1:
		n = &gN{K: "or"}
		k := r.In(2, 4)
		if r.P(3) || g.kws > 0 && r.P(40) { // wide
			k, depth = r.In(5, 24), 0
		}
		for i := 0; i < k; i++ {
			n.As = append(n.As, g.node(depth-1))
		}
		if r.P(40) && len(n.As) > 1 { // alternatives with a common beginning: callbacks before a failure
			x := n.As[0]
			n.As[1] = &gN{K: "seq", As: []*gN{clone(x), g.tok()}}
			n.As[0], n.As[1] = n.As[1], n.As[0]
		}
	case 2:
		n = &gN{K: "star", A: g.solid(depth - 1)}
	case 3:
		n = &gN{K: "plus", A: g.solid(depth - 1)}
	case 4:
		n = &gN{K: "opt", A: g.node(depth - 1)}
	case 5:
		n = &gN{K: "list", A: g.node(depth - 1), B: &gN{K: "tok", V: r.Str("','", "';'", "'+'")}}
	case 6:
		n = &gN{K: "list0", A: g.node(depth - 1), B: &gN{K: "tok", V: r.Str("','", "';'", "'+'")}}
	case 7:
		n = &gN{K: "not", A: g.node(depth - 1)}
	case 8:
		n = &gN{K: "peek", A: g.node(depth - 1)}
	}
	return g.marked(n)
}

// solid is a node that consumes something.
func (g *gGen) solid(depth int) *gN {
	n := g.node(depth)
	in := &gInfo{null: map[string]bool{}}
	null := in.nullable(n)
	n.walk(func(x *gN) {
		if x.K == "ref" {
			null = true // not known yet
		}
	})
	if null {
		return &gN{K: "seq", As: []*gN{g.marked(g.tok()), n}}
	}
	return n
}

func (g *gGen) marked(n *gN) *gN {
	if g.extr {
		return g.exMark(n)
	}
	r := g.r
	if n.K == "cut" || !r.P(g.marks) {
		return n
	}
	pre := ""
	if g.mute && !g.raw && r.P(25) {
		pre = "_"
	}
	if g.meta {
		out := &gN{K: "mark", V: pre + metaPick(r, n), A: n}
		if r.P(12) {
			return g.marked(out)
		}
		return out
	}
	sfx := strconv.Itoa(r.N(gMarkN))
	var ty string
	leaf := n.K == "tok" && n.V != "EOF"
	switch {
	case isRep(n) && r.P(65):
		ty = "Len"
	case g.raw:
		ty = r.Str("n", "n", "x", "c")
	case leaf && (n.V == "INT") && r.P(50):
		ty = r.Str("i", "f", "s", "r")
	case leaf && (n.V == "FLOAT") && r.P(50):
		ty = r.Str("f", "s", "r")
	case leaf:
		ty = r.Str("s", "s", "s", "r", "c", "h", "t", "n", "g")
	default:
		ty = r.Str("n", "c", "t", "e", "h", "d", "g", "c", "t")
	}
	out := &gN{K: "mark", V: pre + ty + sfx, A: n}
	if r.P(12) {
		return g.marked(out)
	}
	return out
}

func clone(n *gN) *gN {
	if n == nil {
		return nil
	}
	m := &gN{K: n.K, V: n.V, A: clone(n.A), B: clone(n.B)}
	for _, x := range n.As {
		m.As = append(m.As, clone(x))
	}
	return m
}

func genGEngine(r *R, o GenOpt, nest bool) gEngine {
	for try := 0; ; try++ {
		e := gEngine{Kind: r.Str("host", "host", "callfn", "raw")}
		if nest {
			e.Kind = r.Str("host", "host", "host", "callfn", "raw")
		}
		nr := r.In(1, 4)
		names := []string{"doc"}
		for i := 1; i < nr; i++ {
			names = append(names, []string{"", "aa", "bb", "cc"}[i])
		}
		g := &gGen{r: r, rules: names, raw: e.Kind == "raw", marks: r.In(20, 70), mute: r.P(45), cuts: r.N(3), nest: nest}
		if r.P(40) {
			g.cuts = 0
		}
		if r.P(4) {
			g.kws = r.In(5, 40)
		}
		for i, nm := range names {
			g.self = i
			e.Rules = append(e.Rules, gRule{nm, g.node(r.In(2, 4))})
		}
		if r.P(50) { // definition order decides between variables and named grammars
			for i := range e.Rules {
				j := r.N(i + 1)
				e.Rules[i], e.Rules[j] = e.Rules[j], e.Rules[i]
			}
		}
		if in := e.info(); in.ok && gramMarksOK(&e) {
			if try > 40 || !in.nullable(in.rules["doc"]) || r.P(20) {
				return e
			}
		}
		if try > 200 {
			return gEngine{Kind: "host", Rules: []gRule{{"doc", &gN{K: "mark", V: "s0", A: &gN{K: "tok", V: "INT"}}}}}
		}
	}
}

// derive makes a token list that the node probably matches.
func derive(r *R, in *gInfo, n *gN, out *[]string, fuel *int) {
	*fuel--
	if *fuel < 0 || n == nil {
		return
	}
	switch n.K {
	case "tok":
		if n.V != "EOF" {
			*out = append(*out, sampleTok(r, n.V))
		}
	case "seq":
		for _, x := range n.As {
			derive(r, in, x, out, fuel)
		}
	case "or":
		derive(r, in, n.As[r.N(len(n.As))], out, fuel)
	case "star", "plus":
		k := r.N(4)
		if *fuel > 600 {
			k = r.N(40)
		}
		if n.K == "plus" {
			k++
		}
		for i := 0; i < k; i++ {
			derive(r, in, n.A, out, fuel)
		}
	case "opt":
		if r.P(60) {
			derive(r, in, n.A, out, fuel)
		}
	case "list", "list0":
		k := r.N(4)
		if *fuel > 600 {
			k = r.N(40)
		}
		if n.K == "list" || r.P(70) {
			k++
		}
		for i := 0; i < k; i++ {
			if i > 0 {
				derive(r, in, n.B, out, fuel)
			}
			derive(r, in, n.A, out, fuel)
		}
	case "mark":
		derive(r, in, n.A, out, fuel)
	case "ref":
		derive(r, in, in.rules[n.V], out, fuel)
	}
}

func genToks(r *R, in *gInfo, rule string, corrupt int) []string {
	toks := []string{}
	fuel, most := 120, 40
	if r.P(3) {
		fuel, most = 1500, 400
	}
	derive(r, in, in.rules[rule], &toks, &fuel)
	if len(toks) > most {
		toks = toks[:most]
	}
	for r.P(corrupt) {
		switch k := r.N(len(toks) + 1); r.N(3) {
		case 0:
			toks = toks[:k]
		case 1:
			x := sampleTok(r, gTokSpecs[r.N(len(gTokSpecs))])
			toks = append(toks[:k:k], append([]string{x}, toks[k:]...)...)
		case 2:
			if k < len(toks) {
				toks = append(toks[:k:k], toks[k+1:]...)
			}
		}
	}
	// `//` and other accidents are avoided by the separators
	return toks
}

// withSemis makes the grammar one where semicolons matter.
func (e *gEngine) withSemis(r *R) {
	old := clone(e.Rules[0].E)
	e.Semis = true
	semi := func() *gN { return &gN{K: "tok", V: "';'"} }
	for i := range e.Rules {
		e.Rules[i].E.walk(func(n *gN) {
			if (n.K == "list" || n.K == "list0") && r.P(50) {
				n.B = semi()
			} else if n.K == "tok" && n.V != "EOF" && r.P(6) {
				n.V = "';'"
			}
		})
		if e.Rules[i].Name == "doc" && r.P(60) {
			end := semi()
			if r.P(50) {
				end = &gN{K: "opt", A: end}
			}
			if e.Kind != "raw" && r.P(40) {
				end = &gN{K: "mark", V: r.Str("c", "s", "t", "h", "n") + "0", A: end}
				if end.A.K == "opt" {
					end.V = "c0"
				}
			}
			e.Rules[i].E = &gN{K: "seq", As: []*gN{e.Rules[i].E, end}}
		}
	}
	if in := e.info(); !in.ok || !gramMarksOK(e) {
		e.Rules[0].E, e.Semis = old, false
		if in := e.info(); !in.ok || !gramMarksOK(e) {
			*e = gEngine{Kind: "host", Rules: []gRule{{"doc", &gN{K: "mark", V: "s0", A: &gN{K: "tok", V: "INT"}}}}}
		}
	}
}

// lineEnds leaves some semicolons to the ends of lines.
func lineEnds(r *R, toks []string) []string {
	var out []string
	for i, x := range toks {
		if x == ";" && r.P(60) {
			x = "\n"
			if i+1 == len(toks) && r.P(50) {
				break
			}
		}
		out = append(out, x)
	}
	return out
}

func genGram(r *R, o GenOpt) interface{} {
	p := &gramPlan{}
	nest := o.Prop == "P12" || o.Prop == "P13" && r.P(40)
	ne := 1
	if nest && r.P(30) {
		ne = 2
	}
	var ins []*gInfo
	for i := 0; i < ne; i++ {
		e := genGEngine(r, o, nest)
		if r.P(25) {
			e.withSemis(r)
		}
		p.Engs = append(p.Engs, e)
		ins = append(ins, e.info())
	}
	faulty := r.N(4)
	corrupt := []int{5, 25, 50}[r.N(3)]
	nops := r.In(2, 8)
	if o.Big {
		nops = r.In(2, 20)
	}
	lay := r.P(60)
	for i := 0; i < nops; i++ {
		op := gOp{Eng: r.N(ne)}
		in := ins[op.Eng]
		if r.P(25) {
			op.Mode = r.In(1, 3)
		}
		rule := "doc"
		if op.Mode >= 2 {
			rule = p.Engs[op.Eng].Rules[r.N(len(p.Engs[op.Eng].Rules))].Name
			op.Rule = rule
			rule = nestRule(in, rule)
		}
		op.Toks = genToks(r, in, rule, corrupt)
		if p.Engs[op.Eng].Semis {
			op.Toks = lineEnds(r, op.Toks)
		}
		if lay {
			op.Lay = r.In(1, 1000)
		}
		if r.P(40) {
			op.File = r.Str("f.txt", "d/g.q")
		}
		if r.P(4) {
			op.Bad = r.Str("\"unterminated", "#\x01\n\x01", "'", "`open", "/* open", "$")
		}
		if r.P([]int{0, 15, 45, 75}[faulty]) {
			op.Fault = genFault(r, []int{4, 12, 30}[r.N(3)])
		}
		if nest && r.P(75) {
			k := r.In(1, 3)
			for j := 0; j < k; j++ {
				ns := gNest{At: r.N([]int{3, 8, 20}[r.N(3)]), Eng: r.N(ne), Host: r.N(3), Swallow: r.P(75)}
				rules := p.Engs[ns.Eng].Rules
				ns.Rule = rules[r.N(len(rules))].Name
				if r.P(45) {
					ns.Code = r.N(8)
				} else {
					ns.Code = -1
					ns.Toks = genToks(r, ins[ns.Eng], nestRule(ins[ns.Eng], ns.Rule), corrupt)
					ns.Lay = r.In(0, 1000)
					if p.Engs[ns.Eng].Semis {
						ns.Toks = lineEnds(r, ns.Toks)
					}
				}
				op.Nest = append(op.Nest, ns)
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

var gramWorld = regWorld(&World{Name: "gram", Gen: genGram, New: func() interface{} { return new(gramPlan) }, Run: runGram, Limit: 40000000})
