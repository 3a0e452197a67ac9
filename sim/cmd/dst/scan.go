package main

// World "scan": one scanner used for text after text, against new scanners.

import (
	"fmt"
	"go/token"
	"strings"

	"github.com/qiniu/text/tpl"
)

type scOp struct {
	Text    string   `json:"text"`
	Mode    int      `json:"mode,omitempty"` // 1 comments, 2 semicolons
	Handler int      `json:"h,omitempty"`    // 0 none, 1 records, 2 panics at the At-th error
	At      int      `json:"at,omitempty"`
	Stop    int      `json:"stop,omitempty"` // abandon after so many tokens; 0: go on to the end
	Extra   int      `json:"extra,omitempty"`
	File    string   `json:"file,omitempty"`
	Same    bool     `json:"same,omitempty"` // scan the previous text again, with the same file
	Learn   []string `json:"learn,omitempty"`
	LearnAt int      `json:"learnat,omitempty"`
	BadSize bool     `json:"badsize,omitempty"` // first an Init that panics: the size is wrong
	Count   int      `json:"count,omitempty"`   // the caller changes ErrorCount before
	Resume  bool     `json:"resume,omitempty"`  // go on scanning after the handler panicked
	Match   bool     `json:"match,omitempty"`   // use the scanner through a Matcher
	Base    int      `json:"base,omitempty"`    // bytes of other files before this one in the file set
}

type scPlan struct {
	Auto bool   `json:"auto,omitempty"`
	Ops  []scOp `json:"ops"`
}

var scFrag = []string{
	"a", "abc", "x1", "kw", "if", "else", "_", "é", "日本", "12", "0", "07", "089", "0x1F", "0x", "1.5", ".5", "1e9", "1e+", "3i", "08.1", "1..2",
	`"s"`, `"a\n\x41"`, `"bad\q"`, `"open`, "'c'", "'", `'\''`, `'\z'`, "'ab'", "''", `'\400'`, `"\ud800"`, `'\u12`, `"\U0001F600\a\v"`, `'\U00110000'`, `"\u00e9\U0000"`, "`raw`", "`r\r\nw`", "`open",
	"+", "++", "+=", "-", "--", "*", "*=", "/", "/=", "%", "%=", "&", "&&", "&^", "&^=", "|", "||", "^", "<", "<=", "<<", "<<=", "<-", ">", ">>=", "=", "==", "!", "!=", ":", ":=", ",", ";", ".", "..", "...", "(", ")", "[", "]", "{", "}", "?", "~", "@", "$", "\\",
	"//c\n", "//c", "// r\r\n", "/*c*/", "/*\n*/", "/*\r\n*/", "/* open", "/**/", "#c\n", "# d", "//line f.go:10\n", "\n//line g.go:7\n", "\n//line x:y\n", "//line :3\n",
	"\n", "\n\n", "\r\n", " ", "  ", "\t", "\x00", "\xff", "\xef\xbb\xbf", "\xc3", "\u2028",
}

var scWords = []string{`"kw"`, `"if"`, `"else"`, `"abc"`, `"+"`, `"=="`, "IDENT", "SEMICOLON", `"a"`, `"é"`}

func genScan(r *R, o GenOpt) interface{} {
	p := &scPlan{Auto: r.P(50)}
	n := r.In(2, 6)
	if o.Big && r.P(30) {
		n = r.In(6, 20)
	}
	for i := 0; i < n; i++ {
		op := scOp{Mode: r.N(4), Handler: r.W(25, 40, 35), At: r.N(3), Extra: r.N(3)}
		if r.P(60) {
			op.Mode |= 2
		}
		if r.P(40) {
			op.Stop = 1 + r.N(12)
		}
		if i > 0 && r.P(15) {
			op.Same = true
		}
		var b strings.Builder
		k := r.N(14)
		if r.P(5) {
			k = 60
		}
		glue := r.P(40)
		if r.P(10) {
			b.WriteString("\xef\xbb\xbf")
		}
		for ; k > 0; k-- {
			b.WriteString(scFrag[r.N(len(scFrag))])
			if !glue || r.P(50) {
				b.WriteString(r.Str(" ", " ", "\n", ""))
			}
		}
		op.Text = b.String()
		op.File = r.Str("", "a.tpl", "dir/b.tpl", "/abs/c")
		for r.P(30) {
			op.Learn = append(op.Learn, scWords[r.N(len(scWords))])
		}
		op.LearnAt = r.N(4)
		op.BadSize = r.P(6)
		if r.P(8) {
			op.Count = r.In(1, 9)
		}
		op.Resume = r.P(30)
		op.Match = r.P(15)
		if r.P(40) {
			op.Base = r.In(1, 50)
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

type scPanic struct{}

// scUse uses a scanner as an operation says, and describes all that it delivers.
type scUse struct {
	op    *scOp
	out   []string
	src   []byte
	file  *token.File
	base  int
	panic bool
	toks  []tpl.Token
	lits  []string
}

func (u *scUse) rel(p token.Pos) int { return int(p) - u.base }

func (u *scUse) run(s tpl.Tokener, c *Ctx) {
	op := u.op
	u.base = u.file.Base()
	nerr := 0
	add := func(f string, a ...interface{}) { u.out = append(u.out, fmt.Sprintf(f, a...)) }
	h := tpl.ScanErrorHandler(func(pos token.Position, msg string) {
		add("error %s:%d:%d @%d %s", pos.Filename, pos.Line, pos.Column, pos.Offset, msg)
		nerr++
		if op.Handler == 2 && nerr == op.At+1 {
			u.panic = true
			panic(scPanic{})
		}
	})
	if op.Handler == 0 {
		h = nil
	}
	count := func() int {
		switch x := s.(type) {
		case *tpl.Scanner:
			return x.ErrorCount
		case *tpl.AutoKwScanner:
			return x.ErrorCount
		}
		return -1
	}
	try := func(f func()) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(scPanic); !ok {
					panic(e)
				}
				add("the handler panicked, %d errors counted", count())
			}
		}()
		f()
	}
	learn := func(n int) {
		if len(op.Learn) > 0 && op.LearnAt == n {
			if _, ok := s.(*tpl.AutoKwScanner); !ok {
				return
			}
			for _, w := range op.Learn {
				k := s.Ltot(w)
				add("learn %s %d %s", w, k, s.Ttol(k))
			}
		}
	}
	try(func() { s.Init(u.file, u.src, h, tpl.ScanMode(op.Mode)) })
	if u.panic { // it must be initialised again
		return
	}
	add("init %d", count())
	eof := 0
	for n := 0; ; n++ {
		learn(n)
		if op.Stop > 0 && n >= op.Stop {
			add("abandoned")
			break
		}
		var t tpl.Token
		was := u.panic
		try(func() {
			t = s.Scan()
			u.toks = append(u.toks, t)
			u.lits = append(u.lits, t.Literal)
			pos := u.file.Position(t.Pos)
			add("%d %q @%d %s:%d:%d line %d errors %d", t.Kind, t.Literal, u.rel(t.Pos), pos.Filename, pos.Line, pos.Column, u.file.Line(t.Pos), count())
		})
		if u.panic && !was {
			if !op.Resume {
				break
			}
			continue
		}
		if t.Kind == tpl.EOF {
			if eof++; eof > op.Extra {
				break
			}
		}
		if n > 3*len(u.src)+20 {
			add("does not come to an end")
			break
		}
	}
	src := s.Source()
	add("source %v %v lines %d", src.File == u.file, string(src.Src) == string(u.src), u.file.LineCount())
}

func (u *scUse) match(s tpl.Tokener) {
	m := &tpl.Matcher{Grammar: tpl.GrTrue, Scanner: s, ScanMode: tpl.ScanMode(u.op.Mode)}
	toks, err := m.Tokenize(u.src, u.op.File)
	for _, t := range toks {
		u.out = append(u.out, fmt.Sprintf("%d %q @%d", t.Kind, t.Literal, t.Pos))
	}
	e := "ok"
	if te, ok := err.(*tpl.TokenizeError); ok {
		e = fmt.Sprintf("%v %s", te.Pos, te.Msg)
	} else if err != nil {
		e = err.Error()
	}
	_, line := tpl.FileLine(toks, s)
	u.out = append(u.out, e, fmt.Sprint(line))
}

func scanRun(c *Ctx, pl interface{}) {
	p := pl.(*scPlan)
	mk := func() tpl.Tokener {
		if p.Auto {
			return new(tpl.AutoKwScanner)
		}
		return new(tpl.Scanner)
	}
	s := mk()
	var learned []string
	var prev, prevRef *scUse
	var uses []*scUse
	file := func(op *scOp, n int) *token.File {
		fset := token.NewFileSet()
		if op.Base > 0 {
			fset.AddFile("other", -1, op.Base)
		}
		return fset.AddFile(op.File, -1, n)
	}
	for oi := range p.Ops {
		op := &p.Ops[oi]
		if op.Mode < 0 || op.Mode > 3 {
			op.Mode &= 3
		}
		if op.Base < 0 {
			op.Base = 0
		}
		u := &scUse{op: op, src: []byte(op.Text)}
		ref := &scUse{op: op, src: []byte(op.Text)}
		if op.Same && prev != nil {
			u.src, u.file = prev.src, prev.file
			ref.src = prev.src
			op.File, op.Base = prev.op.File, prev.op.Base
			ref.op = op
			ref.file = prevRef.file // used by new scanners only, in the same way
		} else {
			u.file = file(op, len(u.src))
			ref.file = file(op, len(ref.src))
		}
		if op.BadSize && op.Stop >= 0 {
			_, pan := caught(func() error {
				s.Init(file(op, len(u.src)+1), u.src, nil, 0)
				return nil
			})
			if pan == nil {
				c.Viol("bad-size", "op %d: Init accepted a file of another size", oi)
			}
			c.Inc("fault_init_failed")
		}
		if op.Count > 0 {
			switch x := s.(type) {
			case *tpl.Scanner:
				x.ErrorCount = op.Count
			case *tpl.AutoKwScanner:
				x.ErrorCount = op.Count
			}
		}
		fresh := mk()
		if p.Auto && len(learned) > 0 {
			fresh.Init(file(&scOp{}, 0), nil, nil, 0)
			for _, w := range learned {
				fresh.Ltot(w)
			}
		}
		if op.Match {
			u.match(s)
			ref.match(fresh)
		} else {
			u.run(s, c)
			ref.run(fresh, c)
		}
		for i := 0; i < len(u.out) || i < len(ref.out); i++ {
			a, b := "nothing", "nothing"
			if i < len(u.out) {
				a = u.out[i]
			}
			if i < len(ref.out) {
				b = ref.out[i]
			}
			if a != b {
				c.Viol("differs-from-new", "op %d %q, step %d: the scanner gave [%s], a new one gives [%s]", oi, op.Text, i, a, b)
				return
			}
		}
		for _, o := range u.out {
			if strings.HasPrefix(o, "learn ") {
				learned = append(learned, strings.Fields(o)[1])
			}
		}
		if strings.HasSuffix(u.out[len(u.out)-1], "does not come to an end") {
			c.Viol("no-end", "op %d %q: no end of the text is delivered", oi, op.Text)
		}
		for _, o := range uses {
			for i, t := range o.toks {
				if t.Literal != o.lits[i] {
					c.Viol("token-changed", "op %d: the literal of an earlier token changed", oi)
				}
			}
		}
		if u.panic {
			c.Inc("fault_handler_panic")
			c.NonTriv = true
		}
		if op.Stop > 0 {
			c.Inc("fault_abandoned")
			c.NonTriv = true
		}
		for _, o := range u.out {
			if strings.HasPrefix(o, "error ") {
				c.Inc("fault_text_errors")
				c.NonTriv = true
				break
			}
		}
		c.Cnt["tokens"] += len(u.toks)
		c.Logf("%d %s", oi, strings.Join(u.out, "; "))
		if len(u.out) > 1 {
			c.State(u.out[len(u.out)-2:])
		}
		if !op.Match {
			prev, prevRef = u, ref
			uses = append(uses, u)
		}
	}
}

var scanWorld = regWorld(&World{Name: "scan", Gen: genScan, New: func() interface{} { return new(scPlan) }, Run: scanRun, Limit: 3000000, Texts: true})
