package main

// Generator of script sessions.

import "fmt"

type qSig struct {
	name     string
	ps       int
	variadic bool
	rec      bool  // takes a small count
	hof      bool  // takes a function
	made     *qSig // returns a function
}

// qMk is a function that returns a function.
type qMk struct{ mk, made qSig }

type qScope struct {
	up     *qScope
	ints   []string // assigned here
	cached []string // of enclosing functions, read before
	fns    []qSig
	cls    []string
	objs   []string
	mks    []qMk
	strs   []string
	lists  []string
	maps   []string
	local  int
	depth  int
	inMain bool
}

type qGen struct {
	r      *R
	o      GenOpt
	id     int
	budget int
	fr     *qScope
	noRet  bool // inside a deferred expression, not in a function of its own
	noDef  bool
	meths  map[string][]qSig
	skip   string
	pre    func(*qScope) // what the next function starts with
}

func (g *qGen) next() int { g.id++; return g.id }

func vr(n string) *qN { return &qN{K: "var", V: n} }
func qi(n int) *qN    { return &qN{K: "int", N: n} }

func (g *qGen) readInt() *qN {
	r := g.r
	if r.P(1) {
		return vr(r.Str("undef1", "zz"))
	}
	var own, ext []string
	own = g.fr.ints
	seen := map[string]bool{}
	for t := g.fr.up; t != nil; t = t.up {
		for _, v := range t.ints {
			if !seen[v] {
				seen[v] = true
				ext = append(ext, v)
			}
		}
	}
	if len(own) > 0 && (len(ext) == 0 || r.P(60)) {
		return vr(own[r.N(len(own))])
	}
	if len(ext) > 0 {
		v := ext[r.N(len(ext))]
		g.cache(v)
		return vr(v)
	}
	return qi(r.N(10))
}

func (g *qGen) cache(v string) {
	for _, x := range g.fr.cached {
		if x == v {
			return
		}
	}
	g.fr.cached = append(g.fr.cached, v)
}

func (g *qGen) target() string {
	r := g.r
	f := g.fr
	if f.up == nil {
		v := r.Str("a", "b", "c", "d")
		if r.P(3) {
			v = "_p"
		}
		g.own(v)
		return v
	}
	switch k := r.N(100); {
	case k < 5:
		for t := f.up; t != nil; t = t.up {
			if len(t.ints) > 0 {
				return t.ints[r.N(len(t.ints))]
			}
		}
	case k < 45 && len(f.cached) > 0:
		return f.cached[r.N(len(f.cached))]
	case k < 75 && len(f.ints) > 0:
		return f.ints[r.N(len(f.ints))]
	}
	f.local++
	v := fmt.Sprintf("%s%d%d", r.Str("x", "y", "_z"), f.depth, f.local)
	if r.P(6) { // every function may have its own
		v = "_p"
	}
	g.own(v)
	return v
}

func (g *qGen) own(v string) {
	for _, x := range g.fr.ints {
		if x == v {
			return
		}
	}
	g.fr.ints = append(g.fr.ints, v)
}

// settable is a variable that ops and inc can work on.
func (g *qGen) settable() string {
	f := g.fr
	l := append(append([]string{}, f.ints...), f.cached...)
	if len(l) == 0 || g.r.P(2) {
		return g.r.Str("a", "undef2")
	}
	return l[g.r.N(len(l))]
}

func (g *qGen) visible() (fns []qSig, objs, cls []string) {
	for t := g.fr; t != nil; t = t.up {
		for _, f := range t.fns {
			if f.name != g.skip {
				fns = append(fns, f)
			}
		}
		objs = append(objs, t.objs...)
		cls = append(cls, t.cls...)
	}
	return
}

func (g *qGen) hcall(d int) *qN {
	n := &qN{K: "h", N: g.next()}
	if g.r.P(45) {
		n.As = append(n.As, g.expr(d+1))
		if g.r.P(25) {
			n.As = append(n.As, g.expr(d+1))
		}
	}
	return n
}

func (g *qGen) args(s qSig, d int) (as []*qN) {
	n := s.ps
	if s.variadic {
		n += g.r.N(3) - 1
		if n < s.ps-1 {
			n = s.ps - 1
		}
		if g.r.P(12) {
			n += g.r.In(2, 10)
		}
	}
	if g.r.P(2) {
		n = g.r.N(4)
	}
	for i := 0; i < n; i++ {
		if s.rec && i == 0 {
			as = append(as, qi(g.r.N(4)))
			continue
		}
		if s.hof && i == 0 {
			as = append(as, g.fnVal())
			continue
		}
		as = append(as, g.expr(d+1))
	}
	return
}

func (g *qGen) call(d int) *qN {
	fns, objs, _ := g.visible()
	r := g.r
	if len(objs) > 0 && r.P(35) {
		o := objs[r.N(len(objs))]
		ms := g.meths[o]
		if len(ms) > 0 {
			s := ms[r.N(len(ms))]
			return g.callMade(&qN{K: "mc", A: vr(o), V: s.name, As: g.args(s, d)}, s, d)
		}
	}
	if len(fns) > 0 && r.P(80) {
		s := fns[r.N(len(fns))]
		if r.P(12) && !s.rec { // arguments out of a list
			n := &qN{K: "call", A: vr(s.name), Ps: []string{"..."}}
			k := s.ps
			if !r.P(60) {
				k = r.N(s.ps + 1)
			}
			for i := 0; i < s.ps-k; i++ {
				n.As = append(n.As, g.expr(d+1))
			}
			l := &qN{K: "sl"}
			for i := 0; i < k; i++ {
				l.As = append(l.As, g.expr(d+1))
			}
			if r.P(15) {
				l = g.list(d + 1)
			}
			n.As = append(n.As, l)
			if r.P(20) {
				n.Ps = append(n.Ps, ",")
			}
			return n
		}
		return g.callMade(&qN{K: "call", A: vr(s.name), As: g.args(s, d)}, s, d)
	}
	if g.fr.depth < 3 && g.budget > 6 {
		f, s := g.fn("")
		return &qN{K: "call", A: f, As: g.args(s, d)}
	}
	return g.hcall(d)
}

// callMade calls the function that n returns, sometimes.
func (g *qGen) callMade(n *qN, s qSig, d int) *qN {
	if s.made != nil && g.r.P(60) {
		return &qN{K: "call", A: n, As: g.args(*s.made, d)}
	}
	return n
}

// maker is a call that returns a function.
func (g *qGen) maker() (*qN, *qSig) {
	r := g.r
	fns, objs, _ := g.visible()
	var ns []*qN
	var ss []qSig
	for _, s := range fns {
		if s.made != nil {
			ns, ss = append(ns, &qN{K: "call", A: vr(s.name)}), append(ss, s)
		}
	}
	for _, o := range objs {
		for _, s := range g.meths[o] {
			if s.made != nil {
				ns, ss = append(ns, &qN{K: "mc", A: vr(o), V: s.name}), append(ss, s)
			}
		}
	}
	if len(ns) == 0 {
		return nil, nil
	}
	i := r.N(len(ns))
	ns[i].As = g.args(ss[i], 1)
	return ns[i], ss[i].made
}

func (g *qGen) expr(d int) *qN {
	r := g.r
	g.budget--
	if d > 3 || g.budget < 0 {
		if r.P(50) {
			return qi(r.N(12))
		}
		return g.readInt()
	}
	switch r.W(16, 22, 14, 16, 10, 4, 4, 3, 2, 1, 14) {
	case 10:
		return g.exprV(d)
	case 0:
		n := qi(r.N(12))
		if r.P(12) {
			n.V = r.Str("x", "o", "x", "o", "big")
		}
		return n
	case 1:
		return g.readInt()
	case 2:
		return &qN{K: "bin", V: r.Str("+", "-", "*", "+", "-", "%", "*", "+", "-", "/"), A: g.expr(d + 1), B: g.expr(d + 1)}
	case 3:
		return g.hcall(d)
	case 4:
		return g.call(d)
	case 5:
		return &qN{K: r.Str("neg", "neg", "neg", "pos"), A: g.expr(d + 1)}
	case 6:
		return &qN{K: "paren", A: g.expr(d + 1)}
	case 7:
		return g.hc()
	case 8: // an if with values
		n := &qN{K: "if", As: []*qN{g.cond(d + 1), {K: "blk", As: []*qN{g.expr(d + 1)}}}}
		if r.P(75) {
			n.B = &qN{K: "blk", As: []*qN{g.expr(d + 1)}}
		}
		return n
	}
	return g.cond(d + 1) // of the wrong type
}

func (g *qGen) cond(d int) *qN {
	r := g.r
	g.budget--
	if d > 4 || g.budget < 0 {
		return vr(r.Str("true", "false"))
	}
	switch r.W(20, 50, 8, 8, 8, 1) {
	case 0:
		return vr(r.Str("true", "false"))
	case 1:
		return &qN{K: "bin", V: r.Str("<", ">", "<=", ">=", "==", "!="), A: g.expr(d + 1), B: g.expr(d + 1)}
	case 2:
		return &qN{K: "bin", V: "&&", A: g.cond(d + 1), B: g.cond(d + 1)}
	case 3:
		return &qN{K: "bin", V: "||", A: g.cond(d + 1), B: g.cond(d + 1)}
	case 4:
		return &qN{K: "not", A: g.cond(d + 1)}
	}
	return g.expr(d + 1)
}

func (g *qGen) hc() *qN {
	n := &qN{K: "hc", N: g.next()}
	if g.r.P(50) {
		n.V = "1"
	}
	n.A = g.fnVal()
	return n
}

// fnVal is a function without parameters.
func (g *qGen) fnVal() *qN {
	fns, _, _ := g.visible()
	for _, f := range fns {
		if f.ps == 0 && g.r.P(50) {
			return vr(f.name)
		}
	}
	if g.fr.depth < 3 {
		n, _ := g.fnN("", 0, false)
		return n
	}
	return qi(0)
}

// closure makes a function that returns a function, or uses one.
func (g *qGen) closure() *qN {
	r := g.r
	var mks []qMk
	for t := g.fr; t != nil; t = t.up {
		mks = append(mks, t.mks...)
	}
	name := func(pre string) string {
		if g.fr.up == nil {
			return pre + r.Str("1", "2")
		}
		g.fr.local++
		return fmt.Sprintf("%s%d%d", pre, g.fr.depth, g.fr.local)
	}
	if r.P(40) {
		if n, made := g.maker(); n != nil {
			s := *made
			s.name = name("e")
			g.define(s)
			return &qN{K: "set", V: s.name, A: n}
		}
	}
	if len(mks) > 0 && r.P(60) {
		m := mks[r.N(len(mks))]
		a := &qN{K: "call", A: vr(m.mk.name), As: g.args(m.mk, 1)}
		if r.P(25) { // used at once
			return &qN{K: "call", A: a, As: g.args(m.made, 1)}
		}
		s := m.made
		s.name = name("e")
		g.define(s)
		return &qN{K: "set", V: s.name, A: a}
	}
	if g.fr.depth > 1 || g.budget < 8 {
		return g.call(1)
	}
	var m qMk
	n := &qN{K: "fn", B: &qN{K: "blk"}}
	m.mk.ps = r.N(2)
	g.inFn(func() {
		for i := 0; i < m.mk.ps; i++ {
			p := fmt.Sprintf("p%d%d", g.fr.depth, i)
			n.Ps = append(n.Ps, p)
			g.fr.ints = append(g.fr.ints, p)
		}
		for k := r.In(0, 3); k > 0; k-- {
			n.B.As = append(n.B.As, g.stmt(1))
		}
		var f *qN
		f, m.made = g.fn("")
		n.B.As = append(n.B.As, &qN{K: "ret", A: f})
	})
	if r.P(25) {
		s := m.made
		s.name = name("e")
		a := &qN{K: "call", A: n, As: g.args(m.mk, 1)}
		g.define(s)
		return &qN{K: "set", V: s.name, A: a}
	}
	m.mk.name = name("mk")
	for i, x := range g.fr.mks {
		if x.mk.name == m.mk.name {
			g.fr.mks = append(g.fr.mks[:i:i], g.fr.mks[i+1:]...)
			break
		}
	}
	g.fr.mks = append(g.fr.mks, m)
	return &qN{K: "set", V: m.mk.name, A: n}
}

// bound keeps a method in a variable, or calls one of a class.
func (g *qGen) bound() *qN {
	r := g.r
	_, objs, cls := g.visible()
	if len(objs) == 0 {
		return g.object()
	}
	o := objs[r.N(len(objs))]
	if len(cls) > 0 && r.P(35) {
		c := cls[r.N(len(cls))]
		if ms := g.meths[c]; len(ms) > 0 {
			s := ms[r.N(len(ms))]
			return &qN{K: "call", A: &qN{K: "mg", A: vr(c), V: s.name}, As: append([]*qN{vr(o)}, g.args(s, 1)...)}
		}
	}
	ms := g.meths[o]
	if len(ms) == 0 {
		return g.object()
	}
	s := ms[r.N(len(ms))]
	n := &qN{K: "set", A: &qN{K: "mg", A: vr(o), V: s.name}}
	s.name = "b" + r.Str("1", "2")
	if g.fr.up != nil {
		g.fr.local++
		s.name = fmt.Sprintf("b%d%d", g.fr.depth, g.fr.local)
	}
	n.V = s.name
	g.define(s)
	if r.P(50) { // and calls it, keeping all results
		l := &qN{K: "sl"}
		for k := r.In(1, 3); k > 0; k-- {
			l.As = append(l.As, &qN{K: "call", A: vr(s.name), As: g.args(s, 1)})
		}
		return &qN{K: "if", As: []*qN{vr("true"), {K: "blk", As: []*qN{n, {K: "h", N: g.next(), As: []*qN{l}}}}}}
	}
	return n
}

func (g *qGen) fn(name string) (*qN, qSig) {
	np := g.r.W(45, 30, 20)
	if g.r.P(4) {
		np = g.r.In(3, 6)
	}
	return g.fnN(name, np, np > 0 && g.r.P(15))
}

// inFn runs f with the generator inside a new function.
func (g *qGen) inFn(f func()) {
	fr := &qScope{up: g.fr, depth: g.fr.depth + 1}
	noRet, noDef := g.noRet, g.noDef
	g.fr, g.noRet, g.noDef = fr, false, false
	f()
	g.fr, g.noRet, g.noDef = fr.up, noRet, noDef
}

func (g *qGen) fnN(name string, np int, variadic bool) (*qN, qSig) {
	r := g.r
	n := &qN{K: "fn"}
	if variadic {
		n.V = "..."
	}
	s := qSig{name: name, ps: np, variadic: variadic}
	s.hof = np > 0 && !(variadic && np == 1) && r.P(12)
	pre := g.pre
	g.pre = nil
	skip := g.skip
	if name != "" {
		g.skip = name
	}
	g.inFn(func() {
		if pre != nil {
			pre(g.fr)
		}
		for i := 0; i < np; i++ {
			p := fmt.Sprintf("p%d%d", g.fr.depth, i)
			n.Ps = append(n.Ps, p)
			if s.hof && i == 0 {
				g.fr.fns = append(g.fr.fns, qSig{name: p})
			} else if !variadic || i < np-1 {
				g.fr.ints = append(g.fr.ints, p)
			} else {
				g.fr.lists = append(g.fr.lists, p)
			}
		}
		b := &qN{K: "blk"}
		if name != "" && np > 0 && !variadic && !s.hof && r.P(18) {
			s.rec = true
			stop := &qN{K: "blk", As: []*qN{{K: "ret", A: g.expr(2)}}}
			b.As = append(b.As, &qN{K: "if", As: []*qN{{K: "bin", V: "<", A: vr(n.Ps[0]), B: qi(1)}, stop}})
		}
		if r.P(3) && !s.rec {
			n.B = &qN{K: "blk"}
			return
		}
		k := r.In(1, 4)
		for i := 0; i < k && (g.budget > 0 || i == 0); i++ {
			b.As = append(b.As, g.stmt(0))
		}
		if s.rec {
			as := []*qN{{K: "bin", V: "-", A: vr(n.Ps[0]), B: qi(1)}}
			for i := 1; i < np; i++ {
				as = append(as, g.expr(2))
			}
			c := &qN{K: "call", A: vr(name), As: as}
			if r.P(50) {
				b.As = append(b.As, &qN{K: "ret", A: c})
			} else {
				at := 1 + r.N(len(b.As))
				b.As = append(b.As[:at:at], append([]*qN{c}, b.As[at:]...)...)
			}
		}
		if !s.rec && !s.hof && g.fr.depth < 3 && g.budget > 4 && r.P(12) {
			f, made := g.fn("")
			s.made = &made
			b.As = append(b.As, &qN{K: "ret", A: f})
		} else if variadic && r.P(45) {
			b.As = append(b.As, &qN{K: "ret", A: vr(n.Ps[np-1])})
		} else if r.P(80) {
			b.As = append(b.As, &qN{K: "ret", A: g.expr(1)})
		}
		n.B = b
	})
	g.skip = skip
	return n, s
}

func (g *qGen) block(d int) *qN {
	b := &qN{K: "blk"}
	if g.r.P(5) {
		return b
	}
	k := g.r.W(0, 50, 35, 15)
	for i := 0; i < k && (g.budget > 0 || i == 0); i++ {
		b.As = append(b.As, g.stmt(d+1))
	}
	return b
}

func (g *qGen) deferred() *qN {
	r := g.r
	noRet := g.noRet
	g.noRet = true
	defer func() { g.noRet = noRet }()
	switch r.W(20, 45, 12, 6, 6, 4) {
	case 0:
		return g.hcall(1)
	case 1: // a function that may recover
		if g.fr.depth >= 4 {
			return g.hcall(1)
		}
		n := &qN{K: "fn", B: &qN{K: "blk"}}
		g.inFn(func() {
			k := r.In(0, 2)
			for i := 0; i < k; i++ {
				n.B.As = append(n.B.As, g.stmt(1))
			}
			if r.P(80) {
				x := &qN{K: "r", N: g.next()}
				at := r.N(len(n.B.As) + 1)
				n.B.As = append(n.B.As[:at:at], append([]*qN{x}, n.B.As[at:]...)...)
				if r.P(15) {
					n.B.As = append(n.B.As, &qN{K: "r", N: g.next()})
				}
			}
			if len(n.B.As) == 0 {
				n.B.As = append(n.B.As, g.hcall(1))
			}
		})
		return &qN{K: "call", A: n}
	case 2:
		return g.call(1)
	case 3:
		return g.hc()
	case 4:
		b := g.block(2)
		if g.fr.up != nil && r.P(40) { // changes what the function returns
			b.As = append(b.As, &qN{K: "ret"})
			if r.P(60) {
				b.As[len(b.As)-1].A = g.expr(2)
			}
		}
		return &qN{K: "if", As: []*qN{g.cond(2), b}}
	}
	return &qN{K: "r", N: g.next()}
}

func (g *qGen) stmt(d int) *qN {
	r := g.r
	g.budget--
	if d > 3 || g.budget < 0 {
		return g.hcall(3)
	}
	inFn := g.fr.up != nil
	ret, fnd, def, boom := 4, 8, 12, 3
	if !inFn || g.noRet {
		ret = 0
	}
	if g.fr.depth >= 3 {
		fnd = 0
	}
	if g.noDef {
		def = 0
	}
	switch g.o.Prop {
	case "P04":
		def, fnd, boom = 18, 10, 5
		if ret > 0 {
			ret = 8
		}
	}
	switch r.W(20, 15, 8, 10, 4, 6, fnd, 12, def, ret, boom, 8, 4, 6, 5, 14, 7, 5) {
	case 15:
		return g.stmtV()
	case 16:
		return g.closure()
	case 17:
		return g.bound()
	case 0:
		return g.hcall(1)
	case 1:
		a := g.expr(1)
		return &qN{K: "set", V: g.target(), A: a}
	case 2:
		switch r.N(3) {
		case 0:
			return &qN{K: "inc", V: g.settable()}
		case 1:
			return &qN{K: "dec", V: g.settable()}
		}
		return &qN{K: "ops", V: g.settable(), Ps: []string{r.Str("+", "-", "*", "%", "/")}, A: g.expr(1)}
	case 3:
		n := &qN{K: "if", As: []*qN{g.cond(1), g.block(d)}}
		for r.P(20) {
			n.As = append(n.As, g.cond(1), g.block(d))
		}
		if r.P(50) {
			n.B = g.block(d)
		}
		return n
	case 4:
		n := &qN{K: "sw"}
		if r.P(80) {
			n.A = g.expr(2)
		}
		k := r.N(4)
		if r.P(8) {
			k = r.In(4, 8)
		}
		for ; k > 0; k-- {
			if n.A == nil {
				n.As = append(n.As, g.cond(2), g.block(d))
			} else {
				n.As = append(n.As, g.expr(3), g.block(d))
			}
		}
		if r.P(50) {
			n.B = g.block(d)
		}
		return n
	case 5:
		return g.loop(d)
	case 6:
		if r.P(25) && len(g.fr.ints) > 0 { // a function value is called at once or kept locally
			return &qN{K: "call", A: g.fnLit(), As: nil}
		}
		name := ""
		if g.fr.up == nil {
			name = r.Str("f", "g", "k")
		} else {
			g.fr.local++
			name = fmt.Sprintf("f%d%d", g.fr.depth, g.fr.local)
		}
		f, s := g.fn(name)
		g.define(s)
		return &qN{K: "set", V: name, A: f}
	case 7:
		return g.call(1)
	case 8:
		return &qN{K: "defer", A: g.deferred()}
	case 9:
		if r.P(10) {
			return &qN{K: "ret"}
		}
		return &qN{K: "ret", A: g.expr(1)}
	case 10:
		if r.P(15) {
			return &qN{K: "boom", N: g.next(), V: "int"}
		}
		return &qN{K: "boom", N: g.next()}
	case 11:
		return g.object()
	case 12:
		n := &qN{K: "mset", A: &qN{K: "sl"}}
		k := r.In(2, 3)
		if r.P(5) {
			k = r.In(4, 7)
		}
		for i := 0; i < k; i++ {
			n.A.As = append(n.A.As, g.expr(2))
		}
		if r.P(5) {
			n.A.As = n.A.As[:k-1]
		}
		for i := 0; i < k; i++ {
			n.Ps = append(n.Ps, g.target())
		}
		if k == 3 && r.P(15) { // several results of the host
			n.A = &qN{K: "bi", V: "ht", As: []*qN{qi(g.next()), g.expr(2), g.expr(2)}}
		}
		return n
	case 13:
		return g.hc()
	}
	if r.P(10) {
		return &qN{K: "r", N: g.next()}
	}
	return g.expr(1)
}

func (g *qGen) fnLit() *qN {
	n, _ := g.fnN("", 0, false)
	return n
}

func (g *qGen) define(s qSig) {
	for i := range g.fr.fns {
		if g.fr.fns[i].name == s.name {
			g.fr.fns[i] = s
			return
		}
	}
	g.fr.fns = append(g.fr.fns, s)
}

func (g *qGen) loop(d int) *qN {
	r := g.r
	i := fmt.Sprintf("i%d", g.next())
	cmp := &qN{K: "bin", V: "<", A: vr(i), B: qi(r.N(4))}
	// defers in loops are fine, but keep their number small
	g.fr.ints = append(g.fr.ints, i)
	var n *qN
	body := func() *qN {
		b := g.block(d)
		g.fr.ints = without(g.fr.ints, i)
		return b
	}
	guard := func(b *qN) *qN { // nothing in the body may change the counter
		return b
	}
	switch r.W(70, 20, 10) {
	case 0:
		n = &qN{K: "for", As: []*qN{{K: "set", V: i, A: qi(0)}, cmp, {K: "inc", V: i}}}
		g.fr.ints = without(g.fr.ints, i)
		n.B = guard(body())
		if r.P(4) { // an illegal form
			n.As = n.As[:2]
			if r.P(50) {
				n.As = []*qN{n.As[0], cmp, {K: "inc", V: i}, {K: "inc", V: i}}
			}
		}
		return n
	case 1:
		g.fr.ints = without(g.fr.ints, i)
		n = &qN{K: "for", As: []*qN{cmp}, B: body()}
		n.B.As = append([]*qN{{K: "inc", V: i}}, n.B.As...)
		return &qN{K: "if", As: []*qN{{K: "bin", V: "==", A: qi(1), B: qi(1)}, {K: "blk", As: []*qN{{K: "set", V: i, A: qi(0)}, n}}}}
	}
	g.fr.ints = without(g.fr.ints, i)
	if g.fr.up == nil || g.noRet {
		return g.hcall(1)
	}
	n = &qN{K: "for", B: body()}
	stop := &qN{K: "if", As: []*qN{{K: "bin", V: ">", A: vr(i), B: qi(r.N(3))}, {K: "blk", As: []*qN{{K: "ret", A: vr(i)}}}}}
	n.B.As = append([]*qN{stop, {K: "inc", V: i}}, n.B.As...)
	return &qN{K: "if", As: []*qN{vr("true"), {K: "blk", As: []*qN{{K: "set", V: i, A: qi(0)}, n}}}}
}

func without(l []string, s string) (out []string) {
	for _, x := range l {
		if x != s {
			out = append(out, x)
		}
	}
	return
}

func (g *qGen) object() *qN {
	r := g.r
	_, objs, cls := g.visible()
	switch k := r.N(100); {
	case len(cls) == 0 || k < 20:
		if g.fr.depth > 1 {
			return g.hcall(1)
		}
		n := &qN{K: "class"}
		name := r.Str("C", "C", "D")
		if g.fr.up != nil {
			g.fr.local++
			name = fmt.Sprintf("C%d%d", g.fr.depth, g.fr.local)
		}
		var ms []qSig
		this, had := g.meths["this"]
		for _, m := range []string{"_init", "m", "w", "w"} {
			if !r.P(65) || m == "w" && len(ms) > 0 && ms[len(ms)-1].name == "w" && r.P(80) {
				continue
			}
			np := r.N(2)
			g.pre = func(fr *qScope) { fr.objs = append(fr.objs, "this") }
			g.meths["this"] = ms
			f, s := g.fnN("", np, np > 0 && r.P(30))
			s.name = m
			kind := "m"
			if f.V == "..." {
				kind = "mv"
			}
			if m == "_init" && r.P(20) { // what a constructor returns is of no interest
				_, objs, cls := g.visible()
				cls = without(cls, name)
				x := &qN{K: "ret", A: vr("this")}
				switch {
				case len(objs) > 0 && r.P(50):
					x.A = vr(objs[r.N(len(objs))])
				case len(cls) > 0 && r.P(70):
					x.A = &qN{K: "new", V: cls[r.N(len(cls))]}
				}
				if k := len(f.B.As); k > 0 && f.B.As[k-1].K == "ret" {
					f.B.As = f.B.As[:k-1]
				}
				f.B.As = append(f.B.As, x)
				s.made = nil
			}
			n.As = append(n.As, &qN{K: kind, V: m, Ps: f.Ps, B: f.B})
			ms = append(ms, s)
		}
		delete(g.meths, "this")
		if had {
			g.meths["this"] = this
		}
		g.meths[name] = ms
		g.fr.cls = append(without(g.fr.cls, name), name)
		return &qN{K: "set", V: name, A: n}
	case len(objs) == 0 || k < 55:
		c := cls[r.N(len(cls))]
		n := &qN{K: "new", V: c}
		for _, s := range g.meths[c] {
			if s.name == "_init" {
				n.As = g.args(s, 2)
			}
		}
		if len(n.As) == 0 && r.P(50) {
			n.Ps = []string{"()"}
		}
		name := "o"
		if g.fr.up != nil {
			g.fr.local++
			name = fmt.Sprintf("o%d%d", g.fr.depth, g.fr.local)
		} else {
			name = r.Str("o", "q")
		}
		var ms []qSig
		for _, s := range g.meths[c] {
			if s.name != "_init" {
				ms = append(ms, s)
			}
		}
		g.meths[name] = ms
		g.fr.objs = append(without(g.fr.objs, name), name)
		return &qN{K: "set", V: name, A: n}
	case k < 80:
		n := &qN{K: "sm", A: vr(objs[r.N(len(objs))]), V: r.Str("u", "v", "u", "v", "m")}
		switch {
		case g.fr.depth < 3 && g.budget > 4 && r.P(15): // a function outlives the one that made it
			f, s := g.fn("")
			s.name = n.V
			n.B = f
			g.meths[n.A.V] = append(g.meths[n.A.V][:len(g.meths[n.A.V]):len(g.meths[n.A.V])], s)
		case g.fr.depth < 3 && r.P(15):
			return g.leak(n)
		default:
			n.B = g.expr(2)
		}
		return n
	}
	return &qN{K: "mg", A: vr(objs[r.N(len(objs))]), V: r.Str("u", "v")}
}

// leak makes a function that gives an object n.A a function and then, most of
// the time, fails; after that the function is called.
func (g *qGen) leak(n *qN) *qN {
	r := g.r
	mk := func() *qN {
		f := &qN{K: "fn", B: &qN{K: "blk"}}
		g.inFn(func() {
			if r.P(30) {
				f.B.As = append(f.B.As, g.stmt(2))
			}
			x := &qN{K: "r", N: g.next()}
			if r.P(25) {
				x = &qN{K: "defer", A: x}
			}
			f.B.As = append(f.B.As, x)
			if r.P(30) {
				f.B.As = append(f.B.As, g.stmt(2))
			}
		})
		return f
	}
	out := &qN{K: "fn", B: &qN{K: "blk"}}
	g.inFn(func() {
		if r.P(20) {
			out.B.As = append(out.B.As, g.stmt(2))
		}
		n.B = mk()
		out.B.As = append(out.B.As, n)
		switch r.W(40, 25, 15, 10, 10) {
		case 0:
			out.B.As = append(out.B.As, &qN{K: "boom", N: g.next()})
		case 1:
			out.B.As = append(out.B.As, vr("undef2"))
		case 2:
			out.B.As = append(out.B.As, g.stmt(2))
		case 3:
			out.B.As = append(out.B.As, &qN{K: "defer", A: g.deferred()}, &qN{K: "boom", N: g.next()})
		}
	})
	use := &qN{K: "mc", A: n.A, V: n.V}
	g.meths[n.A.V] = append(g.meths[n.A.V][:len(g.meths[n.A.V]):len(g.meths[n.A.V])], qSig{name: n.V})
	hc := &qN{K: "hc", N: g.next(), V: "1", A: out}
	if r.P(10) {
		hc.V = "0"
	}
	b := &qN{K: "blk", As: []*qN{hc, use}}
	if r.P(30) {
		b.As = append([]*qN{{K: "defer", A: use}}, hc)
	}
	if r.P(20) {
		return hc // called later, perhaps
	}
	return &qN{K: "if", As: []*qN{vr("true"), b}}
}

// count says roughly how many host calls executing n makes.
func qHosts(n *qN) int {
	if n == nil {
		return 0
	}
	k := 0
	switch n.K {
	case "h", "r", "hc":
		k = 1
	case "call", "mc", "new":
		k = 2
	}
	k += qHosts(n.A) + qHosts(n.B)
	for _, a := range n.As {
		k += qHosts(a)
	}
	return k
}

// ending makes statements that end the process.
func (g *qGen) ending() *qN {
	r := g.r
	if r.P(45) {
		n := &qN{K: "main", B: &qN{K: "blk"}}
		g.inFn(func() {
			g.budget += 10
			k := r.In(0, 4)
			for i := 0; i < k; i++ {
				n.B.As = append(n.B.As, g.stmt(0))
			}
			if r.P(75) {
				n.B.As = append(n.B.As, g.retVal())
			}
			if r.P(20) {
				n.B.As = append(n.B.As, g.stmt(1))
			}
		})
		return g.wrap(n)
	}
	return g.wrap(g.retVal())
}

func (g *qGen) retVal() *qN {
	r := g.r
	switch r.W(15, 30, 40, 5, 5) {
	case 0:
		return &qN{K: "ret"}
	case 1:
		return &qN{K: "ret", A: qi(r.N(256))}
	case 2:
		return &qN{K: "ret", A: g.expr(1)}
	case 3:
		return &qN{K: "ret", A: vr("nil")}
	}
	return &qN{K: "ret", A: &qN{K: "sl", As: []*qN{qi(1)}}} // no status
}

// wrap nests a statement in control flow.
func (g *qGen) wrap(n *qN) *qN {
	r := g.r
	for r.P(40) {
		b := &qN{K: "blk", As: []*qN{n}}
		if r.P(30) {
			b.As = append([]*qN{g.hcall(2)}, b.As...)
		}
		if r.P(30) {
			b.As = append(b.As, g.hcall(2))
		}
		switch r.N(3) {
		case 0:
			n = &qN{K: "if", As: []*qN{g.cond(2), b}}
			if r.P(50) {
				n = &qN{K: "if", As: []*qN{vr("true"), b}}
			}
		case 1:
			n = &qN{K: "sw", A: qi(1), As: []*qN{g.expr(3), {K: "blk", As: []*qN{g.hcall(2)}}, qi(1), b}}
		case 2:
			i := fmt.Sprintf("i%d", g.next())
			n = &qN{K: "for", As: []*qN{{K: "set", V: i, A: qi(0)}, {K: "bin", V: "<", A: vr(i), B: qi(r.In(1, 3))}, {K: "inc", V: i}}, B: b}
		}
	}
	return n
}

func genQl(r *R, o GenOpt) interface{} {
	p := &qlPlan{Insert: r.P(35)}
	g := &qGen{r: r, o: o, fr: &qScope{}, meths: map[string][]qSig{}}
	n := r.In(2, 6)
	big := o.Big && r.P(20)
	if big {
		n = r.In(6, 20)
	}
	op := qlOp{B: &qN{K: "blk"}}
	for i, v := range []string{"a", "b", "c", "d"} {
		if i < 2 || r.P(60) {
			op.B.As = append(op.B.As, &qN{K: "set", V: v, A: qi(r.N(10))})
			g.own(v)
		}
	}
	for i, f := range []string{"f", "g", "k"} {
		if i == 0 || r.P(50) {
			g.budget = 25
			x, s := g.fn(f)
			op.B.As = append(op.B.As, &qN{K: "set", V: f, A: x})
			g.define(s)
		}
	}
	if r.P(40) {
		g.budget = 30
		op.B.As = append(op.B.As, g.object())
		if r.P(80) {
			op.B.As = append(op.B.As, g.object())
		}
	}
	op.Lay = r.N(50)
	p.Ops = append(p.Ops, op)
	for i := 1; i < n; i++ {
		op := qlOp{B: &qN{K: "blk"}}
		if r.P(70) {
			op.Lay = r.N(1000)
		}
		if r.P(20) {
			op.File = r.Str("a.ql", "dir/b.ql")
		}
		op.Semi = r.P(15)
		op.Keep = r.P(15)
		for r.P(6) {
			op.SetV = append(op.SetV, qSetV{r.Str("a", "b", "c", "d"), r.N(20)})
		}
		g.budget = r.In(10, 40)
		if o.Big {
			g.budget = r.In(10, 90)
		}
		end := o.Prop == "P06" && (i == n-1 || r.P(10))
		main := end && r.P(50)
		if main {
			g.noDef = true
		}
		k := r.In(1, 4)
		for j := 0; j < k; j++ {
			op.B.As = append(op.B.As, g.stmt(0))
		}
		if end {
			var x *qN
			for {
				x = g.ending()
				if isMain := hasMain(x); isMain == main || isMain && main {
					break
				}
			}
			op.B.As = append(op.B.As, x)
			if r.P(30) {
				op.B.As = append(op.B.As, g.stmt(1))
			}
		}
		g.noDef = false
		if r.P(45) || o.Prop == "P04" && r.P(40) {
			hosts := qHosts(op.B)
			op.Fault = genFault(r, hosts+2, "str", "err", "other")
		}
		if o.Prop == "P05" || o.Prop == "P13" {
			switch x := r.N(100); {
			case x < 15:
				op.Junk = r.Str("~", "~", "cut", "close")
				op.JS = r.N(6)
				op.JT = r.N(60)
				if r.P(25) {
					op.JT = 0
				}
			case x < 18:
				op.Junk = r.Str(`"abc`, "'")
				op.JS = r.N(6)
			case x < 20:
				op.Raw = r.Str("\n", ";", "}", "a +", "fn(", "if", "a b")
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func hasMain(n *qN) bool {
	if n == nil {
		return false
	}
	if n.K == "main" || hasMain(n.A) || hasMain(n.B) {
		return true
	}
	for _, a := range n.As {
		if hasMain(a) {
			return true
		}
	}
	return false
}
