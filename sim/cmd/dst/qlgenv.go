package main

// Generator of lists, maps, strings and uses of host objects.

import "fmt"

// pool is a variable of a kind, or "".
func (g *qGen) pool(get func(*qScope) []string) string {
	var l []string
	for t := g.fr; t != nil; t = t.up {
		l = append(l, get(t)...)
	}
	if len(l) == 0 {
		return ""
	}
	return l[g.r.N(len(l))]
}

// fresh is a variable of a kind to assign to.
func (g *qGen) fresh(own *[]string, names ...string) string {
	r := g.r
	if len(*own) > 0 && r.P(50) {
		return (*own)[r.N(len(*own))]
	}
	v := r.Str(names...)
	if g.fr.up != nil {
		g.fr.local++
		v = fmt.Sprintf("%s%d%d", v, g.fr.depth, g.fr.local)
	}
	*own = append(without(*own, v), v)
	return v
}

func isStrs(s *qScope) []string  { return s.strs }
func isLists(s *qScope) []string { return s.lists }
func isMaps(s *qScope) []string  { return s.maps }

func (g *qGen) str(d int) *qN {
	r := g.r
	g.budget--
	lit := func() *qN { return &qN{K: "str", V: r.Str("", "a", "bc", "x", "y", "hello", "\t\"q", "é")} }
	if d > 3 || g.budget < 0 {
		return lit()
	}
	switch r.W(40, 30, 15, 6, 9) {
	case 1:
		if v := g.pool(isStrs); v != "" {
			return vr(v)
		}
	case 2:
		return &qN{K: "bin", V: "+", A: g.str(d + 1), B: g.str(d + 1)}
	case 3:
		return g.sub(g.str(d+1), d)
	case 4:
		return &qN{K: "h", N: g.next(), As: []*qN{g.str(d + 1)}}
	}
	return lit()
}

func (g *qGen) sub(a *qN, d int) *qN {
	r := g.r
	n := &qN{K: "sub", A: a}
	if r.P(60) {
		n.Ps, n.As = append(n.Ps, "i"), append(n.As, g.small(d))
	}
	if r.P(40) {
		n.Ps, n.As = append(n.Ps, "j"), append(n.As, g.small(d))
	}
	return n
}

func (g *qGen) small(d int) *qN {
	if g.r.P(12) {
		return g.expr(d + 2)
	}
	if g.r.P(6) {
		return qi(9)
	}
	return qi(g.r.N(3))
}

func (g *qGen) list(d int) *qN {
	r := g.r
	g.budget--
	if d > 3 || g.budget < 0 {
		return &qN{K: "sl", As: []*qN{qi(r.N(9)), qi(r.N(9))}}
	}
	switch r.W(35, 35, 8, 10, 6, 5) {
	case 1:
		if v := g.pool(isLists); v != "" {
			return vr(v)
		}
	case 2:
		return g.sub(g.list(d+1), d)
	case 3:
		n := &qN{K: "bi", V: "append", As: []*qN{g.list(d + 1)}}
		for k := r.N(3); k > 0; k-- {
			n.As = append(n.As, g.expr(d+1))
		}
		if r.P(25) {
			n.As = append(n.As, g.list(d+1))
			n.Ps = []string{"..."}
		}
		return n
	case 4:
		return &qN{K: "h", N: g.next(), As: []*qN{g.list(d + 1)}}
	case 5:
		if r := g.r; r.P(25) {
			return &qN{K: "mg", A: vr("ho"), V: "tock"}
		}
		return g.wrongCount(&qN{K: "bi", V: "ht", As: []*qN{qi(g.next()), g.expr(d + 1), g.expr(d + 1)}})
	}
	n := &qN{K: "sl"}
	if fns, _, _ := g.visible(); len(fns) > 0 && r.P(12) { // results of the same function
		s := fns[r.N(len(fns))]
		for _, x := range fns {
			if x.variadic && r.P(60) {
				s = x
			}
		}
		for k := r.In(1, 3); k > 0; k-- {
			n.As = append(n.As, &qN{K: "call", A: vr(s.name), As: g.args(s, d)})
		}
		return n
	}
	kind := r.W(70, 15, 10, 5)
	k := r.N(4)
	if r.P(4) {
		k = r.In(4, 12)
	}
	for ; k > 0; k-- {
		switch kind {
		case 0:
			n.As = append(n.As, g.expr(d+1))
		case 1:
			n.As = append(n.As, g.str(d+1))
		case 2:
			n.As = append(n.As, g.any(d+1))
		case 3:
			n.As = append(n.As, &qN{K: "flt", N: r.N(20)})
		}
	}
	return n
}

func (g *qGen) key() *qN {
	if g.r.P(5) {
		return g.str(3)
	}
	return &qN{K: "str", V: g.r.Str("x", "y", "a", "z")}
}

func (g *qGen) mapE(d int) *qN {
	r := g.r
	g.budget--
	if v := g.pool(isMaps); v != "" && r.P(45) {
		return vr(v)
	}
	if r.P(8) && d < 3 {
		return &qN{K: "h", N: g.next(), As: []*qN{g.mapE(d + 1)}}
	}
	n := &qN{K: "map"}
	kind := r.W(70, 15, 15)
	keys := []string{"x", "y", "a", "z"}
	for k := r.N(4); k > 0; k-- {
		n.As = append(n.As, &qN{K: "str", V: keys[k]})
		switch {
		case d > 2 || g.budget < 0:
			n.As = append(n.As, qi(k))
		case kind == 0:
			n.As = append(n.As, g.expr(d+1))
		case kind == 1:
			n.As = append(n.As, g.str(d+1))
		default:
			n.As = append(n.As, g.any(d+1))
		}
	}
	return n
}

// any is a value of any kind.
func (g *qGen) any(d int) *qN {
	switch g.r.W(30, 20, 20, 20, 5, 5) {
	case 0:
		return g.expr(d)
	case 1:
		return g.str(d)
	case 2:
		return g.list(d)
	case 3:
		return g.mapE(d)
	case 4:
		return vr(g.r.Str("nil", "true", "undefined"))
	}
	if g.r.P(40) {
		n := &qN{K: "chr", N: g.r.N(20)}
		if g.r.P(8) {
			n.V = "bad"
		}
		return n
	}
	return &qN{K: "flt", N: g.r.N(20)}
}

// exprV is an integer taken from something else, most of the time.
func (g *qGen) exprV(d int) *qN {
	r := g.r
	switch r.W(22, 10, 8, 14, 10, 5, 8, 6, 4) {
	case 0:
		if r.P(12) {
			return &qN{K: "idx", A: g.str(d + 1), B: g.small(d)}
		}
		return &qN{K: "idx", A: g.list(d + 1), B: g.small(d)}
	case 1:
		return &qN{K: "idx", A: g.mapE(d + 1), B: g.key()}
	case 2:
		if v := g.pool(isMaps); v != "" {
			return &qN{K: "mg", A: vr(v), V: r.Str("x", "y", "a")}
		}
		return &qN{K: "mg", A: vr("ho"), V: "base"}
	case 3:
		return &qN{K: "bi", V: "len", As: []*qN{g.any(d + 1)}}
	case 4:
		return g.wrongCount(&qN{K: "mc", A: vr("ho"), V: "add", As: []*qN{qi(g.next()), g.expr(d + 1)}})
	case 5:
		return &qN{K: "mg", A: vr("ho"), V: r.Str("base", "base", "tick", "tick", "tick", "none")}
	case 6:
		n := &qN{K: "bi", V: "h", Ps: []string{"..."}, As: []*qN{qi(g.next())}}
		if r.P(30) {
			n.As = append(n.As, g.expr(d+1))
		}
		n.As = append(n.As, g.list(d+1))
		return n
	case 7:
		return &qN{K: "bi", V: "get", As: []*qN{g.list(d + 1), g.small(d)}}
	}
	return g.any(d + 1)
}

// stmtV is a statement with such values.
func (g *qGen) stmtV() *qN {
	r := g.r
	f := g.fr
	switch r.W(12, 16, 14, 12, 12, 6, 5, 8, 6, 4) {
	case 0:
		a := g.str(1)
		return &qN{K: "set", V: g.fresh(&f.strs, "s", "t"), A: a}
	case 1:
		a := g.list(1)
		if r.P(20) {
			fns, _, _ := g.visible()
			for _, s := range fns {
				if s.variadic && r.P(60) {
					a = &qN{K: "call", A: vr(s.name), As: g.args(s, 1)}
				}
			}
		}
		return &qN{K: "set", V: g.fresh(&f.lists, "l", "u"), A: a}
	case 2:
		a := g.mapE(1)
		return &qN{K: "set", V: g.fresh(&f.maps, "m", "w"), A: a}
	case 3: // change a list
		v := g.pool(isLists)
		if v == "" {
			break
		}
		n := &qN{K: "bi", V: "set", As: []*qN{vr(v), g.small(1), g.expr(1)}}
		if r.P(25) {
			n.As = append(n.As, g.small(1), g.expr(1))
		}
		return n
	case 4: // change a map, or an object
		if _, objs, _ := g.visible(); len(objs) > 0 && r.P(25) {
			n := &qN{K: "bi", V: "set", As: []*qN{vr(objs[r.N(len(objs))])}}
			for k := r.W(5, 25, 30, 20, 10, 10); k > 0; k-- {
				n.As = append(n.As, &qN{K: "str", V: r.Str("u", "v", "x", "y", "z", "w", "m")}, g.expr(1))
			}
			if r.P(3) {
				n.As = append(n.As, g.any(1))
			}
			return n
		}
		v := g.pool(isMaps)
		if v == "" {
			break
		}
		n := &qN{K: "bi", V: "set", As: []*qN{vr(v), g.key(), g.expr(1)}}
		if r.P(25) {
			n.As = append(n.As, g.key(), g.any(1))
		}
		return n
	case 5:
		v := g.pool(isMaps)
		if v == "" {
			break
		}
		return &qN{K: "bi", V: "delete", As: []*qN{vr(v), g.key()}}
	case 6:
		l := &f.ints
		if len(f.cached) > 0 && r.P(45) { // of an enclosing function
			return &qN{K: "unset", V: f.cached[r.N(len(f.cached))]}
		}
		switch r.N(4) {
		case 0:
			l = &f.strs
		case 1:
			l = &f.lists
		case 2:
			l = &f.maps
		}
		if len(*l) == 0 {
			break
		}
		v := (*l)[r.N(len(*l))]
		*l = without(*l, v)
		return &qN{K: "unset", V: v}
	case 7:
		n := &qN{K: "mset", A: g.list(1)}
		for k := r.In(2, 3); k > 0; k-- {
			n.Ps = append(n.Ps, g.target())
		}
		return n
	case 8:
		if r.P(25) {
			return g.wrongCount(&qN{K: "bi", V: "hs", As: []*qN{{K: "str", V: r.Str("a", "b", "c", "d")}, g.expr(1)}})
		}
		if r.P(50) {
			n := &qN{K: "bi", V: "hx", As: []*qN{qi(g.next())}}
			for k := r.N(7); k > 0; k-- {
				if r.P(92) {
					n.As = append(n.As, g.expr(2))
				} else {
					n.As = append(n.As, g.any(2))
				}
			}
			if r.P(20) {
				n.As = append(n.As, g.list(2))
				n.Ps = []string{"..."}
			}
			return n
		}
		return g.wrongCount(&qN{K: "bi", V: "hv", As: []*qN{qi(g.next())}})
	case 9:
		v := g.pool(isStrs)
		if v == "" {
			break
		}
		return &qN{K: "ops", V: v, Ps: []string{"+"}, A: g.str(2)}
	}
	return g.any(1)
}

// wrongCount changes the number of arguments, now and then.
func (g *qGen) wrongCount(n *qN) *qN {
	if r := g.r; r.P(5) {
		if r.P(50) && len(n.As) > 0 {
			n.As = n.As[:len(n.As)-1]
		} else {
			n.As = append(n.As, g.expr(2))
		}
	}
	return n
}
