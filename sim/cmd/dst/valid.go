package main

// Which plans made by the minimiser are plans the generators could have made.

import "strings"

func oneOf(s string, list ...string) bool {
	for _, x := range list {
		if s == x {
			return true
		}
	}
	return false
}

func init() {
	calcWorld.Valid = func(pl interface{}) bool {
		p := pl.(*calcPlan)
		for _, op := range p.Ops {
			if op.Eng < 0 || op.Eng >= len(p.Kinds) || !calcValid(p.Kinds[op.Eng], op.E) {
				return false
			}
		}
		return len(p.Kinds) > 0
	}
	qlWorld.Valid = func(pl interface{}) bool {
		for _, op := range pl.(*qlPlan).Ops {
			if op.Raw == "" && !qlValidBlock(op.B) {
				return false
			}
		}
		return true
	}
}

func calcValid(kind string, n *cN) bool {
	if n == nil {
		return false
	}
	switch n.K {
	case "n":
		if n.V == "" || kind == "rat" && strings.Trim(n.V, "0123456789") != "" {
			return false
		}
		return !strings.HasSuffix(n.V, "i") || kind == "cmplx"
	case "i":
		return n.V != "" && kind == "number"
	case "b":
		return n.V != "" && calcValid(kind, n.A) && calcValid(kind, n.B)
	case "neg", "pos", "p":
		return calcValid(kind, n.A)
	case "c":
		for _, a := range n.As {
			if !calcValid(kind, a) {
				return false
			}
		}
		return n.V != ""
	}
	return false
}

func qlValidBlock(b *qN) bool {
	if b == nil || b.K != "blk" {
		return false
	}
	for _, s := range b.As {
		if !qlValidStmt(s) {
			return false
		}
	}
	return true
}

func qlValidStmt(n *qN) bool {
	if n == nil {
		return false
	}
	switch n.K {
	case "set", "ops", "defer":
		return n.V != "" == (n.K != "defer") && qlValid(n.A)
	case "mset":
		return len(n.Ps) > 1 && qlValid(n.A)
	case "inc", "dec", "unset":
		return n.V != ""
	case "ret":
		return n.A == nil || qlValid(n.A)
	case "boom":
		return true
	case "sm":
		return n.V != "" && qlValid(n.A) && qlValid(n.B)
	}
	return qlValid(n)
}

func qlValid(n *qN) bool {
	if n == nil {
		return false
	}
	all := func(as []*qN) bool {
		for _, a := range as {
			if !qlValid(a) {
				return false
			}
		}
		return true
	}
	pairs := func() bool {
		if len(n.As)%2 != 0 {
			return false
		}
		for i := 0; i < len(n.As); i += 2 {
			if !qlValid(n.As[i]) || !qlValidBlock(n.As[i+1]) {
				return false
			}
		}
		return true
	}
	switch n.K {
	case "int":
		return n.N >= 0
	case "var":
		return n.V != ""
	case "str", "flt", "chr", "r":
		return true
	case "bin":
		return n.V != "" && qlValid(n.A) && qlValid(n.B)
	case "not", "neg", "pos", "paren", "hc":
		return qlValid(n.A)
	case "h", "sl":
		return all(n.As)
	case "call":
		return qlValid(n.A) && all(n.As)
	case "fn":
		return qlValidBlock(n.B)
	case "mc":
		return n.V != "" && qlValid(n.A) && all(n.As)
	case "mg":
		return n.V != "" && qlValid(n.A)
	case "idx":
		return qlValid(n.A) && qlValid(n.B)
	case "sub":
		return qlValid(n.A) && all(n.As)
	case "map":
		return len(n.As)%2 == 0 && all(n.As)
	case "bi":
		return n.V != "" && all(n.As)
	case "new":
		return n.V != "" && all(n.As)
	case "class":
		for _, m := range n.As {
			if m == nil || m.K != "m" && m.K != "mv" || m.V == "" || !qlValidBlock(m.B) {
				return false
			}
		}
		return true
	case "if":
		return len(n.As) > 0 && pairs() && (n.B == nil || qlValidBlock(n.B))
	case "sw":
		return pairs() && (n.A == nil || qlValid(n.A)) && (n.B == nil || qlValidBlock(n.B))
	case "for":
		for _, s := range n.As {
			if !qlValidStmt(s) {
				return false
			}
		}
		return qlValidBlock(n.B)
	case "main":
		return qlValidBlock(n.B)
	}
	return false
}
