package main

// Reading generated code back: what grammar does the file that tplgen wrote
// build? Independent of how the library makes that code.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

// errUnknownCode says that the file has a form not understood here; nothing is
// concluded from it.
type errUnknownCode struct{ what string }

func (e errUnknownCode) Error() string { return e.what }

// codeShape evaluates the method Cl of a generated file.
func codeShape(src string) (shape string, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, 0)
	if err != nil {
		return "", fmt.Errorf("not a Go file: %v", err)
	}
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(errUnknownCode)
			if !ok {
				panic(e)
			}
			err = u
		}
	}()
	unknown := func(n ast.Node) { panic(errUnknownCode{fmt.Sprintf("%T", n)}) }
	var cl *ast.FuncDecl
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "Cl" && fd.Recv != nil {
			cl = fd
		}
	}
	if cl == nil {
		return "", fmt.Errorf("no method Cl")
	}
	declared := map[string]bool{}
	rules := map[string]string{}
	root := ""
	fields := map[string]string{}
	str := func(e ast.Expr) string {
		switch x := e.(type) {
		case *ast.BasicLit:
			return x.Value
		case *ast.Ident:
			return x.Name
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				return id.Name + "." + x.Sel.Name
			}
		}
		unknown(e)
		return ""
	}
	var eval func(e ast.Expr) string
	eval = func(e ast.Expr) string {
		switch x := e.(type) {
		case *ast.Ident:
			if x.Name != "nil" && !declared[x.Name] {
				return "undeclared " + x.Name
			}
			return x.Name
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.SelectorExpr:
			return str(e)
		case *ast.CallExpr:
			fn := str(x.Fun)
			var as []string
			for _, a := range x.Args {
				if fn == "tpl.Gr" {
					as = append(as, str(a))
				} else if b, ok := a.(*ast.BasicLit); ok {
					as = append(as, b.Value)
				} else {
					as = append(as, eval(a))
				}
			}
			if (fn == "tpl.And" || fn == "tpl.Or") && len(as) == 1 {
				return as[0]
			}
			return fn + "(" + strings.Join(as, ",") + ")"
		}
		unknown(e)
		return ""
	}
	for _, s := range cl.Body.List {
		switch x := s.(type) {
		case *ast.DeclStmt:
			g, ok := x.Decl.(*ast.GenDecl)
			if !ok {
				unknown(x)
			}
			for _, sp := range g.Specs {
				v, ok := sp.(*ast.ValueSpec)
				if !ok {
					unknown(sp)
				}
				for _, n := range v.Names {
					declared[n.Name] = true
				}
			}
		case *ast.ExprStmt:
			c, ok := x.X.(*ast.CallExpr)
			if !ok {
				return "", fmt.Errorf("a statement without effect")
			}
			fn := str(c.Fun)
			name, ok := strings.CutSuffix(fn, ".Assign")
			if !ok || len(c.Args) == 0 || len(c.Args) > 2 {
				unknown(x)
			}
			if len(c.Args) == 2 && str(c.Args[0]) != `"`+name+`"` {
				return "", fmt.Errorf("rule %s is named %s", name, str(c.Args[0]))
			}
			if _, ok := rules[name]; ok {
				return "", fmt.Errorf("rule %s is assigned twice", name)
			}
			if !declared[name] {
				return "", fmt.Errorf("rule %s is not declared", name)
			}
			rules[name] = eval(c.Args[len(c.Args)-1])
		case *ast.AssignStmt:
			for _, r := range x.Rhs {
				ast.Inspect(r, func(n ast.Node) bool {
					if kv, ok := n.(*ast.KeyValueExpr); ok {
						fields[str(kv.Key)] = str(kv.Value)
					}
					return true
				})
			}
		case *ast.ReturnStmt:
		default:
			unknown(x)
		}
	}
	root = fields["Grammar"]
	for _, f := range []string{"Scanner", "ScanMode", "Init"} {
		if fields[f] != "cmplr."+f {
			return "", fmt.Errorf("the matcher does not get %s", f)
		}
	}
	for n := range declared {
		if _, ok := rules[n]; !ok {
			return "", fmt.Errorf("rule %s is not assigned", n)
		}
	}
	return codeShapeOf(root, rules), nil
}

func codeShapeOf(root string, rules map[string]string) string {
	var l []string
	for n, s := range rules {
		l = append(l, n+" = "+s)
	}
	sort.Strings(l)
	return root + ": " + strings.Join(l, "; ")
}

// ruleShape is the same for the rules of a plan; ok is false for grammars with
// quoted words, which have no static equivalent.
func ruleShape(rs []gRule) (shape string, ok bool) {
	ok = true
	var eval func(n *gN) string
	list := func(fn string, as []*gN) string {
		var l []string
		for _, x := range as {
			l = append(l, eval(x))
		}
		if len(l) == 1 {
			return l[0]
		}
		return fn + "(" + strings.Join(l, ",") + ")"
	}
	one := map[string]string{"star": "Repeat0", "plus": "Repeat1", "opt": "Repeat01", "not": "Not", "peek": "Peek"}
	eval = func(n *gN) string {
		if n == nil {
			return "tpl.GrTrue"
		}
		switch n.K {
		case "ref":
			return n.V
		case "tok":
			switch {
			case n.V == "EOF":
				return "tpl.GrEOF"
			case n.V[0] == '"':
				ok = false
				return ""
			case n.V[0] == '\'':
				return "tpl.Gr(" + n.V + ")"
			}
			return "tpl.Gr(tpl." + n.V + ")"
		case "cut":
			return "nil"
		case "seq":
			return list("tpl.And", n.As)
		case "or":
			return list("tpl.Or", n.As)
		case "star", "plus", "opt", "not", "peek":
			return "tpl." + one[n.K] + "(" + eval(n.A) + ")"
		case "list":
			return "tpl.List(" + eval(n.A) + "," + eval(n.B) + ")"
		case "list0":
			return "tpl.List0(" + eval(n.A) + "," + eval(n.B) + ")"
		case "mark":
			return "cmplr.Marker(" + eval(n.A) + ",\"" + n.V + "\")"
		}
		return "tpl.GrTrue"
	}
	rules := map[string]string{}
	for _, r := range rs {
		rules[r.Name] = eval(r.E)
	}
	return codeShapeOf("doc", rules), ok
}
