package main

// World "order": the same work under different orders of map iteration, each
// chosen by the simulated runtime, must give the same results byte for byte and
// error for error. The work is compiling, generating code, extracting, building
// maps and importing, and whole plans of the other worlds.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/spec"

	"verif.local/sim/simrt"
)

type odItem struct {
	K     string          `json:"k"` // cl, code, doc, map, import, world
	Text  string          `json:"text,omitempty"`
	Gram  string          `json:"gram,omitempty"`
	Kind  string          `json:"kind,omitempty"`
	Mod   string          `json:"mod,omitempty"`
	Table []imSym         `json:"table,omitempty"`
	World string          `json:"world,omitempty"`
	Plan  json.RawMessage `json:"plan,omitempty"`
}

type orderPlan struct {
	Items []odItem `json:"items"`
	Seeds []uint64 `json:"seeds"`
}

func safeString(v interface{}) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("<printing panicked: ", e, ">")
		}
	}()
	return fmt.Sprintf("%v", v)
}

// odResult does the work of an item and returns what it gave, to the last byte.
func odResult(it *odItem) (out string) {
	err, pan := caught(func() error {
		switch it.K {
		case "cl":
			if it.Kind == "extr" {
				e, err := extractor.New(it.Gram, nil)
				if err != nil {
					return err
				}
				doc, err := e.SafeExtract(it.Text)
				out = odDoc(doc)
				return err
			}
			var marks []string
			cl := &tpl.Compiler{Grammar: []byte(it.Gram), Marker: func(g tpl.Grammar, m string) tpl.Grammar {
				marks = append(marks, m)
				return g
			}}
			ret, err := cl.Cl()
			var names []string
			for n := range ret.Grammars {
				names = append(names, n)
			}
			for n := range ret.Vars {
				names = append(names, "var "+n)
			}
			sort.Strings(names)
			out = fmt.Sprint(names, marks)
			if err != nil {
				return err
			}
			err = ret.MatchExactly([]byte(it.Text), "f.txt")
			out += fmt.Sprint(" match ", err == nil)
			return err
		case "code":
			code, fail := genCode(it.Gram)
			out = code + fail
			return nil
		case "doc":
			e, err := extractor.New(it.Gram, nil)
			if err != nil {
				return err
			}
			doc, err := e.SafeParse([]byte(it.Text), "f.txt")
			out = odDoc(doc)
			return err
		case "map":
			e, err := qlang.New(qlang.InsertSemis)
			if err != nil {
				return err
			}
			err = e.SafeExec([]byte(it.Text), "f.ql")
			v, _ := e.Var("v")
			w, _ := e.Var("w")
			out = fmt.Sprintf("%T %v %T %v", v, safeString(v), w, safeString(w))
			return err
		case "import":
			imReset()
			table, defs := imTable(it.Table)
			_, pan := caught(func() error { qlang.Import(it.Mod, table); return nil })
			var names []string
			for n := range spec.Fntable {
				if _, ok := imInitial[n]; !ok {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			e, err := qlang.New(qlang.InsertSemis)
			if err != nil {
				return err
			}
			for _, n := range names {
				if d, ok := defs[n]; ok && imIsName(n) {
					err := e.SafeEval(d.use(n))
					v, _ := e.Var("v")
					out += fmt.Sprintf("%s=%v %v; ", n, v, err)
				}
			}
			imReset()
			out += fmt.Sprint(names, " ", pan)
			return nil
		}
		return nil
	})
	if err != nil {
		out += " error " + safeString(err)
	}
	if pan != nil {
		out += " panic " + safeString(pan)
	}
	return
}

func imIsName(n string) bool {
	for _, x := range append(append([]string{}, imNames...), imMods...) {
		if x == n {
			return true
		}
	}
	return false
}

func odDoc(doc map[string]interface{}) string {
	b, err := json.Marshal(doc)
	return string(b) + fmt.Sprint(err == nil) + docText(doc) + fmt.Sprint(doc)
}

// odRun executes f in the simulation under one order of maps.
func odRun(c *Ctx, seed uint64, f func(*Ctx)) (in *Ctx, bad string) {
	in = NewCtx()
	ctxOf[0] = in
	res := simrt.Run(simrt.Config{Limit: 40000000, MapSeed: seed}, []func(){func() { f(in) }})
	ctxOf[0] = nil
	c.Cnt["steps"] += res.Steps
	c.Cnt["map_orders_permuted"] += simrt.MapPerms
	switch {
	case res.Panics[0] != nil:
		bad = fmt.Sprint("panic ", res.Panics[0])
	case res.Over:
		bad = "not finished"
	case res.State[0] == 2:
		bad = fmt.Sprint("exit ", res.Code[0])
	}
	return
}

func runOrder(c *Ctx, pl interface{}) {
	p := pl.(*orderPlan)
	for i := range p.Items {
		it := &p.Items[i]
		var first []string
		for si, seed := range p.Seeds {
			var got []string
			perms := c.Cnt["map_orders_permuted"]
			if it.K == "world" {
				w := worlds[it.World]
				if w == nil || w.Direct {
					return
				}
				plan := w.New()
				if json.Unmarshal(it.Plan, plan) != nil {
					return
				}
				in, bad := odRun(c, seed, func(in *Ctx) { w.Run(in, plan) })
				got = append(got, in.Log...)
				if k, ok := in.sub.(*errKeeper); ok {
					for _, e := range k.list {
						got = append(got, e.s)
					}
				}
				for _, v := range in.Viols { // judged by the properties of that world; here it only has to be the same
					got = append(got, v.Class+v.Detail)
				}
				got = append(got, bad)
				for k, n := range in.Cnt {
					c.Cnt[k] += n
				}
			} else {
				out := ""
				_, bad := odRun(c, seed, func(*Ctx) { out = odResult(it) })
				got = []string{out, bad}
				c.Inc("results_" + it.K)
			}
			if seed != 0 && c.Cnt["map_orders_permuted"] > perms {
				c.NonTriv = true
				c.Inc("fault_map_order")
			}
			if strings.HasSuffix(got[len(got)-1], "not finished") { // a grammar that takes exponential time
				c.Inc("over_budget")
				break
			}
			if si == 0 {
				first = got
				for _, l := range got {
					c.Logf("%d %s: %s", i, it.K, l)
				}
				c.State(it.K, it.World, got)
				continue
			}
			if d := diffLog(first, got); strings.Join(first, "\x00") != strings.Join(got, "\x00") {
				what := fmt.Sprintf("item %d (%s %s): under map order %d it gives %s", i, it.K, it.World, seed, short(d, 600))
				c.ViolSig("order", odSig(it, first, got), "%s", what)
				return
			}
		}
	}
}

// odSig names the one known difference: a table with several conflicting
// symbols, where only the symbol the failure names differs.
func odSig(it *odItem, a, b []string) string {
	if it.K != "import" || len(a) != 2 || len(b) != 2 || a[1] != "" || b[1] != "" {
		return ""
	}
	cut := func(s string) (string, string) {
		const m = "symbol to import exists already: "
		k := strings.Index(s, m)
		if k < 0 {
			return s, ""
		}
		return s[:k], s[k+len(m):]
	}
	p1, n1 := cut(a[0])
	p2, n2 := cut(b[0])
	conflict := func(n string) bool {
		_, ok := imInitial[n]
		for _, s := range it.Table {
			if s.Name == n && ok {
				return true
			}
		}
		return false
	}
	if p1 == p2 && n1 != n2 && conflict(n1) && conflict(n2) {
		return "which-conflict-is-named"
	}
	return ""
}

// ---- generating

func genOrder(r *R, o GenOpt) interface{} {
	p := &orderPlan{Seeds: []uint64{0}}
	for k := r.In(2, 3); k > 0; k-- {
		p.Seeds = append(p.Seeds, 1+r.U64()%1e9)
	}
	n := r.In(2, 6)
	if o.Big {
		n = r.In(2, 14)
	}
	for i := 0; i < n; i++ {
		var it odItem
		switch r.W(3, 3, 2, 2, 2, 2) {
		case 0: // compiling, most of the time with several mistakes of one kind
			it.K = "cl"
			it.Gram, it.Text = odGram(r, o)
			if r.P(30) {
				it.Kind = "extr"
			}
		case 1:
			it.K = "code"
			it.Gram, _ = odGram(r, o)
		case 2:
			it.K = "doc"
			e := genExEng(r)
			k := 0
			it.Gram = (&gEngine{Rules: e.Rules}).text()
			in := e.info()
			it.Text = strings.Join(uniq(r, in, genToks(r, in, "doc", 10), &k), " ")
			// two plain items of one name, many items
			if r.P(30) {
				it.Gram = "doc = *((INT/a_Int | STRING/b_Strings | CHAR/c_Char) (INT/a_Int | IDENT/aa_Ident | aa/n | aa/ns_array | 1)); aa = FLOAT/x_Float ?(CHAR/a_Char);"
				it.Text = ""
				for k := r.In(1, 9); k > 0; k-- {
					it.Text += r.Str("1 ", "\"s\" ", "'c' ", "2.5 'd' ", "3.25 ", "x ")
				}
			}
		case 3:
			it.K = "map"
			it.Text = odMap(r)
		case 4:
			it.K = "import"
			it.Table = genImTable(r, 60)
			for k := r.N(3); k > 0; k-- {
				it.Table = append(it.Table, imSym{Name: imBuiltin[r.N(len(imBuiltin))], Kind: "int", Val: 1})
			}
			if r.P(20) {
				it.Mod = r.Str("ma", "max")
			}
		default:
			it.K = "world"
			it.World = r.Str("gram", "extr", "ql", "calc", "comp", "comp")
			w := worlds[it.World]
			b, err := json.Marshal(w.Gen(r, GenOpt{Prop: map[string]string{"gram": "P02", "extr": "P03", "ql": "P05", "calc": "P01", "comp": "P15"}[it.World]}))
			if err != nil {
				die(err)
			}
			it.Plan = b
		}
		p.Items = append(p.Items, it)
	}
	return p
}

func odGram(r *R, o GenOpt) (gram, text string) {
	e := genGEngine(r, o, false)
	in := e.info()
	text = strings.Join(genToks(r, in, "doc", 20), " ")
	var parts []string
	for _, rl := range e.Rules {
		if rl.Name != "doc" && r.P(15) {
			continue // missing
		}
		var b strings.Builder
		rl.E.text(&b)
		s := b.String()
		if r.P(30) {
			for k := r.In(1, 4); k > 0; k-- {
				s += " | " + r.Str("zz", "yy", "xx", "ww", "vv", "uu") + r.Str("", " INT", "/m")
			}
		}
		parts = append(parts, rl.Name+" = "+s)
		if r.P(4) {
			parts = append(parts, rl.Name+" = INT")
		}
	}
	return strings.Join(parts, ";\n") + ";\n", text
}

func odMap(r *R) string {
	key := func(kind int) string {
		switch kind {
		case 0:
			return fmt.Sprintf("%q", r.Str("a", "b", "c", "d", "e", "f"))
		case 1:
			return fmt.Sprint(r.In(1, 6))
		case 2:
			return r.Str("1", "2.5", "3", "4.0")
		}
		return r.Str("\"a\"", "1", "2.5", "'c'", "true", "nil", "[1]")
	}
	val := func(kind int) string {
		switch kind {
		case 0:
			return fmt.Sprint(r.In(1, 99))
		case 1:
			return fmt.Sprintf("%q", r.Str("x", "y", "z"))
		case 2:
			return r.Str("1", "2.5", "3")
		}
		return r.Str("1", "\"x\"", "2.5", "nil", "{\"q\": 1}", "[1, 2]", "fn() { 1 }()", "nosuch")
	}
	lit := func() string {
		kk, vk := r.W(5, 3, 1, 2), r.W(3, 3, 1, 3)
		var l []string
		for n := r.N(6); n > 0; n-- {
			l = append(l, key(kk)+": "+val(vk))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	s := "v = " + lit()
	switch r.N(5) {
	case 0:
		s += "; w = mapFrom(\"a\", 1, \"b\", " + val(3) + ")"
	case 1:
		s += "; w = {\"m\": v, \"n\": " + lit() + "}"
	case 2:
		s += "; w = class { fn a() { return 1 }; fn b() { return this.a() } ; fn _init(x) { this.q = x; this.p = v } }; w = new w(3); w = w.b()"
	case 3:
		s += "; delete(v, \"a\"); w = len(v)"
	case 4:
		s += "; w = string(v) + string(" + lit() + ")"
	}
	return s
}

var orderWorld = regWorld(&World{Name: "order", Gen: genOrder, New: func() interface{} { return new(orderPlan) }, Run: runOrder, Direct: true})
