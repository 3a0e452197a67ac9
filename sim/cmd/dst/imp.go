package main

// World "imp": histories of imports of host symbols into the script language,
// conflicting at a chosen place of the table in any iteration order, failing in
// the table's own initialisation, or made by a script in the middle of its
// evaluation; scripts on engines made before and after are compared with a
// model of the symbol table.

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/qlang/spec"

	"verif.local/sim/simrt"
)

type imSym struct {
	Name string  `json:"name"`
	Kind string  `json:"kind"` // int, str, fn, nil, mod
	Val  int     `json:"val"`
	Sub  []imSym `json:"sub,omitempty"`
}

type imOp struct {
	K     string  `json:"k"` // import, eval, new, probe
	Mod   string  `json:"mod,omitempty"`
	Table []imSym `json:"table,omitempty"`
	Again int     `json:"again,omitempty"` // 1: the same table once more; 2: without its conflicts
	Order uint64  `json:"order,omitempty"`
	Safe  bool    `json:"safe,omitempty"`
	Init  string  `json:"init,omitempty"` // ok, str, err, other, proto: _initSafe of the table
	Eng   int     `json:"eng,omitempty"`
	Via   string  `json:"via,omitempty"` // host: in a host call of a script; caught: the host call recovers; rec: the script recovers
	Name  string  `json:"name,omitempty"`
	Val   int     `json:"val,omitempty"`
}

type imPlan struct {
	Ops []imOp `json:"ops"`
}

// imDef is a symbol as the model knows it.
type imDef struct {
	kind string // int, str, fn, nil, mod, builtin
	val  int
	sub  map[string]imDef
}

type imRun struct {
	c     *Ctx
	syms  map[string]imDef
	engs  []qlang.Qlang
	vars  []map[string]int
	last  map[string]interface{}
	lastD map[string]imDef
	lastM string
	lastI string // how its initialisation fails
	hook  func()
}

// what there is before any program imports something of its own
var imInitial map[string]interface{}

func imReset() {
	if imInitial == nil {
		imInitial = map[string]interface{}{}
		for k, v := range spec.Fntable {
			imInitial[k] = v
		}
	}
	for k := range spec.Fntable {
		if _, ok := imInitial[k]; !ok {
			delete(spec.Fntable, k)
		}
	}
	for k, v := range imInitial {
		spec.Fntable[k] = v
	}
	spec.SafeMode = false
}

var imNames = []string{"na", "nb", "nc", "nd", "ne", "nf", "ng", "nh"}
var imMods = []string{"ma", "mb", "mc"}
var imBuiltin = []string{"max", "len", "true", "nil", "undefined", "slice", "$add", "$and", "$index", "$mref", "$neg"}

// scripts over what every program relies on, with their values
var imBase = []struct {
	s string
	v interface{}
}{
	{"v = max(3, 5)", 5}, {"v = len(\"abc\")", 3}, {"v = true", true}, {"v = nil", nil},
	{"v = 1 + 2 * 3", 7}, {"v = 1 < 2 && 3 < 4", true}, {"v = -5", -5}, {"v = [1, 2, 3][1]", 2},
	{"v = {\"a\": 4}; v = v.a", 4}, {"v = fn(x) { return x - 1 }; v = v(9)", nil}, {"v = min(3, 5)", 3},
}

func imMake(s imSym) (interface{}, imDef) {
	d := imDef{kind: s.Kind, val: s.Val}
	switch s.Kind {
	case "int":
		return s.Val, d
	case "str":
		return fmt.Sprint("s", s.Val), d
	case "nil":
		return nil, d
	case "mod":
		t, sub := imTable(s.Sub)
		d.sub = sub
		return t, d
	}
	n := s.Val
	d.kind = "fn"
	return func(a int) int { return n + a }, d
}

func imTable(l []imSym) (map[string]interface{}, map[string]imDef) {
	t, ds := map[string]interface{}{}, map[string]imDef{}
	for _, s := range l {
		if s.Name == "" {
			continue
		}
		t[s.Name], ds[s.Name] = imMake(s)
	}
	return t, ds
}

func (d imDef) value() interface{} {
	switch d.kind {
	case "int":
		return d.val
	case "str":
		return fmt.Sprint("s", d.val)
	case "fn":
		return d.val + 7
	}
	return nil
}

// ---- looking

func (r *imRun) eval(k int, src string) (v interface{}, err error, pan interface{}) {
	e := r.engs[k]
	e.SetVar("v", "unset")
	err, pan = caught(func() error { return e.SafeEval(src) })
	v, _ = e.Var("v")
	return
}

// probe looks at every symbol with engine k.
func (r *imRun) probe(k int, when string) bool {
	look := func(src string, want interface{}, there bool) bool {
		v, err, pan := r.eval(k, src)
		r.c.Inc("probes")
		switch {
		case there && (err != nil || pan != nil):
			r.c.Viol("symbol-lost", "%s: `%s` fails with %v%v, expected %v", when, src, err, pan, want)
		case there && !reflect.DeepEqual(v, want):
			r.c.Viol("symbol-changed", "%s: `%s` gives %#v, expected %#v", when, src, v, want)
		case !there && err == nil && pan == nil:
			r.c.Viol("symbol-left", "%s: `%s` gives %#v, but there is no such symbol", when, src, v)
		default:
			return true
		}
		return false
	}
	for _, b := range imBase {
		want := b.v
		if want == nil && b.s[len(b.s)-1] == ')' {
			want = 8
		}
		if !look(b.s, want, true) {
			return false
		}
	}
	for _, n := range imNames {
		if x, ok := r.vars[k][n]; ok { // a variable comes first
			if !look("v = "+n, x, true) {
				return false
			}
			continue
		}
		d, ok := r.syms[n]
		if !look(d.use(n), d.value(), ok) {
			return false
		}
	}
	for _, n := range imMods {
		d, ok := r.syms[n]
		if !ok {
			if !look("v = "+n, nil, false) {
				return false
			}
			continue
		}
		if d.kind != "mod" {
			if !look(d.use(n), d.value(), true) {
				return false
			}
			continue
		}
		for _, s := range imNames {
			x, ok := d.sub[s]
			if !look(x.use(n+"."+s), x.value(), ok) {
				return false
			}
		}
	}
	return true
}

func (d imDef) use(name string) string {
	switch d.kind {
	case "fn":
		return "v = " + name + "(7)"
	case "mod":
		return "v = " + name + "; v = nil"
	}
	return "v = " + name
}

// ---- importing

func (r *imRun) doImport(op *imOp, where string) (failed bool) {
	var table map[string]interface{}
	var defs map[string]imDef
	mod := op.Mod
	if op.Again > 0 && r.last != nil {
		table, defs, mod = r.last, r.lastD, r.lastM
		if op.Again == 2 {
			if mod != "" {
				mod = imMods[op.Val%len(imMods)]
			} else {
				for n := range defs {
					if _, ok := r.syms[n]; ok {
						delete(table, n)
						delete(defs, n)
					}
				}
			}
		}
		r.c.Inc("imports_repeated")
	} else {
		table, defs = imTable(op.Table)
		r.initSafe(op, table, defs)
	}
	conflicts := 0
	if mod != "" {
		if _, ok := r.syms[mod]; ok {
			conflicts = 1
		}
	} else {
		for n := range defs {
			if _, ok := r.syms[n]; ok {
				conflicts++
			}
		}
	}
	bad := ""
	spec.SafeMode = op.Safe
	if _, ok := table["_initSafe"]; ok && op.Safe {
		switch r.lastI {
		case "proto":
			bad = "initialisation of a wrong type"
		case "ok":
			imApplied(defs)
		default: // it fails after its work
			bad = "failing initialisation"
			imApplied(defs)
		}
	}
	before := imKeys(table)
	simrt.SetMapSeed(op.Order)
	_, pan := caught(func() error { qlang.Import(mod, table); return nil })
	simrt.SetMapSeed(0)
	spec.SafeMode = false
	failed = pan != nil
	r.c.Inc("imports")
	r.c.Logf("%simport %q of %v: conflicts %d bad %q: %v", where, mod, imKeys(table), conflicts, bad, pan)
	if conflicts > 0 {
		r.c.Inc("fault_conflict")
		r.c.NonTriv = true
	}
	if bad != "" {
		r.c.Inc("fault_init")
		r.c.NonTriv = true
	}
	if want := conflicts > 0 || bad != ""; want != failed {
		if want {
			r.c.Viol("conflict-accepted", "%simport %q of %v succeeds in spite of %d conflicts %s", where, mod, imKeys(table), conflicts, bad)
		} else {
			r.c.Viol("refused", "%simport %q of %v fails without a conflict: %v", where, mod, imKeys(table), pan)
		}
		return
	}
	if after := imKeys(table); fmt.Sprint(before) != fmt.Sprint(after) {
		r.c.Viol("table-changed", "%simport %q changes the table from %v to %v", where, mod, before, after)
	}
	if failed {
		return
	}
	if mod != "" {
		sub := map[string]imDef{}
		for n, d := range defs {
			sub[n] = d
		}
		r.syms[mod] = imDef{kind: "mod", sub: sub}
		r.last, r.lastD = nil, nil // it belongs to the module now
	} else {
		for n, d := range defs {
			r.syms[n] = d
		}
	}
	return
}

// initSafe gives the table an initialisation for the safe mode. It replaces the
// functions of the table by others; then it may fail.
func (r *imRun) initSafe(op *imOp, table map[string]interface{}, defs map[string]imDef) {
	r.last, r.lastD, r.lastM, r.lastI = table, defs, op.Mod, op.Init
	if op.Init == "" {
		return
	}
	defs["_initSafe"] = imDef{kind: "builtin"}
	if op.Init == "proto" {
		table["_initSafe"] = func(m map[string]interface{}) {}
		return
	}
	kind := op.Init
	var names []string
	for n, d := range defs {
		if d.kind == "fn" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	table["_initSafe"] = func(m map[string]interface{}, dummy func(...interface{}) interface{}) {
		if dummy == nil {
			panic("no dummy")
		}
		for _, n := range names {
			if _, ok := m[n]; ok {
				m[n] = 4000 + len(n)
			}
		}
		switch kind {
		case "str":
			panic(causeStr)
		case "err":
			panic(errInjected)
		case "other":
			panic(otherPanic)
		}
	}
}

func imApplied(defs map[string]imDef) {
	for n, d := range defs {
		if d.kind == "fn" {
			defs[n] = imDef{kind: "int", val: 4000 + len(n)}
		}
	}
}

func imKeys(m map[string]interface{}) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- running

func runImp(c *Ctx, plan interface{}) {
	p := plan.(*imPlan)
	imReset()
	r := &imRun{c: c, syms: map[string]imDef{}}
	for n := range imInitial {
		r.syms[n] = imDef{kind: "builtin"}
	}
	// the functions scripts import with
	spec.Fntable["imp"] = func(catch int) (res int) {
		if catch != 0 {
			defer func() {
				if recover() != nil {
					res = -1
				}
			}()
		}
		r.hook()
		return 1
	}
	r.syms["imp"] = imDef{kind: "builtin"}
	if !r.newEng() {
		return
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		k := op.Eng % len(r.engs)
		when := fmt.Sprintf("op %d (%s)", i, op.K)
		switch op.K {
		case "new":
			if !r.newEng() {
				return
			}
			k = len(r.engs) - 1
		case "set":
			n := imNames[op.Val%len(imNames)]
			if _, err, pan := r.eval(k, fmt.Sprintf("%s = %d", n, op.Val)); err != nil || pan != nil {
				c.Viol("symbol-lost", "%s: assigning %s fails: %v%v", when, n, err, pan)
				return
			}
			r.vars[k][n] = op.Val
			c.Logf("%d: %s = %d", k, n, op.Val)
		case "import":
			if op.Via == "" {
				r.doImport(op, when+": ")
				break
			}
			c.Inc("imports_in_scripts")
			failed, ran := false, false
			r.hook = func() {
				ran = true
				failed = r.doImport(op, when+" in a script: ")
				if failed {
					panic("import failed")
				}
			}
			src := map[string]string{"host": "v = max(1, 2); imp(0); v = max(1, 3)", "caught": "v = imp(1)", "rec": "f = fn() { defer fn() { recover() }(); imp(0); 1 }; f(); v = 5"}[op.Via]
			if src == "" {
				src = "v = imp(1)"
			}
			v, err, pan := r.eval(k, src)
			if pan != nil || !ran || (err != nil) != (failed && op.Via == "host") {
				c.Viol("outcome", "%s: `%s`: err %v panic %v, the import failed: %v", when, src, err, pan, failed)
				return
			}
			want := map[string]interface{}{"host": 3, "caught": 1, "rec": 5}[op.Via]
			if op.Via == "caught" && failed {
				want = -1
			}
			if err == nil && want != nil && v != want {
				c.Viol("outcome", "%s: `%s` gives %v, expected %v", when, src, v, want)
				return
			}
		}
		if len(c.Viols) > 0 {
			return
		}
		if !r.probe(k, when) {
			return
		}
		c.State(fmt.Sprint(len(r.syms), len(r.engs)), imKeysOf(r.syms))
	}
	for k := range r.engs {
		if !r.probe(k, "at the end") {
			return
		}
	}
	imReset()
}

func imKeysOf(m map[string]imDef) string {
	s := ""
	for _, n := range append(append([]string{}, imNames...), imMods...) {
		if d, ok := m[n]; ok {
			s += fmt.Sprint(n, d.kind, " ")
		}
	}
	return s
}

func (r *imRun) newEng() bool {
	e, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		r.c.Viol("new-failed", "a new engine: %v", err)
		return false
	}
	r.engs = append(r.engs, e)
	r.vars = append(r.vars, map[string]int{})
	return true
}

// ---- generating

func genImTable(r *R, conflict int) []imSym {
	var l []imSym
	for n := r.In(1, 6); n > 0; n-- {
		s := imSym{Name: imNames[r.N(len(imNames))], Val: r.In(1, 999)}
		s.Kind = r.Str("int", "str", "fn", "fn", "fn", "nil", "mod")
		if s.Kind == "mod" {
			s.Sub = append(s.Sub, imSym{Name: imNames[r.N(len(imNames))], Kind: "int", Val: r.In(1, 99)})
		}
		l = append(l, s)
	}
	if r.P(conflict) {
		l = append(l, imSym{Name: imBuiltin[r.N(len(imBuiltin))], Kind: r.Str("int", "fn", "nil"), Val: r.In(1, 999)})
	}
	if r.P(15) {
		l = append(l, imSym{Name: imMods[r.N(len(imMods))], Kind: r.Str("int", "fn", "mod"), Val: r.In(1, 999)})
	}
	if r.P(10) {
		l = append(l, imSym{Name: r.Str("$zz", "imp", "with space"), Kind: "int", Val: 1})
	}
	return l
}

func genImp(r *R, o GenOpt) interface{} {
	p := &imPlan{}
	n := r.In(3, 9)
	if o.Big {
		n = r.In(3, 25)
	}
	conflict := []int{5, 40, 80}[r.N(3)]
	for i := 0; i < n; i++ {
		op := imOp{Eng: r.N(4), Val: r.In(1, 999)}
		switch r.W(6, 1, 1) {
		case 0:
			op.K = "import"
			if r.P(20) {
				op.Again = r.In(1, 2)
			}
			if r.P(35) {
				op.Mod = imMods[r.N(len(imMods))]
				if r.P(10) {
					op.Mod = r.Str("max", "na", "nb", "$add", "nil")
				}
			}
			op.Table = genImTable(r, conflict)
			op.Order = r.U64()>>1 | 1
			if r.P(25) {
				op.Init = r.Str("ok", "ok", "str", "err", "other", "proto")
			}
			op.Safe = r.P(30)
			if r.P(25) {
				op.Via = r.Str("host", "caught", "rec")
			}
		case 1:
			op.K = "new"
		default:
			op.K = "set"
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

var impWorld = regWorld(&World{Name: "imp", Gen: genImp, New: func() interface{} { return new(imPlan) }, Run: runImp, Limit: 40000000})
