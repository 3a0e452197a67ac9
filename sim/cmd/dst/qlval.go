package main

// Lists, maps, strings and host values of the script language's model.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	qspec "github.com/qiniu/text/tpl/qlang/spec"
)

// mArr is the memory behind lists.
type mArr struct {
	e       []interface{}
	kind    reflect.Kind // Int, Float64, String, or Interface
	tangled bool         // part of it may or may not be shared with another list
}

// mL is a list.
type mL struct {
	a        *mArr
	lo, hi   int
	appended bool // something was appended to it: what follows it is not known
}

type mMap struct {
	key, val reflect.Kind
	m        map[interface{}]interface{}
}

// qHost is the host's object.
type qHost struct{ Base int }

var qHostObj = &qHost{Base: 7}

func newML(kind reflect.Kind, e []interface{}) *mL {
	return &mL{a: &mArr{e: e, kind: kind}, hi: len(e)}
}

func (l *mL) vals() []interface{} { return l.a.e[l.lo:l.hi] }

// anyList is a list of anything, such as that of further arguments.
func anyList(e []interface{}) *mL {
	return newML(reflect.Interface, append([]interface{}{}, e...))
}

// qNumKind is the common kind of values, Invalid without one.
func qNumKind(e []interface{}) reflect.Kind {
	k := reflect.Invalid
	for i, v := range e {
		t := reflect.Invalid
		switch v.(type) {
		case int:
			t = reflect.Int
		case float64:
			t = reflect.Float64
		case string:
			t = reflect.String
		}
		num := func(k reflect.Kind) bool { return k == reflect.Int || k == reflect.Float64 }
		switch {
		case i == 0:
			k = t
		case k == t:
		case num(k) && num(t):
			k = reflect.Float64
		default:
			return reflect.Invalid
		}
	}
	return k
}

func qFloat(v interface{}) float64 {
	if i, ok := v.(int); ok {
		return float64(i)
	}
	return v.(float64)
}

// qConv makes v an element of the kind.
func qConv(kind reflect.Kind, v interface{}) (interface{}, bool) {
	switch kind {
	case reflect.Interface:
		return v, true
	case reflect.Int:
		_, ok := v.(int)
		return v, ok
	case reflect.Float64:
		_, ok := v.(float64)
		return v, ok
	case reflect.String:
		_, ok := v.(string)
		return v, ok
	}
	return nil, false
}

func qZero(kind reflect.Kind) interface{} {
	switch kind {
	case reflect.Int:
		return 0
	case reflect.Float64:
		return 0.0
	case reflect.String:
		return ""
	}
	return nil
}

func qList(e []interface{}) *mL {
	k := qNumKind(e)
	switch k {
	case reflect.Float64:
		for i := range e {
			e[i] = qFloat(e[i])
		}
	case reflect.Invalid:
		k = reflect.Interface
	}
	return newML(k, append([]interface{}{}, e...))
}

func qMapLit(e []interface{}) *mMap {
	m := &mMap{key: reflect.String, val: reflect.Interface, m: map[interface{}]interface{}{}}
	if len(e) == 0 {
		return m
	}
	var ks, vs []interface{}
	for i := 0; i+1 < len(e); i += 2 {
		ks, vs = append(ks, e[i]), append(vs, e[i+1])
	}
	m.key = qNumKind(ks)
	if m.key != reflect.String && m.key != reflect.Int {
		qThrow(qTypeErr)
	}
	k := qNumKind(vs)
	if k != reflect.Invalid {
		m.val = k
	}
	for i := range ks {
		v := vs[i]
		if k == reflect.Float64 {
			v = qFloat(v)
		}
		if v == interface{}(qspec.Undefined) {
			continue
		}
		m.m[ks[i]] = v
	}
	return m
}

// qType tells the types of values apart that == compares.
func qComparable(a, b interface{}) bool {
	switch x := a.(type) {
	case *mL:
		y, ok := b.(*mL)
		return !ok || x.a.kind != y.a.kind
	case *mMap:
		y, ok := b.(*mMap)
		return !ok || x.key != y.key || x.val != y.val
	case qBuiltin:
		if _, ok := b.(qBuiltin); ok {
			panic(qOver{})
		}
	}
	return true
}

func qGet(o, k interface{}) interface{} {
	switch x := o.(type) {
	case *mMap:
		if _, ok := qConv(x.key, k); !ok || k == nil {
			qThrow(qTypeErr)
		}
		if v, ok := x.m[k]; ok {
			return v
		}
		return qspec.Undefined
	case *mL:
		i, ok := k.(int)
		if !ok || i < 0 || i >= x.hi-x.lo {
			qThrow(qTypeErr)
		}
		return x.vals()[i]
	case string:
		i, ok := k.(int)
		if !ok || i < 0 || i >= len(x) {
			qThrow(qTypeErr)
		}
		return x[i]
	}
	qThrow(qTypeErr)
	return nil
}

func qSub(o, i, j interface{}) interface{} {
	at := func(v interface{}, def int) int {
		if v == nil {
			return def
		}
		n, ok := v.(int)
		if !ok {
			qThrow(qTypeErr)
		}
		return n
	}
	switch x := o.(type) {
	case *mL:
		a, b := at(i, 0), at(j, x.hi-x.lo)
		if a < 0 || b < a {
			qThrow(qTypeErr)
		}
		if b > x.hi-x.lo {
			if x.lo+b > len(x.a.e) { // beyond the length, within a capacity not known
				panic(qOver{})
			}
			panic(qOver{})
		}
		s := &mL{a: x.a, lo: x.lo + a, hi: x.lo + b}
		s.appended = x.appended || s.hi < len(x.a.e)
		return s
	case string:
		a, b := at(i, 0), at(j, len(x))
		if a < 0 || b < a || b > len(x) {
			qThrow(qTypeErr)
		}
		return x[a:b]
	}
	qThrow(qTypeErr)
	return nil
}

func qAppend(o interface{}, vs []interface{}) interface{} {
	x, ok := o.(*mL)
	if !ok {
		qThrow(qTypeErr)
	}
	add := make([]interface{}, len(vs))
	for i, v := range vs {
		switch {
		case v == nil && x.a.kind == reflect.Interface:
		case v == nil && x.a.kind != reflect.Float64:
			add[i] = qZero(x.a.kind)
		case x.a.kind == reflect.Float64:
			if n, ok := v.(int); ok {
				v = float64(n)
			}
			f, ok := v.(float64)
			if !ok {
				qThrow(qTypeErr)
			}
			add[i] = f
		default:
			if _, ok := qConv(x.a.kind, v); !ok {
				qThrow(qTypeErr)
			}
			add[i] = v
		}
	}
	if x.appended {
		panic(qOver{})
	}
	if x.hi-x.lo+len(add) > 100 {
		panic(qOver{})
	}
	x.a.tangled = true
	x.appended = len(vs) > 0
	n := newML(x.a.kind, append(append([]interface{}{}, x.vals()...), add...))
	n.a.tangled = true
	return n
}

// qSetAt sets members of a list or map, one after the other.
func qSetAt(o interface{}, as []interface{}) {
	if len(as)%2 != 0 {
		qThrow(qTypeErr)
	}
	switch x := o.(type) {
	case *mMap:
		for i := 0; i < len(as); i += 2 {
			k, v := as[i], as[i+1]
			if _, ok := qConv(x.key, k); !ok {
				qThrow(qTypeErr)
			}
			switch {
			case v == interface{}(qspec.Undefined):
				delete(x.m, k)
				continue
			case v == nil:
				v = qZero(x.val)
			default:
				if _, ok := qConv(x.val, v); !ok {
					qThrow(qTypeErr)
				}
			}
			if len(x.m) > 100 {
				panic(qOver{})
			}
			x.m[k] = v
		}
	case *mL:
		for i := 0; i < len(as); i += 2 {
			n, ok := as[i].(int)
			if !ok || n < 0 || n >= x.hi-x.lo {
				qThrow(qTypeErr)
			}
			v := as[i+1]
			if _, ok := qConv(x.a.kind, v); !ok || v == nil {
				qThrow(qTypeErr)
			}
			if x.a.tangled {
				panic(qOver{})
			}
			x.vals()[n] = v
		}
	default:
		qThrow(qTypeErr)
	}
}

func qLen(o interface{}) int {
	switch x := o.(type) {
	case nil:
		return 0
	case *mL:
		return x.hi - x.lo
	case *mMap:
		return len(x.m)
	case string:
		return len(x)
	}
	qThrow(qTypeErr)
	return 0
}

// builtin calls a built-in function.
func (m *qM) builtin(name string, as []interface{}) interface{} {
	need := func(n int) {
		if len(as) != n {
			qThrow(qTypeErr)
		}
	}
	switch name {
	case "len":
		need(1)
		return qLen(as[0])
	case "append":
		if len(as) < 1 {
			qThrow(qTypeErr)
		}
		return qAppend(as[0], as[1:])
	case "get":
		need(2)
		return qGet(as[0], as[1])
	case "delete":
		need(2)
		x, ok := as[0].(*mMap)
		if !ok {
			qThrow(qTypeErr)
		}
		if _, ok := qConv(x.key, as[1]); !ok || as[1] == nil {
			qThrow(qTypeErr)
		}
		delete(x.m, as[1])
		return nil
	case "set":
		if len(as) < 1 {
			qThrow(qTypeErr)
		}
		if o, ok := as[0].(*mObj); ok {
			if len(as)%2 != 1 {
				qThrow(qTypeErr)
			}
			for i := 1; i < len(as); i += 2 {
				k, ok := as[i].(string)
				if !ok || o.cls.fns[k] != nil {
					qThrow(qTypeErr)
				}
				o.vars[k] = as[i+1]
			}
			return nil
		}
		qSetAt(as[0], as[1:])
		return nil
	case "ht": // of the host, with parameters of fixed types and three results
		need(3)
		id, ok1 := as[0].(int)
		a, ok2 := as[1].(int)
		b, ok3 := qHostFloat(as[2])
		if !ok1 || !ok2 || !ok3 {
			qThrow(qTypeErr)
		}
		m.event("ht %d %d %v", id, a, b)
		m.hit()
		return anyList([]interface{}{a % 100, strconv.Itoa(a), float64(float32(b * 2))})
	case "hs": // the host changes a variable of the session
		need(2)
		k, ok := as[0].(string)
		if !ok {
			qThrow(qTypeErr)
		}
		m.event("hs %s", k)
		m.hit()
		m.top.vars[k] = as[1]
		return nil
	case "hx": // of the host, with any number of floats
		if len(as) < 1 {
			qThrow(qTypeErr)
		}
		id, ok := as[0].(int)
		if !ok {
			qThrow(qTypeErr)
		}
		sum, fs := 0.0, make([]float64, len(as)-1)
		for i, v := range as[1:] {
			if fs[i], ok = qHostFloat(v); !ok {
				qThrow(qTypeErr)
			}
			sum += fs[i]
		}
		m.event("hx %d %v", id, fs)
		m.hit()
		if math.IsNaN(sum) || math.IsInf(sum, 0) {
			panic(qOver{})
		}
		return sum
	case "hv":
		need(1)
		id, ok := as[0].(int)
		if !ok {
			qThrow(qTypeErr)
		}
		m.event("hv %d", id)
		m.hit()
		return nil
	case "ho.add":
		need(2)
		id, ok1 := as[0].(int)
		a, ok2 := as[1].(int)
		if !ok1 || !ok2 {
			qThrow(qTypeErr)
		}
		m.event("ho %d %d", id, a)
		m.hit()
		return a + qHostObj.Base
	case "h":
		if len(as) < 1 {
			qThrow(qTypeErr)
		}
		id, ok := as[0].(int)
		if !ok {
			qThrow(qTypeErr)
		}
		m.event("h %d%s", id, qArgs(as[1:]))
		m.hit()
		if len(as) > 1 {
			return as[len(as)-1]
		}
		return id
	}
	panic(qOver{})
}

// qHostFloat converts an argument for a parameter that is a float.
func qHostFloat(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	case byte:
		return float64(x), true
	}
	return 0, false
}

// spread replaces the last of the arguments by its elements.
func qSpread(as []interface{}) []interface{} {
	if len(as) == 0 {
		qThrow(qTypeErr)
	}
	l, ok := as[len(as)-1].(*mL)
	if !ok {
		qThrow(qTypeErr)
	}
	return append(append([]interface{}{}, as[:len(as)-1]...), l.vals()...)
}

func (*qHost) Add(id, a int) int {
	e := curQl()
	e.event("ho %d %d", id, a)
	curCtx().hit("ho", false)
	return a + qHostObj.Base
}

func (*qHost) Tick() int8 {
	e := curQl()
	e.event("ho.tick")
	curCtx().hit("ho.tick", false)
	return 5
}

func (*qHost) Tock() (string, uint16, float32) {
	e := curQl()
	e.event("ho.tock")
	curCtx().hit("ho.tock", false)
	return "t", 200, 2.5
}

func init() { qlang.SetAutoCall(reflect.TypeOf(qHostObj)) }

func qHostFns() map[string]interface{} {
	return map[string]interface{}{
		"ht": func(id, a int, b float64) (int16, string, float32) {
			e := curQl()
			e.event("ht %d %d %v", id, a, b)
			curCtx().hit("ht", false)
			return int16(a % 100), strconv.Itoa(a), float32(b * 2)
		},
		"hx": func(id int, fs ...float64) (sum float64) {
			e := curQl()
			e.event("hx %d %v", id, fs)
			curCtx().hit("hx", false)
			for _, f := range fs {
				sum += f
			}
			return
		},
		"hs": func(k string, v interface{}) {
			e := curQl()
			e.event("hs %s", k)
			curCtx().hit("hs", false)
			e.lang.SetVar(k, v)
		},
		"hv": func(id int) {
			e := curQl()
			e.event("hv %d", id)
			curCtx().hit("hv", false)
		},
		"ho": qHostObj,
	}
}

// ---- rendering of values, real and the model's

func qValN(v interface{}, d int) string {
	if d > 5 {
		return "..."
	}
	list := func(n int, f func(i int) interface{}) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, qValN(f(i), d+1))
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case int:
		return strconv.Itoa(x)
	case byte:
		return fmt.Sprintf("byte %d", x)
	case float64:
		return "f" + strconv.FormatFloat(x, 'g', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case *mFn, qBuiltin:
		return "fn"
	case *mCls:
		return "cls"
	case *mObj:
		return "obj" + qMembers(x.vars)
	case qExt:
		return "ext"
	case *qHost:
		return "host"
	case *mL:
		return list(x.hi-x.lo, func(i int) interface{} { return x.vals()[i] })
	case *mMap:
		var l []string
		for k, v := range x.m {
			l = append(l, qValN(k, d+1)+":"+qValN(v, d+1))
		}
		sort.Strings(l)
		return "map{" + strings.Join(l, " ") + "}"
	case error:
		if x == qspec.Undefined {
			return "undefined"
		}
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Slice:
		return list(rv.Len(), func(i int) interface{} { return rv.Index(i).Interface() })
	case reflect.Map:
		var l []string
		for _, k := range rv.MapKeys() {
			l = append(l, qValN(k.Interface(), d+1)+":"+qValN(rv.MapIndex(k).Interface(), d+1))
		}
		sort.Strings(l)
		return "map{" + strings.Join(l, " ") + "}"
	case reflect.Ptr:
		e := rv.Elem()
		if e.Kind() == reflect.Struct {
			switch {
			case e.FieldByName("Cls").IsValid() && e.FieldByName("vars").IsValid():
				m := map[string]interface{}{}
				vs := e.FieldByName("vars")
				for _, k := range vs.MapKeys() {
					m[k.String()] = qUnexp(vs.MapIndex(k))
				}
				return "obj" + qMembers(m)
			case e.FieldByName("Fns").IsValid():
				return "cls"
			}
			if rv.MethodByName("Call").IsValid() {
				return "fn"
			}
		}
	case reflect.Func:
		return "fn"
	}
	return fmt.Sprintf("<%T>", v)
}

func qVal(v interface{}) string { return qValN(v, 0) }

// qArithN is arithmetic on numbers of which one is not an integer.
func qArithN(op string, a, b float64) interface{} {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "<":
		return a < b
	case ">":
		return a > b
	case "<=":
		return a <= b
	case ">=":
		return a >= b
	}
	qThrow(qTypeErr)
	return nil
}

func qArith(op string, a, b interface{}) interface{} {
	if op == "==" || op == "!=" {
		if !qComparable(a, b) {
			qThrow(qTypeErr)
		}
		return (a == b) == (op == "==")
	}
	if x, ok := a.(string); ok {
		y, ok := b.(string)
		if !ok {
			qThrow(qTypeErr)
		}
		switch op {
		case "+":
			if len(x)+len(y) > 1000 {
				panic(qOver{})
			}
			return x + y
		case "<":
			return x < y
		case ">":
			return x > y
		case "<=":
			return x <= y
		case ">=":
			return x >= y
		}
		qThrow(qTypeErr)
	}
	if strings.Contains("<>=", op[:1]) { // these work on bytes, too
		if x, ok := a.(byte); ok {
			a = int(x)
		}
		if x, ok := b.(byte); ok {
			b = int(x)
		}
	}
	x, ok1 := a.(int)
	y, ok2 := b.(int)
	if !ok1 || !ok2 {
		_, f1 := a.(float64)
		_, f2 := b.(float64)
		if (ok1 || f1) && (ok2 || f2) {
			v := qArithN(op, qFloat(a), qFloat(b))
			if f, ok := v.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
				panic(qOver{})
			}
			return v
		}
		qThrow(qTypeErr)
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "%", "/":
		if y == 0 {
			qThrow(qTypeErr)
		}
		if op == "/" {
			return x / y
		}
		return x % y
	case "<":
		return x < y
	case ">":
		return x > y
	case "<=":
		return x <= y
	case ">=":
		return x >= y
	}
	panic(qOver{})
}
