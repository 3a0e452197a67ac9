package main

// World "calc": sessions of the float, complex and rational calculators.

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	tcmplx "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	iu "github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
)

// cN is an expression node.
type cN struct {
	K  string `json:"k"` // n number, b binary, neg, pos, p parenthesised, c call, i identifier
	V  string `json:"v,omitempty"`
	A  *cN    `json:"a,omitempty"`
	B  *cN    `json:"b,omitempty"`
	As []*cN  `json:"as,omitempty"`
}

type calcOp struct {
	Eng    int    `json:"eng"`
	E      *cN    `json:"e,omitempty"`
	Raw    string `json:"raw,omitempty"` // instead of E
	Cut    int    `json:"cut,omitempty"` // keep only the first n tokens
	Ins    string `json:"ins,omitempty"` // insert this text ...
	InsAt  int    `json:"insat,omitempty"`
	Fault  *Fault `json:"f,omitempty"`
	Keep   bool   `json:"keep,omitempty"` // do not drain after a failure
	Lay    int    `json:"lay,omitempty"`
	File   string `json:"file,omitempty"`
	Mutate bool   `json:"mut,omitempty"` // the caller changes the value it got
	Times  int    `json:"times,omitempty"`
}

type calcPlan struct {
	Kinds []string `json:"kinds"`
	Wrap  []bool   `json:"wrap"`
	Ops   []calcOp `json:"ops"`
}

// ---- hosts

type numHost struct{ *number.Calculator }
type cplxHost struct{ *tcmplx.Calculator }
type ratHost struct{ *rat.Calculator }

func (p *numHost) Fntable() map[string]interface{} {
	return wrapTable(p.Calculator.Fntable(), map[string]interface{}{"$call": numCall})
}
func numCall(p *numHost, name string) error {
	if err := curCtx().hit("call", true); err != nil {
		return err
	}
	return p.Calculator.Call(name)
}
func (p *cplxHost) Fntable() map[string]interface{} {
	return wrapTable(p.Calculator.Fntable(), map[string]interface{}{"$call": cplxCall})
}
func cplxCall(p *cplxHost, name string) error {
	if err := curCtx().hit("call", true); err != nil {
		return err
	}
	return p.Calculator.Call(name)
}
func (p *ratHost) Fntable() map[string]interface{} {
	return wrapTable(p.Calculator.Fntable(), map[string]interface{}{"$call": ratCall})
}
func ratCall(p *ratHost, name string) error {
	if err := curCtx().hit("call", true); err != nil {
		return err
	}
	return p.Calculator.Call(name)
}

// wrapTable puts a fault point in front of every mark callback.
func wrapTable(t map[string]interface{}, over map[string]interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	for k, fn := range t {
		if f, ok := over[k]; ok {
			out[k] = f
			continue
		}
		if strings.HasPrefix(k, "$") {
			v, name := reflect.ValueOf(fn), k
			out[k] = reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
				curCtx().hit(name, false)
				return v.Call(args)
			}).Interface()
		} else {
			out[k] = fn
		}
	}
	return out
}

// named host functions, added the way a user of the package adds functions
func init() {
	number.Fntable["hf"] = func(a float64) float64 { curCtx().hit("hf", false); return a + 1 }
	number.Fntable["hv"] = func(a ...float64) float64 {
		curCtx().hit("hv", false)
		s := 0.0
		for _, x := range a {
			s += x
		}
		return s
	}
	number.Fntable["hint"] = func(a float64) int { curCtx().hit("hint", false); return int(a) }
	regKind[int8]("hi8")
	regKind[int16]("hi16")
	regKind[int32]("hi32")
	regKind[int64]("hi64")
	regKind[uint]("hu")
	regKind[uint8]("hu8")
	regKind[uint16]("hu16")
	regKind[uint32]("hu32")
	regKind[uint64]("hu64")
	regKind[uintptr]("hup")
	regKind[float32]("hf32")
	regKind[float64]("hf64")
	tcmplx.Fntable["hc64"] = func(a complex128) complex64 { curCtx().hit("hc64", false); return complex64(a) }
	number.Fntable["hstr"] = func(a float64) string { curCtx().hit("hstr", false); return "x" }
	tcmplx.Fntable["hstr"] = func(a complex128) string { curCtx().hit("hstr", false); return "x" }
	rat.Fntable["hstr"] = func(a *big.Rat) string { curCtx().hit("hstr", false); return "x" }
	number.Fntable["hvv"] = func(a, b float64, rest ...float64) float64 {
		curCtx().hit("hvv", false)
		return a - b + 10*float64(len(rest))
	}
	tcmplx.Fntable["hvv"] = func(a, b complex128, rest ...complex128) complex128 {
		curCtx().hit("hvv", false)
		return a - b + complex(10*float64(len(rest)), 0)
	}
	rat.Fntable["hvv"] = func(a, b *big.Rat, rest ...*big.Rat) *big.Rat {
		curCtx().hit("hvv", false)
		r := new(big.Rat).Sub(a, b)
		return r.Add(r, big.NewRat(int64(10*len(rest)), 1))
	}
	number.Fntable["hbad"] = func() string { curCtx().hit("hbad", false); return "x" }
	tcmplx.Fntable["hf"] = func(a complex128) complex128 { curCtx().hit("hf", false); return a + 1 }
	tcmplx.Fntable["hv"] = func(a ...complex128) complex128 {
		curCtx().hit("hv", false)
		s := complex(0, 0)
		for _, x := range a {
			s += x
		}
		return s
	}
	tcmplx.Fntable["hint"] = func(a complex128) int { curCtx().hit("hint", false); return int(real(a)) }
	tcmplx.Fntable["hbad"] = func() string { curCtx().hit("hbad", false); return "x" }
	rat.Fntable["hf"] = func(a *big.Rat) *big.Rat {
		curCtx().hit("hf", false)
		return new(big.Rat).Add(a, big.NewRat(1, 1))
	}
	rat.Fntable["hv"] = func(a ...*big.Rat) *big.Rat {
		curCtx().hit("hv", false)
		s := new(big.Rat)
		for _, x := range a {
			s.Add(s, x)
		}
		return s
	}
	// a value the host keeps and hands out again and again
	rat.Fntable["hk"] = func(a *big.Rat) *big.Rat {
		c := curCtx()
		c.hit("hk", false)
		return c.keptRat
	}
	rat.Fntable["hbad"] = func() string { curCtx().hit("hbad", false); return "x" }
}

// regKind adds host functions whose result has some numeric kind.
func regKind[T int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr | float32 | float64](name string) {
	conv := func(a float64) T {
		if math.IsNaN(a) || math.Abs(a) > 1e6 {
			a = 5
		}
		return T(math.Abs(a))
	}
	number.Fntable[name] = func(a float64) T { curCtx().hit(name, false); return conv(a) }
	tcmplx.Fntable[name] = func(a complex128) T { curCtx().hit(name, false); return conv(real(a)) }
	kindConv[name] = func(a float64) float64 { return float64(conv(a)) }
}

var kindConv = map[string]func(float64) float64{}

func isHostFn(n string) bool {
	switch n {
	case "hf", "hv", "hint", "hvv", "hc64", "hstr", "hk":
		return true
	}
	return kindConv[n] != nil
}

type calcEng struct {
	kind string
	wrap bool
	e    *interpreter.Engine
	ret  func() (interface{}, bool)
}

func newCalc(kind string, wrap bool) (*calcEng, error) {
	var ipt iu.Interface
	ce := &calcEng{kind: kind, wrap: wrap}
	switch kind {
	case "cmplx":
		c := tcmplx.New()
		ipt = c
		if wrap {
			ipt = &cplxHost{c}
		}
		ce.ret = func() (interface{}, bool) { v, ok := c.Ret(); return v, ok }
	case "rat":
		c := rat.New()
		ipt = c
		if wrap {
			ipt = &ratHost{c}
		}
		ce.ret = func() (interface{}, bool) { v, ok := c.Ret(); return v, ok }
	default:
		ce.kind = "number"
		c := number.New()
		ipt = c
		if wrap {
			ipt = &numHost{c}
		}
		ce.ret = func() (interface{}, bool) { v, ok := c.Ret(); return v, ok }
	}
	var err error
	ce.e, err = interpreter.New(ipt, nil)
	return ce, err
}

// ---- model

type domain interface {
	lit(s string) (interface{}, bool)
	bin(op string, a, b interface{}) (interface{}, error)
	neg(a interface{}) interface{}
	ident(n string) (interface{}, bool)
	fn(n string) (ar int, f func(a []interface{}) (interface{}, error))
}

type numDom struct{}

func (numDom) lit(s string) (interface{}, bool) {
	if strings.HasSuffix(s, "i") {
		return nil, false
	}
	if strings.HasPrefix(s, "0x") {
		v, err := strconv.ParseInt(s[2:], 16, 64)
		return float64(v), err == nil
	}
	v, err := strconv.ParseFloat(s, 64)
	return v, err == nil
}
func (numDom) bin(op string, a, b interface{}) (interface{}, error) {
	x, y := a.(float64), b.(float64)
	switch op {
	case "+":
		return x + y, nil
	case "-":
		return x - y, nil
	case "*":
		return x * y, nil
	case "/":
		return x / y, nil
	case "%":
		return math.Mod(x, y), nil
	}
	return nil, fmt.Errorf("?")
}
func (numDom) neg(a interface{}) interface{} { return -a.(float64) }
func (numDom) ident(n string) (interface{}, bool) {
	switch n {
	case "e":
		return math.E, true
	case "pi":
		return math.Pi, true
	case "phi":
		return math.Phi, true
	case "Inf":
		return math.Inf(1), true
	case "NaN":
		return math.NaN(), true
	}
	return nil, false
}

func f1(f func(float64) float64) func([]interface{}) (interface{}, error) {
	return func(a []interface{}) (interface{}, error) { return f(a[0].(float64)), nil }
}
func f2(f func(a, b float64) float64) func([]interface{}) (interface{}, error) {
	return func(a []interface{}) (interface{}, error) { return f(a[0].(float64), a[1].(float64)), nil }
}

var numFns = map[string]func() (int, func([]interface{}) (interface{}, error)){
	"abs":   func() (int, func([]interface{}) (interface{}, error)) { return 1, f1(math.Abs) },
	"sqrt":  func() (int, func([]interface{}) (interface{}, error)) { return 1, f1(math.Sqrt) },
	"floor": func() (int, func([]interface{}) (interface{}, error)) { return 1, f1(math.Floor) },
	"trunc": func() (int, func([]interface{}) (interface{}, error)) { return 1, f1(math.Trunc) },
	"pow":   func() (int, func([]interface{}) (interface{}, error)) { return 2, f2(math.Pow) },
	"hypot": func() (int, func([]interface{}) (interface{}, error)) { return 2, f2(math.Hypot) },
	"dim":   func() (int, func([]interface{}) (interface{}, error)) { return 2, f2(math.Dim) },
	"ldexp": func() (int, func([]interface{}) (interface{}, error)) {
		return 2, f2(func(a, b float64) float64 { return math.Ldexp(a, int(b)) })
	},
	"max": func() (int, func([]interface{}) (interface{}, error)) {
		return -1, func(a []interface{}) (interface{}, error) {
			if len(a) == 0 {
				return 0.0, nil
			}
			m := a[0].(float64)
			for _, x := range a[1:] {
				if x.(float64) > m {
					m = x.(float64)
				}
			}
			return m, nil
		}
	},
	"min": func() (int, func([]interface{}) (interface{}, error)) {
		return -1, func(a []interface{}) (interface{}, error) {
			if len(a) == 0 {
				return 0.0, nil
			}
			m := a[0].(float64)
			for _, x := range a[1:] {
				if x.(float64) < m {
					m = x.(float64)
				}
			}
			return m, nil
		}
	},
}

func (numDom) fn(n string) (int, func([]interface{}) (interface{}, error)) {
	switch n {
	case "hf":
		return 1, func(a []interface{}) (interface{}, error) { return a[0].(float64) + 1, nil }
	case "hint":
		return 1, func(a []interface{}) (interface{}, error) { return float64(int(a[0].(float64))), nil }
	case "inf": // the sign of the argument decides
		return 1, f1(func(a float64) float64 {
			if a < 0 {
				return math.Inf(-1)
			}
			return math.Inf(1)
		})
	case "hv":
		return -1, func(a []interface{}) (interface{}, error) {
			s := 0.0
			for _, x := range a {
				s += x.(float64)
			}
			return s, nil
		}
	}
	if f, ok := numFns[n]; ok {
		return f()
	}
	if f, ok := numStd1[n]; ok {
		return 1, f1(f)
	}
	if f, ok := numStd2[n]; ok {
		return 2, f2(f)
	}
	if f, ok := kindConv[n]; ok {
		return 1, f1(f)
	}
	switch n {
	case "NaN":
		return 0, func(a []interface{}) (interface{}, error) { return math.NaN(), nil }
	case "hstr":
		return 1, errUnsupRet
	case "hvv":
		return -3, func(a []interface{}) (interface{}, error) {
			return a[0].(float64) - a[1].(float64) + 10*float64(len(a)-2), nil
		}
	}
	return 0, nil
}

func errUnsupRet(a []interface{}) (interface{}, error) {
	return nil, fmt.Errorf("unsupported return type")
}

var numStd1 = map[string]func(float64) float64{
	"acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh, "atan": math.Atan, "atanh": math.Atanh,
	"cbrt": math.Cbrt, "ceil": math.Ceil, "cos": math.Cos, "cosh": math.Cosh, "erf": math.Erf, "erfc": math.Erfc,
	"exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "gamma": math.Gamma, "j0": math.J0, "j1": math.J1,
	"ln": math.Log, "log": math.Log, "log10": math.Log10, "log1p": math.Log1p, "log2": math.Log2, "logb": math.Logb,
	"sin": math.Sin, "sinh": math.Sinh, "tan": math.Tan, "tanh": math.Tanh, "y0": math.Y0, "y1": math.Y1,
	"pow10": func(a float64) float64 { return math.Pow10(int(a)) },
}

var numStd2 = map[string]func(a, b float64) float64{
	"atan2": math.Atan2, "copysign": math.Copysign, "mod": math.Mod, "nextafter": math.Nextafter, "remainder": math.Remainder,
}

var cplxStd = map[string]func(complex128) complex128{
	"acos": cmplx.Acos, "acosh": cmplx.Acosh, "asin": cmplx.Asin, "asinh": cmplx.Asinh, "atan": cmplx.Atan, "atanh": cmplx.Atanh,
	"cos": cmplx.Cos, "cosh": cmplx.Cosh, "cot": cmplx.Cot, "exp": cmplx.Exp, "log": cmplx.Log, "log10": cmplx.Log10,
	"sin": cmplx.Sin, "sinh": cmplx.Sinh, "sqrt": cmplx.Sqrt, "tan": cmplx.Tan, "tanh": cmplx.Tanh,
	"phase": func(a complex128) complex128 { return complex(cmplx.Phase(a), 0) },
}

type cplxDom struct{}

func (cplxDom) lit(s string) (interface{}, bool) {
	if strings.HasSuffix(s, "i") {
		v, err := strconv.ParseFloat(s[:len(s)-1], 64)
		return complex(0, v), err == nil
	}
	v, ok := numDom{}.lit(s)
	if !ok {
		return nil, false
	}
	return complex(v.(float64), 0), true
}
func (cplxDom) bin(op string, a, b interface{}) (interface{}, error) {
	x, y := a.(complex128), b.(complex128)
	switch op {
	case "+":
		return x + y, nil
	case "-":
		return x - y, nil
	case "*":
		return x * y, nil
	case "/":
		return x / y, nil
	}
	return nil, fmt.Errorf("?")
}
func (cplxDom) neg(a interface{}) interface{}      { return -a.(complex128) }
func (cplxDom) ident(n string) (interface{}, bool) { return nil, false }
func (cplxDom) fn(n string) (int, func([]interface{}) (interface{}, error)) {
	one := func(f func(complex128) complex128) (int, func([]interface{}) (interface{}, error)) {
		return 1, func(a []interface{}) (interface{}, error) { return f(a[0].(complex128)), nil }
	}
	switch n {
	case "hf":
		return one(func(x complex128) complex128 { return x + 1 })
	case "hint":
		return one(func(x complex128) complex128 { return complex(float64(int(real(x))), 0) })
	case "real":
		return one(func(x complex128) complex128 { return complex(real(x), 0) })
	case "imag":
		return one(func(x complex128) complex128 { return complex(imag(x), 0) })
	case "conj":
		return one(cmplx.Conj)
	case "abs":
		return one(func(x complex128) complex128 { return complex(cmplx.Abs(x), 0) })
	case "rect":
		return 2, func(a []interface{}) (interface{}, error) {
			x, y := a[0].(complex128), a[1].(complex128)
			if imag(x) != 0 || imag(y) != 0 {
				return nil, fmt.Errorf("function `rect` argument type")
			}
			return cmplx.Rect(real(x), real(y)), nil
		}
	case "pow":
		return 2, func(a []interface{}) (interface{}, error) {
			return cmplx.Pow(a[0].(complex128), a[1].(complex128)), nil
		}
	case "NaN":
		return 0, func(a []interface{}) (interface{}, error) { return cmplx.NaN(), nil }
	case "inf":
		return 0, func(a []interface{}) (interface{}, error) { return cmplx.Inf(), nil }
	case "hc64":
		return one(func(x complex128) complex128 { return complex128(complex64(x)) })
	case "hstr":
		return 1, errUnsupRet
	case "hvv":
		return -3, func(a []interface{}) (interface{}, error) {
			return a[0].(complex128) - a[1].(complex128) + complex(10*float64(len(a)-2), 0), nil
		}
	case "complex":
		return 2, func(a []interface{}) (interface{}, error) {
			x, y := a[0].(complex128), a[1].(complex128)
			if imag(x) != 0 || imag(y) != 0 {
				return nil, fmt.Errorf("function `complex` argument type")
			}
			return complex(real(x), real(y)), nil
		}
	case "hv":
		return -1, func(a []interface{}) (interface{}, error) {
			s := complex(0, 0)
			for _, x := range a {
				s += x.(complex128)
			}
			return s, nil
		}
	}
	if f, ok := cplxStd[n]; ok {
		return one(f)
	}
	if f, ok := kindConv[n]; ok {
		return one(func(x complex128) complex128 { return complex(f(real(x)), 0) })
	}
	return 0, nil
}

type ratDom struct{}

func (ratDom) lit(s string) (interface{}, bool) {
	if strings.ContainsAny(s, ".ix") {
		return nil, false
	}
	return new(big.Rat).SetString(s)
}
func (ratDom) bin(op string, a, b interface{}) (interface{}, error) {
	x, y := a.(*big.Rat), b.(*big.Rat)
	switch op {
	case "+":
		return new(big.Rat).Add(x, y), nil
	case "-":
		return new(big.Rat).Sub(x, y), nil
	case "*":
		return new(big.Rat).Mul(x, y), nil
	case "/":
		if y.Sign() == 0 {
			return nil, fmt.Errorf("division by zero")
		}
		return new(big.Rat).Quo(x, y), nil
	}
	return nil, fmt.Errorf("?")
}
func (ratDom) neg(a interface{}) interface{}      { return new(big.Rat).Neg(a.(*big.Rat)) }
func (ratDom) ident(n string) (interface{}, bool) { return nil, false }
func (ratDom) fn(n string) (int, func([]interface{}) (interface{}, error)) {
	pick := func(sign int) func(a []interface{}) (interface{}, error) {
		return func(a []interface{}) (interface{}, error) {
			if len(a) == 0 {
				return new(big.Rat), nil
			}
			m := a[0].(*big.Rat)
			for _, x := range a[1:] {
				if x.(*big.Rat).Cmp(m)*sign > 0 {
					m = x.(*big.Rat)
				}
			}
			return new(big.Rat).Set(m), nil
		}
	}
	switch n {
	case "hf":
		return 1, func(a []interface{}) (interface{}, error) {
			return new(big.Rat).Add(a[0].(*big.Rat), big.NewRat(1, 1)), nil
		}
	case "abs":
		return 1, func(a []interface{}) (interface{}, error) { return new(big.Rat).Abs(a[0].(*big.Rat)), nil }
	case "num":
		return 1, func(a []interface{}) (interface{}, error) { return new(big.Rat).SetInt(a[0].(*big.Rat).Num()), nil }
	case "denom":
		return 1, func(a []interface{}) (interface{}, error) {
			return new(big.Rat).SetInt(a[0].(*big.Rat).Denom()), nil
		}
	case "inv":
		return 1, func(a []interface{}) (interface{}, error) {
			if a[0].(*big.Rat).Sign() == 0 {
				return nil, fmt.Errorf("division by zero")
			}
			return new(big.Rat).Inv(a[0].(*big.Rat)), nil
		}
	case "hk":
		return 1, func(a []interface{}) (interface{}, error) { return big.NewRat(7, 2), nil }
	case "hstr":
		return 1, errUnsupRet
	case "hvv":
		return -3, func(a []interface{}) (interface{}, error) {
			r := new(big.Rat).Sub(a[0].(*big.Rat), a[1].(*big.Rat))
			return r.Add(r, big.NewRat(int64(10*(len(a)-2)), 1)), nil
		}
	case "max":
		return -1, pick(1)
	case "min":
		return -1, pick(-1)
	case "hv":
		return -1, func(a []interface{}) (interface{}, error) {
			s := new(big.Rat)
			for _, x := range a {
				s.Add(s, x.(*big.Rat))
			}
			return s, nil
		}
	}
	return 0, nil
}

// mFail is the failure the model expects.
type mFail struct {
	cause string // must be contained in the text of the failure
	other bool   // the other-typed panic value, unchanged
	inj   bool   // injected error: identity must survive
	tok   int    // index of the token where the failing callback's match began
}

type calcModel struct {
	kind string
	d    domain
	wrap bool
	f    *Fault
	n    int
	tok  int // next token index
	toks []string
	all  bool // only the tokens are wanted: nothing fails
}

func (m *calcModel) hit(canRet bool, tok int) {
	i := m.n
	m.n++
	if m.f == nil || m.f.At < 0 || i != m.f.At {
		return
	}
	switch m.f.Kind {
	case "ret":
		panic(&mFail{cause: causeErr, inj: true, tok: tok})
	case "err":
		panic(&mFail{cause: causeErr, inj: true, tok: tok})
	case "other":
		panic(&mFail{other: true, tok: tok})
	default:
		panic(&mFail{cause: causeStr, tok: tok})
	}
}

func (m *calcModel) mark(canRet bool, tok int) {
	if m.wrap {
		m.hit(canRet, tok)
	}
}

func (m *calcModel) emit(t string) int {
	m.toks = append(m.toks, t)
	return len(m.toks) - 1
}

var precOf = map[string]int{"+": 1, "-": 1, "*": 2, "/": 2, "%": 2}

// eval computes the value and emits the tokens in one walk; prec is the
// precedence the context requires.
func (m *calcModel) eval(e *cN, prec int) interface{} {
	if e == nil {
		e = &cN{K: "n", V: "1"}
	}
	switch e.K {
	case "b":
		p := precOf[e.V]
		if m.kind != "number" && e.V == "%" {
			p = 0
		}
		if p == 0 {
			return m.eval(e.A, prec)
		}
		if p < prec {
			m.emit("(")
			v := m.eval(e, 0)
			m.emit(")")
			return v
		}
		a := m.eval(e.A, p)
		m.emit(e.V)
		t := len(m.toks)
		b := m.eval(e.B, p+1)
		m.mark(false, t)
		v, err := m.d.bin(e.V, a, b)
		if err != nil {
			panic(&mFail{cause: err.Error(), tok: t})
		}
		return v
	case "neg":
		m.emit("-")
		t := len(m.toks)
		v := m.eval(e.A, 3)
		m.mark(false, t)
		return m.d.neg(v)
	case "pos":
		m.emit("+")
		return m.eval(e.A, 3)
	case "p":
		m.emit("(")
		v := m.eval(e.A, 0)
		m.emit(")")
		return v
	case "i":
		if v, ok := m.d.ident(e.V); ok || e.V == "undef1" {
			if m.kind != "number" {
				return m.eval(&cN{K: "n", V: "2"}, prec)
			}
			t := m.emit(e.V)
			m.mark(false, t)
			if !ok {
				if m.all {
					return 0.0
				}
				panic(&mFail{cause: "undefined symbol: " + e.V, tok: t})
			}
			return v
		}
		return m.eval(&cN{K: "n", V: "3"}, prec)
	case "c":
		t := m.emit(e.V)
		m.emit("(")
		var args []interface{}
		at := len(m.toks)
		for i, x := range e.As {
			if i > 0 {
				m.emit(",")
			}
			args = append(args, m.eval(x, 0))
		}
		if len(e.As) == 0 {
			at = 1 << 30 // matches nothing: no location
		}
		m.mark(false, at)
		m.emit(")")
		m.mark(true, t)
		if m.all {
			v, _ := m.d.lit("1")
			return v
		}
		if e.V == "hbad" && len(args) == 0 {
			m.hit(false, t)
			panic(&mFail{cause: "unsupported return type", tok: t})
		}
		ar, f := m.d.fn(e.V)
		if e.V == "hbad" {
			panic(&mFail{cause: "hbad", tok: t})
		}
		if f == nil {
			panic(&mFail{cause: e.V, tok: t})
		}
		if ar >= 0 && ar != len(args) || ar < 0 && len(args) < -1-ar {
			panic(&mFail{cause: e.V, tok: t})
		}
		if isHostFn(e.V) {
			m.hit(false, t)
		}
		v, err := stdCall(f, args)
		if err != nil {
			panic(&mFail{cause: err.Error(), tok: t})
		}
		return v
	}
	v, ok := m.d.lit(e.V)
	s := e.V
	if !ok {
		s = "1"
		v, _ = m.d.lit(s)
	}
	t := m.emit(s)
	m.mark(false, t)
	return v
}

// stdCall calls a function of the model; functions of the standard library may
// panic themselves (cmplx.Pow(0, NaN) does).
func stdCall(f func([]interface{}) (interface{}, error), args []interface{}) (v interface{}, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case *mFail:
			panic(e)
		default:
			err = fmt.Errorf("%v", e)
		}
	}()
	return f(args)
}

// exprTokens lists the tokens of an expression.
func exprTokens(kind string, e *cN) []string {
	m := &calcModel{kind: kind, d: tokDom{domOf(kind)}, all: true}
	m.eval(e, 0)
	return m.toks
}

// tokDom never fails.
type tokDom struct{ domain }

func (t tokDom) bin(op string, a, b interface{}) (interface{}, error) { return a, nil }
func (t tokDom) fn(n string) (int, func([]interface{}) (interface{}, error)) {
	return -1, func(a []interface{}) (interface{}, error) { v, _ := t.domain.lit("1"); return v, nil }
}

func renderToks(toks []string, lay int) (text string, lines []int, offs []int) {
	r := NewR("lay", lay)
	var b strings.Builder
	line := 1
	tight := lay != 0 && r.P(25)
	sep := func(close bool) {
		s := " "
		if lay != 0 {
			s = r.Str(" ", "\n", "\t", " \n\n", " /*c*/ ", " //x é\n", "\r\n", " /*\n*/ ", "  ", " ", "#y\n", " /**//*\n\n*/\t")
		}
		if close && tight {
			s = ""
		}
		line += strings.Count(s, "\n")
		b.WriteString(s)
	}
	if lay != 0 && r.P(4) {
		b.WriteString("\uFEFF")
	}
	if lay != 0 && r.P(30) {
		sep(false)
	}
	for i, t := range toks {
		if i > 0 {
			sep(bracket(toks[i-1]) || bracket(t))
		}
		lines = append(lines, line)
		offs = append(offs, b.Len())
		b.WriteString(t)
		line += strings.Count(t, "\n")
	}
	if lay != 0 && r.P(30) {
		sep(false)
	}
	return b.String(), lines, offs
}

// bracket says whether a token needs no space around it.
func bracket(t string) bool { return len(t) == 1 && strings.Contains("()[]{},", t) }

func domOf(kind string) domain {
	switch kind {
	case "cmplx":
		return cplxDom{}
	case "rat":
		return ratDom{}
	}
	return numDom{}
}

func valStr(v interface{}) string {
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) {
			return "NaN"
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case complex128:
		return valStr(real(x)) + "|" + valStr(imag(x))
	case *big.Rat:
		if x == nil {
			return "<nil>"
		}
		return x.RatString()
	}
	return fmt.Sprintf("%T %v", v, v)
}

// ---- run

func failText(err error, pan interface{}) string {
	if pan != nil {
		if e, ok := pan.(error); ok {
			return "panic " + fmt.Sprintf("%T", pan) + " " + safeErr(e)
		}
		return fmt.Sprintf("panic %T %v", pan, pan)
	}
	if err != nil {
		return "error " + fmt.Sprintf("%T", err) + " " + safeErr(err)
	}
	return "ok"
}

func safeErr(e error) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("<Error() panicked: %v>", x)
		}
	}()
	return e.Error()
}

// checkFail compares a failure with what the model expects.
func checkFail(c *Ctx, class, what string, want *mFail, err error, pan interface{}) {
	if want.other {
		if pan != interface{}(otherPanic) {
			c.Viol(class, "%s: the panic value of the host call was changed: %s", what, failText(err, pan))
		}
		return
	}
	var e error
	if pan != nil {
		e, _ = pan.(error)
	} else {
		e = err
	}
	if e == nil {
		c.Viol(class, "%s: failure with cause %q was not reported: %s", what, want.cause, failText(err, pan))
		return
	}
	if !strings.Contains(safeErr(e), want.cause) {
		c.Viol(class, "%s: cause %q lost: %s", what, want.cause, failText(err, pan))
		return
	}
	if want.inj {
		if re, ok := e.(*interpreter.RuntimeError); ok {
			if re.Err != errInjected {
				c.Viol(class, "%s: the original error value is not carried: %#v", what, re.Err)
			}
		} else if e != errInjected {
			c.Viol(class, "%s: the original error value is not carried: %T", what, e)
		}
	}
}

func runCalc(c *Ctx, pl interface{}) {
	p := pl.(*calcPlan)
	if len(p.Kinds) == 0 {
		return
	}
	var engs []*calcEng
	for i, k := range p.Kinds {
		e, err := newCalc(k, i < len(p.Wrap) && p.Wrap[i])
		if err != nil {
			c.Viol("new-failed", "%s: %v", k, err)
			return
		}
		engs = append(engs, e)
	}
	type given struct {
		v    interface{}
		s    string
		op   int
		muts bool
	}
	var handed []given
	failedBefore := false
	pending := make([]bool, len(engs)) // undrained leftovers of a failure
	for oi, op := range p.Ops {
		times := op.Times
		if times < 1 {
			times = 1
		}
		if times > 40 {
			times = 40
		}
		for rep := 0; rep < times; rep++ {
			if op.Eng < 0 || op.Eng >= len(engs) {
				continue
			}
			eng := engs[op.Eng]
			d := domOf(eng.kind)
			toks := exprTokens(eng.kind, op.E)
			modelled := true
			if op.Cut > 0 && op.Cut < len(toks) {
				toks = toks[:op.Cut]
				modelled = false
			}
			if op.Ins != "" {
				at := op.InsAt % (len(toks) + 1)
				if at < 0 {
					at = 0
				}
				toks = append(append(append([]string{}, toks[:at]...), op.Ins), toks[at:]...)
				modelled = false
			}
			text, lines, _ := renderToks(toks, op.Lay)
			if op.Raw != "" {
				text, modelled = op.Raw, false
			}
			what := fmt.Sprintf("op %d %s %q", oi, eng.kind, text)
			eval := func(e *calcEng) (error, interface{}, int, bool) {
				c.arm(op.Fault)
				err, pan := caught(func() error { return e.e.MatchExactly([]byte(text), op.File) })
				n, fired := c.fc.n, c.fc.fired
				c.disarm()
				return err, pan, n, fired
			}
			err, pan, _, fired := eval(eng)
			out := failText(err, pan)
			failed := out != "ok"
			c.Logf("%d e%d %s -> %s", oi, op.Eng, short(text, 80), out)
			if failed && !fired {
				c.Inc("fault_bad_text_or_call")
				c.NonTriv = true
			}
			var retv interface{}
			got := ""
			if !failed {
				v, ok := eng.ret()
				if !ok {
					c.Viol("no-value", "%s succeeded without a value", what)
				} else {
					got, retv = valStr(v), v
				}
				if v2, ok2 := eng.ret(); ok2 {
					c.Viol("leftover", "%s: a second value %s is left after the evaluation", what, valStr(v2))
				}
				pending[op.Eng] = false
				c.Logf("  = %s", got)
			} else if !op.Keep {
				eng.ret()
				if v2, ok2 := eng.ret(); ok2 {
					c.Viol("leftover", "%s: value %s is left after draining", what, valStr(v2))
				}
				pending[op.Eng] = false
			} else {
				pending[op.Eng] = true
			}
			if failedBefore {
				c.Inc("evaluation_after_failure")
				c.NonTriv = true
			}

			if modelled {
				m := &calcModel{kind: eng.kind, d: d, wrap: eng.wrap, f: op.Fault}
				var want interface{}
				fail := func() (f *mFail) {
					defer func() {
						if e := recover(); e != nil {
							f = e.(*mFail)
						}
					}()
					want = m.eval(op.E, 0)
					return nil
				}()
				if fail == nil {
					if failed {
						c.Viol("wrong-outcome", "%s: should give %s, gave %s", what, valStr(want), out)
					} else if got != valStr(want) {
						c.Viol("wrong-value", "%s: should give %s, gave %s", what, valStr(want), got)
					}
				} else if !failed {
					c.Viol("failure-lost", "%s: should fail with %q, gave %s", what, fail.cause, got)
				} else {
					checkFail(c, "cause-lost", what, fail, err, pan)
					checkLine(c, what, pan, op.File, lines, fail.tok)
				}
			} else {
				// a text that is not modelled: a new engine decides
				fresh, ferr := newCalc(eng.kind, eng.wrap)
				if ferr != nil {
					c.Viol("new-failed", "%v", ferr)
					return
				}
				err2, pan2, _, _ := eval(fresh)
				out2 := failText(err2, pan2)
				if out2 != out {
					c.Viol("differs-from-new", "%s: gave %s, a new engine gives %s", what, out, out2)
				} else if out2 == "ok" {
					if v2, ok2 := fresh.ret(); ok2 && valStr(v2) != got {
						c.Viol("differs-from-new", "%s: gave %s, a new engine gives %s", what, got, valStr(v2))
					}
				}
			}
			failedBefore = failedBefore || failed
			if c.keptRat.Cmp(big.NewRat(7, 2)) != 0 {
				c.Viol("value-changed", "%s: the value 7/2 that the host function keeps became %s", what, c.keptRat.RatString())
				c.keptRat.SetFrac64(7, 2)
			}
			if retv != nil && retv != interface{}(c.keptRat) {
				g := given{v: retv, s: got, op: oi}
				if r, ok := retv.(*big.Rat); ok && op.Mutate && r != nil {
					r.SetInt64(987654321)
					c.Inc("caller_changed_its_value")
					g.muts = true
				}
				handed = append(handed, g)
			}
			c.keepErr(err, pan)
			c.State(eng.kind, failed, fired, pending, oi)
		}
	}
	for _, g := range handed {
		if !g.muts && valStr(g.v) != g.s {
			c.Viol("value-changed", "the value %s given to the caller at op %d changed to %s", g.s, g.op, valStr(g.v))
		}
	}
	c.recheckErrs()
}

// ---- error values, P13

type keptErr struct {
	e error
	s string
}

type errKeeper struct{ list []keptErr }

// keepErr remembers what an error said.
func (c *Ctx) keepErr(err error, pan interface{}) {
	k, ok := c.sub.(*errKeeper)
	if !ok {
		k = &errKeeper{}
		c.sub = k
	}
	if pan != nil {
		err, _ = pan.(error)
	}
	if err == nil || len(k.list) > 60 {
		return
	}
	s := safeErr(err)
	if strings.HasPrefix(s, "<Error() panicked") {
		c.Viol("error-unprintable", "%T: %s", err, s)
	}
	k.list = append(k.list, keptErr{err, s})
}

func (c *Ctx) recheckErrs() {
	if k, ok := c.sub.(*errKeeper); ok {
		for _, x := range k.list {
			c.Inc("errors_printed_again")
			if s := safeErr(x.e); s != x.s {
				c.Viol("error-changed", "an error that said %q says %q later", x.s, s)
			}
		}
	}
}

// checkLine checks the place a runtime error names.
func checkLine(c *Ctx, what string, pan interface{}, file string, lines []int, tok int) {
	re, ok := pan.(*interpreter.RuntimeError)
	if !ok || tok >= len(lines) {
		return
	}
	want := fmt.Sprintf("line %d: ", lines[tok])
	if file != "" {
		want = fmt.Sprintf("%s:%d: ", file, lines[tok])
	}
	c.Inc("locations_checked")
	if s := safeErr(re); !strings.HasPrefix(s, want) {
		c.Viol("wrong-location", "%s: the failure is at %q, reported %q", what, want, s)
	}
}

var _ = tpl.EOF

// ---- generation

var calcFnNames = map[string][]string{
	"number": {"abs", "sqrt", "floor", "trunc", "pow", "hypot", "dim", "ldexp", "max", "min", "hf", "hv", "hint", "hvv", "hstr", "*kind", "*kind", "*std", "*std", "hbad", "nosuch"},
	"cmplx":  {"real", "imag", "conj", "abs", "complex", "hf", "hv", "hint", "hvv", "hstr", "*kind", "*kind", "*std", "*std", "hbad", "nosuch"},
	"rat":    {"abs", "num", "denom", "inv", "max", "min", "hf", "hv", "hvv", "hk", "hk", "hstr", "hbad", "nosuch"},
}

var stdNames = func() map[string][]string {
	m := map[string][]string{"number": {"NaN", "inf"}, "cmplx": {"rect", "rect", "pow", "NaN", "inf"}}
	for k := range numStd1 {
		m["number"] = append(m["number"], k)
	}
	for k := range numStd2 {
		m["number"] = append(m["number"], k)
	}
	for k := range cplxStd {
		m["cmplx"] = append(m["cmplx"], k)
	}
	for _, l := range m {
		sort.Strings(l)
	}
	return m
}()

func genCalcExpr(r *R, kind string, depth int) *cN {
	if depth <= 0 || r.P(20) {
		switch kind {
		case "number":
			if r.P(15) {
				return &cN{K: "i", V: r.Str("e", "pi", "phi", "Inf", "NaN", "pi", "e", "undef1")}
			}
			return &cN{K: "n", V: r.Str("0", "1", "2", "3.5", "12", ".25", "1e3", "0x1F", "7.", "100000000000000000000.5")}
		case "cmplx":
			return &cN{K: "n", V: r.Str("0", "1", "2", "3.5", "2i", "1.5i", "1e2", "12")}
		default:
			return &cN{K: "n", V: r.Str("0", "1", "2", "3", "12", "7", "1000000000000000000000000000007", "64")}
		}
	}
	switch r.W(50, 10, 4, 12, 30) {
	case 0:
		ops := []string{"+", "-", "*", "/"}
		if kind == "number" {
			ops = append(ops, "%")
		}
		return &cN{K: "b", V: r.Str(ops...), A: genCalcExpr(r, kind, depth-1), B: genCalcExpr(r, kind, depth-1)}
	case 1:
		return &cN{K: "neg", A: genCalcExpr(r, kind, depth-1)}
	case 2:
		return &cN{K: "pos", A: genCalcExpr(r, kind, depth-1)}
	case 3:
		return &cN{K: "p", A: genCalcExpr(r, kind, depth-1)}
	}
	names := calcFnNames[kind]
	n := names[r.N(len(names))]
	switch n {
	case "*kind":
		n = r.Str("hi8", "hi16", "hi32", "hi64", "hu", "hu8", "hu16", "hu32", "hu64", "hup", "hf32", "hf64")
		if kind == "cmplx" && r.P(10) {
			n = "hc64"
		}
	case "*std":
		n = stdNames[kind][r.N(len(stdNames[kind]))]
	}
	if (n == "hbad" || n == "hstr" || n == "nosuch") && r.P(70) {
		n = "hf"
	}
	ar := r.N(4)
	if a, f := domOf(kind).fn(n); f != nil && a >= 0 && r.P(92) {
		ar = a
	} else if n == "hvv" && r.P(80) {
		ar = r.In(2, 4)
	}
	if n == "hbad" {
		ar = 0
	}
	e := &cN{K: "c", V: n}
	for i := 0; i < ar; i++ {
		e.As = append(e.As, genCalcExpr(r, kind, depth-1))
	}
	return e
}

func genCalc(r *R, o GenOpt) interface{} {
	p := &calcPlan{}
	ne := r.W(0, 60, 30, 10)
	for i := 0; i < ne; i++ {
		p.Kinds = append(p.Kinds, r.Str("number", "cmplx", "rat"))
		p.Wrap = append(p.Wrap, r.P(70))
	}
	faulty := r.N(4) // swarm: 0 none, 1 few, 2 half, 3 most
	corrupt := r.N(3)
	layout := r.P(60)
	nops := r.In(2, 9)
	if o.Big {
		nops = r.In(2, 24)
	}
	for i := 0; i < nops; i++ {
		op := calcOp{Eng: r.N(ne)}
		op.E = genCalcExpr(r, p.Kinds[op.Eng], r.In(1, 4))
		if r.P([]int{0, 15, 45, 75}[faulty]) {
			n := 12
			if r.P(50) {
				n = 5
			}
			op.Fault = genFault(r, n)
		}
		if r.P([]int{0, 20, 45}[corrupt]) {
			switch r.N(3) {
			case 0:
				op.Cut = r.In(1, 8)
			case 1:
				op.Ins = r.Str("`", "'", "\"", "#", "@", "(", ")", ",", "1", "+", "x(", "*", "0x", "/*", "1e", "$")
				op.InsAt = r.N(12)
			case 2:
				op.Raw = r.Str("", " ", "1 +", "max(1,2", "1 2 3", "((((1", "hf(1,hf(2),)", "-", "abs", "f(", "1 + (2 * (3 - ", "'a'", "max(1,2,3", "\x00", "1 + \"", "hv(1,2,3,4) )", "1 $ 2")
			}
		}
		if layout {
			op.Lay = r.N(1000)
		}
		op.Keep = r.P(30)
		op.Mutate = r.P(30)
		if r.P(40) {
			op.File = r.Str("calc.txt", "dir/a.q")
		}
		if r.P(5) {
			op.Times = r.In(2, 30)
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

var calcWorld = regWorld(&World{Name: "calc", Gen: genCalc, New: func() interface{} { return new(calcPlan) }, Run: runCalc, Limit: 40000000})
