package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"verif.local/sim/simrt"
)

// R is the only source of randomness: splitmix64.
type R struct{ s uint64 }

func NewR(parts ...interface{}) *R {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return &R{h.Sum64()}
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is a number in [lo,hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with a probability of pct percent.
func (r *R) P(pct int) bool { return r.N(100) < pct }

func (r *R) Str(list ...string) string { return list[r.N(len(list))] }

// W picks an index with the given weights.
func (r *R) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Viol is one broken expectation. Sig identifies the specific history or call
// site that fails, for the list of known findings.
type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Sig    string `json:"sig,omitempty"`
}

// Ctx belongs to one simulated task (or one run, for worlds without tasks).
type Ctx struct {
	Viols   []Viol
	Log     []string // observed history
	Cnt     map[string]int
	NonTriv bool
	States  []uint64
	fc      faultCtl
	onEnd   func(exited bool, code int) // judges how the process ended
	task    int
	sub     interface{}
	ql      interface{}
	keptRat *big.Rat // what the host function hk gives
}

func NewCtx() *Ctx { return &Ctx{Cnt: map[string]int{}, keptRat: big.NewRat(7, 2)} }

func (c *Ctx) Logf(f string, a ...interface{}) {
	c.Log = append(c.Log, fmt.Sprintf(f, a...))
}

func (c *Ctx) Viol(class, f string, a ...interface{}) {
	if len(c.Viols) < 8 {
		c.Viols = append(c.Viols, Viol{Class: class, Detail: fmt.Sprintf(f, a...)})
	}
}

func (c *Ctx) ViolSig(class, sig, f string, a ...interface{}) {
	if len(c.Viols) < 8 {
		c.Viols = append(c.Viols, Viol{Class: class, Sig: sig, Detail: fmt.Sprintf(f, a...)})
	}
}

func (c *Ctx) Inc(k string) { c.Cnt[k]++ }

// State records a state of the system reached between two operations.
func (c *Ctx) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.States = append(c.States, h.Sum64())
}

func (c *Ctx) Digest() uint64 {
	h := fnv.New64a()
	for _, l := range c.Log {
		h.Write([]byte(l))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// World generates and executes the plans of one kind of simulation.
type World struct {
	Name string
	Gen  func(r *R, o GenOpt) interface{}
	New  func() interface{}
	// Run executes a plan. It is called inside a simulated task, unless Direct.
	Run    func(c *Ctx, plan interface{})
	Direct bool
	Limit  int // step budget

	// Shrinking: texts of plans may be cut anywhere; Valid says whether a
	// shrunk plan is one the generator could have made.
	Texts bool
	Valid func(plan interface{}) bool
}

// validPlan decodes and checks a plan the minimiser made.
func validPlan(world string, b []byte) bool {
	w := worlds[world]
	plan := w.New()
	if json.Unmarshal(b, plan) != nil {
		return false
	}
	return w.Valid == nil || w.Valid(plan)
}

// GenOpt says for which property a plan is generated.
type GenOpt struct {
	Prop string
	Big  bool // thorough tier: some plans are larger
}

// Prop is a claimed property.
type Prop struct {
	ID       string
	Worlds   []WorldUse
	Quick    int // runs
	Thorough int
	Race     bool
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	FaultKey []string // counters that are fault kinds
}

// WorldUse is a world with the share of runs it gets.
type WorldUse struct {
	W       *World
	Weight  int
	Classes map[string]bool // violation classes that belong to this property; nil: all
}

// PlanFile is what a run is made of: replaying it is exact.
type PlanFile struct {
	Property string          `json:"property"`
	World    string          `json:"world"`
	Index    int             `json:"index"`
	Seed     int64           `json:"seed"`
	Plan     json.RawMessage `json:"plan"`
}

// Replay is a violation with everything needed to see it again.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Detail   string     `json:"detail"`
	Seed     int64      `json:"seed"`
	Index    int        `json:"index"`
	Note     string     `json:"note,omitempty"`
	Plans    []PlanFile `json:"plans"` // executed in order in one process; the last one violates
	Log      []string   `json:"log,omitempty"`
	Shrunk   string     `json:"shrunk,omitempty"`
}

var worlds = map[string]*World{}
var props = map[string]*Prop{}

func regWorld(w *World) *World { worlds[w.Name] = w; return w }

// ---------------------------------------------------------------------------

// RunPlan executes one plan and returns what was seen.
func RunPlan(w *World, plan interface{}) (c *Ctx) {
	c = NewCtx()
	if w.Direct {
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Viol("escaped-panic", "%v", e)
				}
			}()
			w.Run(c, plan)
		}()
		return
	}
	limit := w.Limit
	if limit == 0 {
		limit = 3000000
	}
	ctxOf[0] = c
	if f := reflect.ValueOf(plan).Elem().FieldByName("Ops"); f.IsValid() && f.Len() > 30 {
		limit *= 4
	}
	res := simrt.Run(simrt.Config{Limit: limit}, []func(){func() { w.Run(c, plan) }})
	ctxOf[0] = nil
	c.Cnt["steps"] += res.Steps
	c.Cnt["map_orders_permuted"] += simrt.MapPerms
	if res.Panics[0] != nil {
		c.Viol("escaped-panic", "%v", res.Panics[0])
	}
	if c.onEnd != nil && !res.Over && res.Panics[0] == nil {
		c.onEnd(res.State[0] == 2, res.Code[0])
	} else if res.State[0] == 2 {
		c.Viol("unexpected-exit", "the process ended with status %d", res.Code[0])
	}
	if res.Over {
		c.Viol("no-progress", "not finished after %d statements", limit)
	}
	return
}

// ctxOf finds the context of the running task.
var ctxOf [32]*Ctx

//go:norace
func curCtx() *Ctx {
	i := simrt.Cur()
	if i < 0 {
		i = 0
	}
	return ctxOf[i]
}

// ---------------------------------------------------------------------------
// fault control

// Fault makes the At-th host call (counting from 0) of an operation fail.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // str, err, other, ret, rterr
}

type faultCtl struct {
	armed bool
	f     Fault
	n     int
	fired bool
	calls []string
}

type injErr struct{ s string }

func (e *injErr) Error() string { return e.s }

type otherVal struct{ N int }

// Other is the value of another type that host calls may panic with.
var otherPanic = otherVal{4711}

const causeStr = "injected string"
const causeErr = "injected error"

var errInjected error = &injErr{causeErr}

func (c *Ctx) arm(f *Fault) {
	c.fc = faultCtl{}
	if f != nil && f.At >= 0 {
		c.fc.armed = true
		c.fc.f = *f
	}
}

func (c *Ctx) disarm() { c.fc.armed = false }

// hit counts a host call and fails it if the plan says so. The result is an
// error the host call must return (only if canRet).
func (c *Ctx) hit(name string, canRet bool) error {
	i := c.fc.n
	c.fc.n++
	if !c.fc.armed || c.fc.fired || i != c.fc.f.At {
		return nil
	}
	c.fc.fired = true
	c.NonTriv = true
	k := c.fc.f.Kind
	if k == "ret" && !canRet {
		k = "err"
	}
	c.Inc("fault_host_" + k)
	switch k {
	case "ret":
		return errInjected
	case "err":
		panic(errInjected)
	case "other":
		panic(otherPanic)
	default:
		panic(causeStr)
	}
}

func genFault(r *R, n int, kinds ...string) *Fault {
	if len(kinds) == 0 {
		kinds = []string{"str", "err", "other", "ret"}
	}
	return &Fault{At: r.N(n), Kind: r.Str(kinds...)}
}

// ---------------------------------------------------------------------------

// caught runs f and returns its error and the value it panicked with.
func caught(f func() error) (err error, pan interface{}) {
	defer func() {
		if e := recover(); e != nil {
			pan = e
		}
	}()
	err = f()
	return
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", "\\n")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}
