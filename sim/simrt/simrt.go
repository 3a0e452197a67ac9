// Package simrt is the part of the simulator that instrumented code calls.
//
// Tasks are real goroutines, but exactly one of them runs at a time and only
// the simulator decides which: a task gives up control only inside Y (when the
// schedule says so), when it ends, when it blocks on a simulated lock, or when
// it exits the simulated process. Control is handed over by plain stores seen
// by spinning goroutines inside functions the race detector does not
// instrument, so a handover creates no happens-before edge: under -race, two
// tasks touching the same data without synchronisation of their own are
// reported although they never ran at the same time.
package simrt

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"
)

// Switch hands control to task To once the run has made At steps in all.
type Switch struct {
	At int `json:"at"`
	To int `json:"to"`
}

type task struct {
	state int // 0 ready, 1 done, 2 exited, 3 stuck
	code  int
}

var (
	active  bool
	cur     int
	steps   int
	nextAt  int
	limit   int
	sched   []Switch
	si      int
	tasks   []task
	maprnd  uint64
	mapon   bool
	switchN int
	trace   uint64
	lastSt  int32
	zombies int  // goroutines of ended processes, waiting in the grave
	dying   bool // they are unwound now, one at a time
	grave   chan struct{}
	buried  chan struct{}

	// MapPerms counts map iterations whose order was permuted.
	MapPerms int
	// OverBudget says that a task ran out of steps.
	overBudget bool
)

const mainTask = -1

var child bool // this process is a command under test

// A command under test has its step budget and map order in the environment.
func init() {
	n, err := strconv.Atoi(os.Getenv("VSIM_STEPS"))
	if err != nil || n <= 0 {
		return
	}
	child, active, cur, limit, nextAt = true, true, mainTask, n, n
	if seed, _ := strconv.ParseUint(os.Getenv("VSIM_MAPSEED"), 10, 64); seed != 0 {
		mapon, maprnd = true, seed
	}
}

// Y is called before every statement of the code under test.
//
//go:norace
//go:noinline
func Y(site int32) {
	if !active {
		if dying {
			runtime.Goexit()
		}
		return
	}
	steps++
	if steps < nextAt {
		return
	}
	slow(site)
}

//go:norace
func slow(site int32) {
	if cur == mainTask {
		if child && steps >= limit {
			fmt.Fprintln(os.Stderr, "simrt: not finished after", limit, "statements")
			os.Exit(97)
		}
		return
	}
	if steps >= limit {
		overBudget = true
		tasks[cur].state = 3
		leave(true)
		return
	}
	lastSt = site
	for si < len(sched) && sched[si].At <= steps {
		to := sched[si].To
		si++
		if to >= 0 && to < len(tasks) && to != cur && tasks[to].state == 0 {
			setNext()
			hand(to, site)
			return
		}
	}
	setNext()
}

//go:norace
func setNext() {
	nextAt = limit
	if si < len(sched) && sched[si].At < nextAt {
		nextAt = sched[si].At
	}
}

//go:norace
func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 33)
}

// hand passes control from the current task to another one and waits to get it back.
//
//go:norace
func hand(to int, site int32) {
	me := cur
	switchN++
	trace = mix(trace, uint64(me)<<48|uint64(to)<<32|uint64(uint32(site)))
	set(to)
	for get() != me {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func set(to int) { cur = to }

//go:norace
//go:noinline
func get() int { return cur }

// leave gives up control for good; park keeps the goroutine around until the
// run is over (a process that exited or hangs runs nothing any more, not even
// deferred calls). What it would still do then is cut short at its first
// statement, see bury.
//
//go:norace
func leave(park bool) {
	next := mainTask
	for i := range tasks {
		if tasks[i].state == 0 {
			next = i
			break
		}
	}
	trace = mix(trace, uint64(uint32(next)))
	if park {
		zombies++
	}
	g := grave
	set(next)
	if park {
		<-g
		runtime.Goexit()
	}
}

// bury unwinds the goroutines of the processes that ended in this run.
func bury() {
	n := graves()
	for i := 0; i < n; i++ {
		grave <- struct{}{}
		<-buried
	}
	setDying(false)
}

//go:norace
func graves() int {
	n := zombies
	zombies = 0
	if n > 0 {
		dying = true
	}
	return n
}

//go:norace
func setDying(b bool) { dying = b }

// Block gives up control until another task has run for a while: it is called
// by simulated locks that are held by another task. Reports false when no other
// task can run (a deadlock).
//
//go:norace
func Block() bool {
	if !active || cur == mainTask {
		return false
	}
	n := len(tasks)
	for d := 1; d < n; d++ {
		t := (cur + d) % n
		if tasks[t].state == 0 {
			steps++
			if steps >= limit {
				overBudget = true
				tasks[cur].state = 3
				leave(true)
			}
			hand(t, -2)
			return true
		}
	}
	overBudget = true
	tasks[cur].state = 3
	leave(true)
	return false
}

// Exit ends the simulated process of the current task.
//
//go:norace
func Exit(code int) {
	if !active || cur == mainTask {
		panic(fmt.Sprintf("simrt: exit(%d) outside a simulated process", code))
	}
	tasks[cur].state = 2
	tasks[cur].code = code
	leave(true)
}

// Cur is the running task, or -1.
//
//go:norace
//go:noinline
func Cur() int { return cur }

// Steps is the number of statements executed so far in this run.
//
//go:norace
//go:noinline
func Steps() int { return steps }

// Result describes one simulated run.
type Result struct {
	Steps    int
	Switches int
	Trace    uint64 // hash of (from, to, site) of every switch
	Over     bool   // some task ran out of steps or deadlocked
	State    []int  // per task: 1 done, 2 exited, 3 stuck
	Code     []int
	Panics   []interface{} // per task: value that escaped the task body
}

// Config of one run.
type Config struct {
	Sched   []Switch
	Limit   int
	MapSeed uint64 // nonzero: permute map iteration
}

// Run executes the tasks under the schedule and returns when all of them have
// ended, exited, or got stuck.
func Run(cfg Config, bodies []func()) *Result {
	res := &Result{State: make([]int, len(bodies)), Code: make([]int, len(bodies)), Panics: make([]interface{}, len(bodies))}
	start(cfg, len(bodies))
	var wg sync.WaitGroup
	for i, f := range bodies {
		wg.Add(1)
		go body(i, f, res, &wg)
	}
	go1()
	finished := finish(res)
	if finished == len(bodies) {
		wg.Wait() // orders the tasks' writes before our reads
	}
	bury()
	return res
}

//go:norace
func start(cfg Config, n int) {
	cur = mainTask
	steps, si, switchN, trace = 0, 0, 0, 0
	sched = cfg.Sched
	limit = cfg.Limit
	if limit == 0 {
		limit = 5000000
	}
	tasks = make([]task, n)
	mapon = cfg.MapSeed != 0
	maprnd = cfg.MapSeed
	overBudget = false
	zombies = 0
	grave = make(chan struct{})
	buried = make(chan struct{})
	MapPerms = 0
	setNext()
	active = true
}

//go:norace
func go1() {
	if len(tasks) == 0 {
		return
	}
	set(0)
	for get() != mainTask {
		runtime.Gosched()
	}
}

//go:norace
func finish(res *Result) int {
	active = false
	mapon = false
	n := 0
	for i := range tasks {
		res.State[i] = tasks[i].state
		res.Code[i] = tasks[i].code
		if tasks[i].state == 1 {
			n++
		}
	}
	res.Steps, res.Switches, res.Trace, res.Over = steps, switchN, trace, overBudget
	return n
}

//go:norace
func await(i int) {
	for get() != i {
		runtime.Gosched()
	}
}

//go:norace
func ended(i int) {
	tasks[i].state = 1
	leave(false)
}

func body(i int, f func(), res *Result, wg *sync.WaitGroup) {
	b, normal := buried, false
	defer func() {
		if !normal {
			b <- struct{}{}
		}
	}()
	await(i)
	func() {
		defer func() {
			if e := recover(); e != nil {
				res.Panics[i] = e
			}
		}()
		f()
	}()
	wg.Done()
	normal = true
	ended(i)
}

// SetMapSeed changes the map order seed in the middle of a run or outside one.
//
//go:norace
func SetMapSeed(s uint64) { mapon, maprnd = s != 0, s }

// Iter visits the entries of a map in an order the simulated runtime picks,
// leaving out those that are gone when their turn comes.
type Iter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// NewIter starts an iteration over m.
func NewIter(m interface{}) *Iter { return newIter(reflect.ValueOf(m)) }

func newIter(v reflect.Value) *Iter { return &Iter{m: v, keys: ReflMapKeys(v), i: -1} }

// Next moves to the next entry.
func (it *Iter) Next() bool {
	for {
		it.i++
		if it.i >= len(it.keys) {
			return false
		}
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
}

// Key is the key of the current entry.
func (it *Iter) Key() interface{} { return it.keys[it.i].Interface() }

// Value is the value of the current entry.
func (it *Iter) Value() interface{} { return it.m.MapIndex(it.keys[it.i]).Interface() }

// ReflMapKeys stands in for reflect.Value.MapKeys.
func ReflMapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	sort.SliceStable(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	perm(keys)
	return keys
}

// ReflIter stands in for reflect.MapIter.
type ReflIter struct{ it *Iter }

// ReflMapRange stands in for reflect.Value.MapRange.
func ReflMapRange(v reflect.Value) *ReflIter { return &ReflIter{newIter(v)} }

func (r *ReflIter) Next() bool           { return r.it.Next() }
func (r *ReflIter) Key() reflect.Value   { return r.it.keys[r.it.i] }
func (r *ReflIter) Value() reflect.Value { return r.it.m.MapIndex(r.it.keys[r.it.i]) }

//go:norace
func perm(keys []reflect.Value) {
	if !mapon || len(keys) < 2 {
		return
	}
	MapPerms++
	for i := len(keys) - 1; i > 0; i-- {
		maprnd = maprnd*6364136223846793005 + 1442695040888963407
		j := int((maprnd >> 33) % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return fmt.Sprintf("%T %v", a.Interface(), a) < fmt.Sprintf("%T %v", b.Interface(), b)
}
