package main

// World "conc": the sessions of other worlds as concurrent threads of one
// process, switched at chosen statements, each with engines of its own. Every
// thread must see what it sees alone, and the race detector, which a switch of
// the simulator tells nothing about, must not see unsynchronised accesses to
// the same data inside the library.

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strings"

	"verif.local/sim/simrt"
)

type coTask struct {
	World string          `json:"world"` // a world, or "items"
	Plan  json.RawMessage `json:"plan,omitempty"`
	Items []odItem        `json:"items,omitempty"`
}

type concPlan struct {
	Tasks []coTask       `json:"tasks"`
	Sched []simrt.Switch `json:"sched"`
	Cold  bool           `json:"cold,omitempty"` // in a process of its own, where nothing has run before
}

func (t *coTask) body() (func(*Ctx), bool) {
	if t.World == "items" {
		return func(c *Ctx) {
			for i := range t.Items {
				it := &t.Items[i]
				if it.K == "import" || it.K == "world" {
					continue
				}
				c.Logf("%d %s: %s", i, it.K, odResult(it))
				c.Inc("results_" + it.K)
			}
		}, true
	}
	w := worlds[t.World]
	if w == nil || w.Direct || t.World == "imp" {
		return nil, false
	}
	plan := w.New()
	if json.Unmarshal(t.Plan, plan) != nil {
		return nil, false
	}
	return func(c *Ctx) { w.Run(c, plan) }, true
}

// seen is everything a thread observed.
func seen(c *Ctx, end string) []string {
	l := append([]string{}, c.Log...)
	if k, ok := c.sub.(*errKeeper); ok {
		for _, e := range k.list {
			l = append(l, "error text "+e.s)
		}
	}
	for _, v := range c.Viols {
		l = append(l, "finding "+v.Class+": "+v.Detail)
	}
	return append(l, end)
}

func endOf(res *simrt.Result, i int) string {
	s := fmt.Sprintf("end %d code %d", res.State[i], res.Code[i])
	if p := res.Panics[i]; p != nil {
		s += " panic " + safeString(p)
	}
	return s
}

func runConc(c *Ctx, pl interface{}) {
	p := pl.(*concPlan)
	if p.Cold && os.Getenv("VSIM_COLD") == "" {
		b, _ := json.Marshal(p)
		os.Setenv("VSIM_COLD", "1")
		res, err := runFresh(&Replay{Property: "P07", Plans: []PlanFile{{Property: "P07", World: "conc", Plan: b}}})
		os.Unsetenv("VSIM_COLD")
		if err != nil {
			die("cold run:", err)
		}
		c.Viols, c.Log = res.Viols, res.Log
		c.NonTriv = true
		c.Inc("cold_processes")
		for k, v := range res.Cnt {
			c.Cnt[k] += v
		}
		return
	}
	n := len(p.Tasks)
	if n > 8 {
		return
	}
	var bodies []func()
	var ctxs []*Ctx
	for i := range p.Tasks {
		f, ok := p.Tasks[i].body()
		if !ok {
			return
		}
		ctx := NewCtx()
		ctx.task = i
		ctxs = append(ctxs, ctx)
		bodies = append(bodies, func() { f(ctx) })
	}
	limit := 8000000 * n
	races := raceReports() // those of earlier runs
	for i := range ctxs {
		ctxOf[i] = ctxs[i]
	}
	res := simrt.Run(simrt.Config{Sched: p.Sched, Limit: limit}, bodies)
	for i := range ctxs {
		ctxOf[i] = nil
	}
	c.Cnt["steps"] += res.Steps
	c.Cnt["switches"] += res.Switches
	c.Cnt["fault_context_switch"] += res.Switches
	c.State("schedule", res.Trace)
	if res.Switches > 1 {
		c.NonTriv = true
	}
	for i := range ctxs {
		for k, v := range ctxs[i].Cnt {
			c.Cnt[k] += v
		}
	}
	// each of them alone
	sum := 0
	for i := range p.Tasks {
		got := seen(ctxs[i], endOf(res, i))
		f, _ := p.Tasks[i].body()
		alone := NewCtx()
		ctxOf[0] = alone
		r1 := simrt.Run(simrt.Config{Limit: limit}, []func(){func() { f(alone) }})
		ctxOf[0] = nil
		c.Cnt["steps"] += r1.Steps
		sum += r1.Steps
		if r1.Over { // a grammar that takes exponential time
			c.Inc("over_budget")
			continue
		}
		if res.Over {
			continue
		}
		want := seen(alone, endOf(r1, 0))
		for _, l := range got {
			c.Logf("%d %s", i, l)
		}
		c.Inc("threads_compared")
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			c.Viol("interference", "thread %d (%s) of %d, %d switches: alone/together %s", i, p.Tasks[i].World, n, res.Switches, short(diffLog(want, got), 500))
		}
	}
	if res.Over && sum < limit/2 {
		c.Viol("no-progress", "the threads had not finished after %d statements (%v); alone they take %d", res.Steps, res.State, sum)
	}
	for _, r := range raceReports()[len(races):] {
		c.Inc("race_reports")
		if d := libraryRace(r); d != "" {
			c.Viol("data-race", "unsynchronised accesses by two threads: %s", d)
		}
	}
}

// raceReports reads what the race detector has reported in this process so far.
func raceReports() []string {
	if !raceBuild {
		die("not built with -race")
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil {
		return nil
	}
	l := strings.Split(string(b), "WARNING: DATA RACE")
	return l[1:]
}

var raceLog = func() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			return kv[len("log_path="):]
		}
	}
	return "/nonexistent"
}()

var raceFn = regexp.MustCompile(`^  ([^ ].*)\(\)$`)

// libraryRace names the two functions of a race when both accesses are the
// library's; an access by the simulator itself is not the library's.
func libraryRace(rep string) string {
	var where []string
	cur := ""
	for _, l := range strings.Split(rep, "\n") {
		switch {
		case strings.Contains(l, " at 0x") && strings.Contains(l, " by "):
			cur = strings.ToLower(strings.TrimPrefix(strings.TrimSpace(l), "Previous "))
			cur = strings.Fields(cur)[0]
		case strings.HasPrefix(l, "Goroutine ") || strings.TrimSpace(l) == "":
			cur = ""
		default:
			m := raceFn.FindStringSubmatch(l)
			if m == nil || cur == "" {
				continue
			}
			if strings.Contains(m[1], "github.com/qiniu/text/") {
				where = append(where, cur+" in "+strings.TrimPrefix(m[1], "github.com/qiniu/text/"))
				cur = ""
			} else if strings.HasPrefix(m[1], "main.") || strings.HasPrefix(m[1], "verif.local/") {
				return ""
			}
		}
	}
	if len(where) != 2 {
		return ""
	}
	return where[0] + ", " + where[1]
}

// ---- generating

var coWorlds = []string{"gram", "extr", "ql", "calc", "comp", "scan", "meta"}
var coProps = map[string]string{"gram": "P02", "extr": "P03", "ql": "P05", "calc": "P01", "comp": "P15", "scan": "P08", "meta": "P16"}

func genConc(r *R, o GenOpt) interface{} {
	p := &concPlan{Cold: r.P(4)}
	n := []int{2, 2, 2, 3, 3, 4}[r.N(6)]
	same := ""
	if r.P(40) {
		same = coWorlds[r.N(len(coWorlds))]
	}
	var twin *coTask
	for i := 0; i < n; i++ {
		var t coTask
		switch {
		case twin != nil && r.P(25):
			t = *twin
		case same == "" && r.P(15):
			t.World = "items"
			for _, it := range genOrder(r, o).(*orderPlan).Items {
				if it.K != "import" && it.K != "world" {
					t.Items = append(t.Items, it)
				}
			}
		default:
			t.World = same
			if same == "" {
				t.World = coWorlds[r.N(len(coWorlds))]
			}
			pr := coProps[t.World]
			if t.World == "gram" && r.P(40) {
				pr = r.Str("P12", "P13")
			}
			if t.World == "ql" && r.P(40) {
				pr = "P04"
			}
			b, err := json.Marshal(worlds[t.World].Gen(r, GenOpt{Prop: pr}))
			if err != nil {
				die(err)
			}
			t.Plan = b
		}
		p.Tasks = append(p.Tasks, t)
		twin = &p.Tasks[i]
	}
	// switches: single ones, and bursts that go back and forth
	span := []int{2000, 20000, 100000, 400000}[r.N(4)]
	at := 0
	for k := r.In(1, 25); k > 0; k-- {
		at += r.In(1, 1+span/12)
		to := r.N(n)
		p.Sched = append(p.Sched, simrt.Switch{At: at, To: to})
		if r.P(40) {
			gap := []int{2, 8, 60, 500}[r.N(4)]
			for b := r.In(2, 20); b > 0; b-- {
				at += r.In(1, gap)
				p.Sched = append(p.Sched, simrt.Switch{At: at, To: r.N(n)})
			}
		}
	}
	return p
}

var concWorld = regWorld(&World{Name: "conc", Gen: genConc, New: func() interface{} { return new(concPlan) }, Run: runConc, Direct: true})
