// dst searches the schedules, histories and fault sequences of a property in
// simulation.
//
//	dst check PROP TIER SEED VERIFDIR   parent: search, minimise, report
//	dst worker PROP TIER SEED LO STRIDE COUNT WALL
//	dst exec FILE                       run one replay file in this process
//	dst gen PROP TIER SEED INDEX        print a plan
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"dst:"}, a...)...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage")
	}
	debug.SetMaxStack(1 << 29)
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		seed, _ := strconv.ParseInt(a[2], 10, 64)
		os.Exit(check(a[0], a[1], seed, a[3]))
	case "worker":
		runtime.GOMAXPROCS(1)
		seed, _ := strconv.ParseInt(a[2], 10, 64)
		lo, _ := strconv.Atoi(a[3])
		stride, _ := strconv.Atoi(a[4])
		count, _ := strconv.Atoi(a[5])
		wall, _ := strconv.Atoi(a[6])
		worker(a[0], a[1], seed, lo, stride, count, time.Duration(wall)*time.Second)
	case "exec":
		runtime.GOMAXPROCS(1)
		os.Exit(execFile(a[0]))
	case "replay":
		os.Exit(replayFile(a[0]))
	case "gen":
		seed, _ := strconv.ParseInt(a[2], 10, 64)
		i, _ := strconv.Atoi(a[3])
		pf := genPlan(props[a[0]], a[1], seed, i)
		b, _ := json.MarshalIndent(pf, "", " ")
		fmt.Println(string(b))
	default:
		die("unknown mode", os.Args[1])
	}
}

func genPlan(p *Prop, tier string, seed int64, i int) *PlanFile {
	r := NewR("plan", seed, p.ID, i)
	ws := make([]int, len(p.Worlds))
	for k, u := range p.Worlds {
		ws[k] = u.Weight
	}
	w := p.Worlds[r.W(ws...)].W
	plan := w.Gen(r, GenOpt{Prop: p.ID, Big: tier == "thorough" || r.P(8)})
	b, err := json.Marshal(plan)
	if err != nil {
		die("plan:", err)
	}
	if r.P(2) {
		b = prolong(r, w, b)
	} else if w == qlWorld && r.P(6) {
		b = swell(r, w, b)
	}
	if os.Getenv("VSIM_MUTATE") != "" {
		b = mutate(r, w, b)
	}
	return &PlanFile{Property: p.ID, World: w.Name, Index: i, Seed: seed, Plan: b}
}

// prolong makes a long session of a plan: one or two operations that follow
// each other are repeated, so that whatever a use leaves behind adds up.
func prolong(r *R, w *World, b []byte) []byte {
	var tree map[string]json.RawMessage
	var ops []json.RawMessage
	if json.Unmarshal(b, &tree) != nil || json.Unmarshal(tree["ops"], &ops) != nil || len(ops) == 0 {
		return b
	}
	i := r.N(len(ops))
	j := min(i+r.In(1, 2), len(ops))
	var out []json.RawMessage
	out = append(out, ops[:i]...)
	for n := r.In(15, 70); n > 0; n-- {
		out = append(out, ops[i:j]...)
	}
	out = append(out, ops[j:]...)
	tree["ops"], _ = json.Marshal(out)
	c, err := json.Marshal(tree)
	if err != nil || !validPlan(w.Name, c) {
		return b
	}
	return c
}

// swell repeats a statement of a script many times, or makes a loop run longer.
func swell(r *R, w *World, b []byte) []byte {
	var tree interface{}
	if json.Unmarshal(b, &tree) != nil {
		return b
	}
	var sites []func()
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch t := x.(type) {
		case []interface{}:
			for _, y := range t {
				walk(y)
			}
		case map[string]interface{}:
			as, _ := t["as"].([]interface{})
			if t["k"] == "blk" && len(as) > 0 {
				sites = append(sites, func() {
					i := r.N(len(as))
					var out []interface{}
					out = append(out, as[:i]...)
					for n := r.In(8, 40); n > 0; n-- {
						out = append(out, as[i])
					}
					t["as"] = append(out, as[i+1:]...)
				})
			}
			if t["k"] == "for" && len(as) == 3 {
				if c, ok := as[1].(map[string]interface{}); ok && c["k"] == "bin" {
					if c, ok := c["b"].(map[string]interface{}); ok && c["k"] == "int" {
						sites = append(sites, func() { c["n"] = r.In(8, 40) })
					}
				}
			}
			switch t["k"] {
			case "int", "h", "call", "mc", "idx": // many operands wait while it is evaluated
				sites = append(sites, func() {
					old := map[string]interface{}{}
					for k, v := range t {
						old[k] = v
						delete(t, k)
					}
					num := func(n int) interface{} { return map[string]interface{}{"k": "int", "n": n} }
					n := r.In(20, 120)
					if r.P(50) {
						as := make([]interface{}, n, n+1)
						for i := range as {
							as[i] = num(i)
						}
						t["k"], t["b"] = "idx", num(n)
						t["a"] = map[string]interface{}{"k": "sl", "as": append(as, old)}
						return
					}
					for ; n > 1; n-- {
						old = map[string]interface{}{"k": "paren", "a": map[string]interface{}{"k": "bin", "v": "+", "a": num(0), "b": old}}
					}
					t["k"], t["v"], t["a"], t["b"] = "bin", "+", num(0), old
				})
			}
			if t["k"] == "call" && len(as) > 0 {
				if c, ok := as[0].(map[string]interface{}); ok && c["k"] == "int" {
					sites = append(sites, func() { c["n"] = r.In(8, 30) })
				}
			}
			keys := make([]string, 0, len(t))
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			ids := t["k"] == "bi" || t["k"] == "mc"
			for _, k := range keys {
				if l, ok := t[k].([]interface{}); ok && ids && len(l) > 0 {
					walk(l[1:]) // the first argument of a host function is its number
					continue
				}
				walk(t[k])
			}
		}
	}
	walk(tree)
	if len(sites) == 0 {
		return b
	}
	sites[r.N(len(sites))]()
	c, err := json.Marshal(tree)
	if err != nil || !validPlan(w.Name, c) {
		return b
	}
	return c
}

// mutate takes some steps of the minimiser at random: a self-test, to see that
// whatever the minimiser makes of a plan is still a plan the checks are right about.
func mutate(r *R, w *World, b []byte) []byte {
	for n := r.In(1, 6); n > 0; n-- {
		var tree interface{}
		if json.Unmarshal(b, &tree) != nil {
			return b
		}
		vs := variants(tree, w.Texts)
		if len(vs) == 0 {
			return b
		}
		c, err := json.Marshal(vs[r.N(len(vs))])
		if err == nil && validPlan(w.Name, c) {
			b = c
		}
	}
	return b
}

// runPF decodes and executes a plan; ok is false when the plan is malformed.
func runPF(pf *PlanFile) (c *Ctx, ok bool) {
	w := worlds[pf.World]
	if w == nil {
		die("unknown world", pf.World)
	}
	plan := w.New()
	if err := json.Unmarshal(pf.Plan, plan); err != nil {
		return NewCtx(), false
	}
	c = RunPlan(w, plan)
	c.Viols = keepViols(pf, c.Viols)
	return c, true
}

// keepViols drops violations of classes that another property covers.
func keepViols(pf *PlanFile, vs []Viol) (out []Viol) {
	p := props[pf.Property]
	if p == nil {
		return vs
	}
	for _, u := range p.Worlds {
		if u.W.Name == pf.World {
			for _, v := range vs {
				if u.Classes == nil || u.Classes[v.Class] {
					out = append(out, v)
				}
			}
			return
		}
	}
	return vs
}

// ---------------------------------------------------------------------------
// known findings

type Known struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Sig      string          `json:"sig"`
	What     string          `json:"what"`
	World    string          `json:"world"`
	Plan     json.RawMessage `json:"plan"`
}

type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

var known KnownFile

func loadKnown(dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &known); err != nil {
		die("known_findings.json:", err)
	}
}

func isKnown(prop string, v Viol) bool {
	for _, k := range known.Findings {
		if k.Property == prop && k.Class == v.Class && k.Sig != "" && k.Sig == v.Sig {
			return true
		}
	}
	return false
}

func firstNew(prop string, vs []Viol) *Viol {
	for i := range vs {
		if !isKnown(prop, vs[i]) {
			return &vs[i]
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// worker

type wsum struct {
	Runs      int            `json:"runs"`
	NonTriv   int            `json:"nontriv"`
	Cnt       map[string]int `json:"cnt"`
	Distinct  []uint64       `json:"distinct"`
	States    []uint64       `json:"states"`
	Switch    int            `json:"switch"`
	Capped    bool           `json:"capped"`
	Nondet    int            `json:"nondet"`
	Rechecked int            `json:"rechecked"`
	Known     int            `json:"known"`
	Digest    uint64         `json:"digest"`
}

type wmsg struct {
	Sum    *wsum     `json:"sum,omitempty"`
	Viol   *Viol     `json:"viol,omitempty"`
	Plan   *PlanFile `json:"plan,omitempty"`
	Log    []string  `json:"log,omitempty"`
	Nondet string    `json:"nondet,omitempty"`
	Sample string    `json:"sample,omitempty"`
}

func worker(prop, tier string, seed int64, lo, stride, count int, wall time.Duration) {
	p := props[prop]
	if d := os.Getenv("VERIF_DIR"); d != "" {
		loadKnown(d)
	}
	out := bufio.NewWriter(os.Stdout)
	send := func(m wmsg) {
		b, _ := json.Marshal(m)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	s := &wsum{Cnt: map[string]int{}}
	distinct := map[uint64]bool{}
	states := map[uint64]bool{}
	start := time.Now()
	var tick int64
	go watchdog(&tick)
	curf, _ := os.Create(filepath.Join(os.Getenv("VSIM_SCRATCH"), fmt.Sprintf("cur.%d", lo)))
	for k := 0; k < count; k++ {
		if time.Since(start) > wall {
			s.Capped = true
			break
		}
		i := lo + k*stride
		if curf != nil {
			curf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		pf := genPlan(p, tier, seed, i)
		c, _ := runPF(pf)
		atomic.AddInt64(&tick, 1)
		s.Runs++
		for n, v := range c.Cnt {
			s.Cnt[n] += v
		}
		d := c.Digest()
		s.Digest = s.Digest*1099511628211 ^ d
		if c.NonTriv {
			s.NonTriv++
			distinct[d] = true
		}
		if len(states) < 300000 {
			for _, x := range c.States {
				states[x] = true
			}
		}
		if v := firstNew(prop, c.Viols); v != nil {
			send(wmsg{Viol: v, Plan: pf, Log: c.Log})
			break
		} else if len(c.Viols) > 0 {
			s.Known++
		}
		if k < 2 && lo < 3 {
			send(wmsg{Sample: sample(pf, c)})
		}
		if k%32 == 5 { // the same plan again must give the same history
			c2, _ := runPF(pf)
			s.Rechecked++
			if c2.Digest() != d && len(c2.Viols) == 0 {
				s.Nondet++
				send(wmsg{Nondet: fmt.Sprintf("plan %d: %s", i, diffLog(c.Log, c2.Log)), Plan: pf})
			}
		}
	}
	for d := range distinct {
		s.Distinct = append(s.Distinct, d)
	}
	for d := range states {
		s.States = append(s.States, d)
	}
	send(wmsg{Sum: s})
}

func sample(pf *PlanFile, c *Ctx) string {
	l := c.Log
	if len(l) > 14 {
		l = l[:14]
	}
	return fmt.Sprintf("index %d world %s plan %s => %s", pf.Index, pf.World, short(string(pf.Plan), 700), short(strings.Join(l, " | "), 900))
}

func diffLog(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			x := ""
			if i < len(b) {
				x = b[i]
			}
			return fmt.Sprintf("%d: %q != %q", i, a[i], x)
		}
	}
	return fmt.Sprintf("lengths %d, %d", len(a), len(b))
}

// watchdog ends a worker whose current run makes no progress outside the
// simulator's step count: that is a failure of the check, never a violation.
func watchdog(tick *int64) {
	last, n := int64(-1), 0
	for {
		time.Sleep(time.Second)
		if t := atomic.LoadInt64(tick); t == last {
			n++
		} else {
			n, last = 0, t
		}
		if n > 60 {
			fmt.Fprintln(os.Stderr, "dst: a run is stuck outside the simulation")
			os.Exit(4)
		}
	}
}

// ---------------------------------------------------------------------------
// executing replay files

func execFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die(err)
	}
	var tick int64
	go watchdog(&tick)
	for i := range rp.Plans {
		c, ok := runPF(&rp.Plans[i])
		atomic.AddInt64(&tick, 1)
		if i == len(rp.Plans)-1 {
			out, _ := json.Marshal(struct {
				OK    bool           `json:"ok"`
				Viols []Viol         `json:"viols"`
				Log   []string       `json:"log"`
				D     uint64         `json:"d"`
				Cnt   map[string]int `json:"cnt"`
			}{ok, c.Viols, c.Log, c.Digest(), c.Cnt})
			fmt.Println(string(out))
		}
	}
	return 0
}

type execRes struct {
	OK    bool           `json:"ok"`
	Viols []Viol         `json:"viols"`
	Log   []string       `json:"log"`
	D     uint64         `json:"d"`
	Cnt   map[string]int `json:"cnt"`
}

var scratchDir = os.Getenv("VSIM_SCRATCH")

func runFresh(rp *Replay) (res execRes, err error) {
	f, err := os.CreateTemp(scratchDir, "plan*.json")
	if err != nil {
		return
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	cmd := exec.Command(os.Args[0], "exec", f.Name())
	cmd.Env = workerEnv(rp.Property)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		if cr := crashKind(eb.String()); cr != "" {
			return execRes{OK: true, Viols: []Viol{{Class: "crash", Detail: cr}}}, nil
		}
		return res, fmt.Errorf("%v: %s", err, short(eb.String(), 400))
	}
	i := bytes.LastIndex(bytes.TrimRight(out, "\n"), []byte("\n"))
	err = json.Unmarshal(out[i+1:], &res)
	return
}

// crashKind names a fatal error of the Go runtime that the code under test ran into.
func crashKind(stderr string) string {
	for _, k := range []string{"goroutine stack exceeds", "fatal error: concurrent map", "fatal error: all goroutines are asleep", "fatal error: sync:"} {
		if strings.Contains(stderr, k) {
			return "the process died: " + k
		}
	}
	return ""
}

func workerEnv(prop string) []string {
	env := os.Environ()
	if p := props[prop]; p != nil && p.Race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(scratchDir, "race"))
	}
	return env
}

func has(vs []Viol, prop, class string) *Viol {
	for i := range vs {
		if vs[i].Class == class && !isKnown(prop, vs[i]) {
			return &vs[i]
		}
	}
	return nil
}

func replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die(err)
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		loadKnown(d)
	}
	scratchDir = os.Getenv("VSIM_SCRATCH")
	res, err := runFresh(&rp)
	if err != nil {
		die("replay:", err)
	}
	for _, l := range res.Log {
		fmt.Println("  |", l)
	}
	if v := has(res.Viols, rp.Property, rp.Class); v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		return 1
	}
	for _, v := range res.Viols {
		fmt.Printf("%s: %s\n", v.Class, v.Detail)
	}
	fmt.Println("not reproduced")
	return 0
}

// ---------------------------------------------------------------------------
// parent

func check(prop, tier string, seed int64, dir string) int {
	start := time.Now()
	p := props[prop]
	if p == nil {
		die("no such property:", prop)
	}
	loadKnown(dir)
	os.Setenv("VERIF_DIR", dir)
	scratchDir = os.Getenv("VSIM_SCRATCH")
	if scratchDir == "" {
		die("VSIM_SCRATCH not set")
	}
	total, wall := p.Quick, 100
	if tier == "thorough" {
		total, wall = p.Thorough, 1500
	}
	if s := os.Getenv("VSIM_RUNS"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	type found struct {
		w    int
		v    *Viol
		pf   *PlanFile
		log  []string
		prev []int
	}
	var mu sync.Mutex
	var finds []found
	var nondets []string
	var samples []string
	sums := make([]*wsum, nw)
	fails := make([]string, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		count := (total - w + nw - 1) / nw
		wg.Add(1)
		go func(w, count int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "worker", prop, tier, fmt.Sprint(seed), fmt.Sprint(w), fmt.Sprint(nw), fmt.Sprint(count), fmt.Sprint(wall))
			cmd.Env = append(workerEnv(prop), fmt.Sprintf("VSIM_WORKER=%d", w))
			var eb bytes.Buffer
			cmd.Stderr = &eb
			po, err := cmd.StdoutPipe()
			if err != nil {
				fails[w] = err.Error()
				return
			}
			if err := cmd.Start(); err != nil {
				fails[w] = err.Error()
				return
			}
			sc := bufio.NewScanner(po)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				var m wmsg
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				mu.Lock()
				if m.Sum != nil {
					sums[w] = m.Sum
				}
				if m.Viol != nil {
					var prev []int
					for i := w; i < m.Plan.Index; i += nw {
						prev = append(prev, i)
					}
					finds = append(finds, found{w, m.Viol, m.Plan, m.Log, prev})
				}
				if m.Nondet != "" {
					nondets = append(nondets, m.Nondet)
				}
				if m.Sample != "" {
					samples = append(samples, m.Sample)
				}
				mu.Unlock()
			}
			if err := cmd.Wait(); err != nil {
				if cr := crashKind(eb.String()); cr != "" {
					if b, e := os.ReadFile(filepath.Join(scratchDir, fmt.Sprintf("cur.%d", w))); e == nil {
						i, _ := strconv.Atoi(strings.TrimSpace(string(b)))
						mu.Lock()
						finds = append(finds, found{w, &Viol{Class: "crash", Detail: cr}, genPlan(p, tier, seed, i), nil, nil})
						mu.Unlock()
						return
					}
				}
				fails[w] = fmt.Sprintf("%v: %s", err, tailStr(eb.String(), 3000))
			}
		}(w, count)
	}
	wg.Wait()
	searchWall := time.Since(start)

	sort.Slice(finds, func(i, j int) bool { return finds[i].pf.Index < finds[j].pf.Index })
	sort.Strings(samples)
	code := 0
	nviol := 0
	var reported string
	for fi, f := range finds {
		if fi >= 3 {
			break
		}
		rp := &Replay{Property: prop, Class: f.v.Class, Detail: f.v.Detail, Seed: seed, Index: f.pf.Index, Plans: []PlanFile{*f.pf}, Log: f.log}
		ok := confirm(p, rp)
		if !ok { // needs the runs before it in the same process
			var plans []PlanFile
			for _, i := range f.prev {
				plans = append(plans, *genPlan(p, tier, seed, i))
			}
			rp.Plans = append(plans, *f.pf)
			rp.Note = "needs the earlier plans in the same process"
			ok = confirm(p, rp)
		}
		if !ok {
			fmt.Fprintf(os.Stderr, "dst: %s: run %d reported %s (%s), which a fresh process does not show: not reported\n", prop, f.pf.Index, f.v.Class, f.v.Detail)
			if code == 0 {
				code = 2
			}
			continue
		}
		minimise(p, rp, 25*time.Second)
		// a replay file must show the violation again, exactly
		r1, e1 := runFresh(rp)
		r2, e2 := runFresh(rp)
		if e1 != nil || e2 != nil || has(r1.Viols, prop, rp.Class) == nil || r1.D != r2.D {
			fmt.Fprintf(os.Stderr, "dst: %s: replay is not exact (%v %v)\n", prop, e1, e2)
		} else {
			rp.Log = r1.Log
			rp.Detail = has(r1.Viols, prop, rp.Class).Detail
		}
		os.MkdirAll(filepath.Join(dir, "replay"), 0755)
		path := filepath.Join(dir, "replay", fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, f.pf.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("%s: %s: %s\n", prop, rp.Class, rp.Detail)
		for _, l := range lastN(rp.Log, 25) {
			fmt.Println("  |", short(l, 300))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		reported = path
		nviol++
		code = 1
		break
	}
	_ = reported

	// fixed regression plans of the known findings
	for _, k := range known.Findings {
		if k.Property != prop {
			continue
		}
		rp := &Replay{Property: prop, Class: k.Class, Plans: []PlanFile{{Property: prop, World: k.World, Plan: k.Plan}}}
		res, err := runFresh(rp)
		if err != nil {
			fmt.Fprintln(os.Stderr, "dst: known finding:", err)
			if code == 0 {
				code = 2
			}
			continue
		}
		for _, v := range res.Viols {
			if v.Class == k.Class && v.Sig == k.Sig {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				break
			}
		}
	}

	tot := &wsum{Cnt: map[string]int{}}
	distinct := map[uint64]bool{}
	states := map[uint64]bool{}
	for w := 0; w < nw; w++ {
		if fails[w] != "" {
			fmt.Fprintf(os.Stderr, "dst: worker %d: %s\n", w, fails[w])
			if code == 0 {
				code = 2
			}
		}
		s := sums[w]
		if s == nil {
			if code == 0 {
				code = 2
			}
			continue
		}
		tot.Runs += s.Runs
		tot.NonTriv += s.NonTriv
		tot.Rechecked += s.Rechecked
		tot.Nondet += s.Nondet
		tot.Known += s.Known
		tot.Capped = tot.Capped || s.Capped
		for k, v := range s.Cnt {
			tot.Cnt[k] += v
		}
		for _, d := range s.Distinct {
			distinct[d] = true
		}
		for _, d := range s.States {
			states[d] = true
		}
	}
	for _, n := range nondets {
		fmt.Fprintln(os.Stderr, "dst: not deterministic:", short(n, 600))
		if code == 0 {
			code = 2
		}
	}
	faults := map[string]int{}
	probes := map[string]int{}
	for k, v := range tot.Cnt {
		switch {
		case strings.HasPrefix(k, "fault_"):
			faults[k[6:]] += v
		case k == "steps" || k == "switches":
		default:
			probes[k] += v
		}
	}
	hours := searchWall.Hours()
	cov := map[string]interface{}{
		"evaluations":             tot.Runs,
		"distinct_nontrivial":     len(distinct),
		"rule":                    p.Rule,
		"samples":                 firstN(samples, 4),
		"nontrivial_runs":         tot.NonTriv,
		"runs_and_seeds_per_hour": int(float64(tot.Runs) / hours),
		"seed_note":               "one seed per run: run i is a pure function of (VERIF_SEED, property, i): every run has its own derived seed",
		"simulated_statements":    tot.Cnt["steps"],
		"simulated_time_note":     "the code has no clock or timer; simulated time is counted in executed statements of the code under test",
		"faults_fired":            faults,
		"probes":                  probes,
		"context_switches":        tot.Cnt["switches"],
		"distinct_states":         len(states),
		"determinism_rechecks":    tot.Rechecked,
		"determinism_mismatches":  tot.Nondet,
		"components_real":         p.Real,
		"components_stubbed":      p.Stub,
		"known_finding_hits":      tot.Known,
		"wall_cap_reached":        tot.Capped,
		"search_wall_s":           searchWall.Seconds(),
		"workers":                 nw,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		die(err)
	}
	fmt.Printf("%s %s seed=%d: %d runs, %d distinct non-trivial, %d statements, faults %v, %.1fs, exit %d\n", prop, tier, seed, tot.Runs, len(distinct), tot.Cnt["steps"], faults, time.Since(start).Seconds(), code)
	if os.Getenv("VSIM_VERBOSE") != "" {
		fmt.Println("probes:", probes, "nontriv:", tot.NonTriv, "states:", len(states))
	}
	return code
}

func confirm(p *Prop, rp *Replay) bool {
	res, err := runFresh(rp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "dst: confirm:", err)
		return false
	}
	return has(res.Viols, p.ID, rp.Class) != nil
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstN(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

func lastN(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}
