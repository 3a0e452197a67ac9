package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"
)

// minimise shrinks the plans of a replay while a fresh process still shows a
// violation of the same class.
func minimise(p *Prop, rp *Replay, budget time.Duration) {
	deadline := time.Now().Add(budget)
	tries := 0
	test := func(c *Replay) bool {
		res, err := runFresh(c)
		return err == nil && res.OK && has(res.Viols, p.ID, rp.Class) != nil
	}
	// firstOf evaluates candidates in parallel and returns the first that still fails.
	firstOf := func(cands []*Replay) *Replay {
		n := runtime.NumCPU()
		for i := 0; i < len(cands); i += n {
			if time.Now().After(deadline) {
				return nil
			}
			j := i + n
			if j > len(cands) {
				j = len(cands)
			}
			ok := make([]bool, j-i)
			var wg sync.WaitGroup
			for k := i; k < j; k++ {
				wg.Add(1)
				tries++
				go func(k int) {
					defer wg.Done()
					ok[k-i] = test(cands[k])
				}(k)
			}
			wg.Wait()
			for k, o := range ok {
				if o {
					return cands[i+k]
				}
			}
		}
		return nil
	}
	set := func(r *Replay) { rp.Plans = r.Plans }

	// 1. earlier plans in the same process
	for n := len(rp.Plans) - 1; n > 0 && len(rp.Plans) > 1; {
		var cands []*Replay
		pre := rp.Plans[:len(rp.Plans)-1]
		last := rp.Plans[len(rp.Plans)-1]
		for lo := 0; lo < len(pre); lo += n {
			hi := lo + n
			if hi > len(pre) {
				hi = len(pre)
			}
			c := *rp
			c.Plans = append(append(append([]PlanFile{}, pre[:lo]...), pre[hi:]...), last)
			cands = append(cands, &c)
		}
		if r := firstOf(cands); r != nil {
			set(r)
			if n > len(rp.Plans)-1 {
				n = len(rp.Plans) - 1
			}
			continue
		}
		if time.Now().After(deadline) {
			break
		}
		n /= 2
	}
	// 2. the plans themselves, last one first
	for pi := len(rp.Plans) - 1; pi >= 0; pi-- {
		for !time.Now().After(deadline) {
			var tree interface{}
			if json.Unmarshal(rp.Plans[pi].Plan, &tree) != nil {
				break
			}
			var cands []*Replay
			for _, t := range variants(tree, worlds[rp.Plans[pi].World].Texts) {
				b, err := json.Marshal(t)
				if err != nil || len(b) > len(rp.Plans[pi].Plan)+8 || !validPlan(rp.Plans[pi].World, b) {
					continue
				}
				c := *rp
				c.Plans = append([]PlanFile{}, rp.Plans...)
				c.Plans[pi].Plan = b
				cands = append(cands, &c)
			}
			r := firstOf(cands)
			if r == nil {
				break
			}
			set(r)
		}
	}
	rp.Shrunk = fmt.Sprintf("%d candidates tried", tries)
}

// variants lists smaller versions of a JSON tree, most drastic first.
func variants(t interface{}, texts bool) []interface{} {
	var big, mid, small []interface{}
	var walk func(x interface{}, put func(interface{}) interface{})
	walk = func(x interface{}, put func(interface{}) interface{}) {
		switch v := x.(type) {
		case []interface{}:
			n := len(v)
			for size := n; size >= 1; size /= 2 {
				for lo := 0; lo < n; lo += size {
					hi := lo + size
					if hi > n {
						hi = n
					}
					rest := append(append([]interface{}{}, v[:lo]...), v[hi:]...)
					big = append(big, put(rest))
				}
			}
			for i := range v {
				i := i
				walk(v[i], func(y interface{}) interface{} {
					c := append([]interface{}{}, v...)
					c[i] = y
					return put(c)
				})
			}
		case map[string]interface{}:
			if _, ok := v["k"]; ok {
				for _, d := range descendants(v) {
					mid = append(mid, put(d))
				}
			}
			for _, k := range keysOf(v) {
				k := k
				if v[k] == nil {
					continue
				}
				with := func(y interface{}) interface{} {
					c := map[string]interface{}{}
					for kk, vv := range v {
						c[kk] = vv
					}
					if y == nil {
						delete(c, k)
					} else {
						c[k] = y
					}
					return put(c)
				}
				if _, isObj := v[k].(map[string]interface{}); isObj && k != "a" && k != "b" {
					mid = append(mid, with(nil))
				}
				walk(v[k], with)
			}
		case float64:
			if v != 0 {
				small = append(small, put(float64(0)))
				if v > 2 || v < -2 {
					small = append(small, put(float64(int(v)/2)))
				}
				if v > 1 {
					small = append(small, put(v-1))
				}
			}
		case bool:
			if v {
				small = append(small, put(false))
			}
		case string:
			if texts && len(v) > 8 {
				small = append(small, put(v[:len(v)/2]), put(v[len(v)/2:]))
			}
		}
	}
	walk(t, func(y interface{}) interface{} { return y })
	out := append(append(big, mid...), small...)
	if len(out) > 4000 {
		out = out[:4000]
	}
	return out
}

func descendants(v map[string]interface{}) (out []interface{}) {
	var rec func(x interface{}, top bool)
	rec = func(x interface{}, top bool) {
		switch y := x.(type) {
		case []interface{}:
			for _, e := range y {
				rec(e, false)
			}
		case map[string]interface{}:
			if !top {
				if _, ok := y["k"]; ok {
					out = append(out, y)
					return
				}
			}
			for _, k := range keysOf(y) {
				rec(y[k], false)
			}
		}
	}
	rec(v, true)
	return
}

func keysOf(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
