package core

// C07/C08 under the controlled scheduler: store lookups racing each other, and worker
// cycles racing each other and traffic.

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
	vs "vsa/internal/verifsched"
)

func TestC07Sched(t *testing.T) {
	kit.Run(t, 12000, 200000, func(c *kit.Case) {
		nt := rapid.IntRange(2, 4).Draw(c.T, "tasks")
		opts := vsa.Options{Stripes: 8}
		if rapid.Bool().Draw(c.T, "fast") {
			opts.FastPathGuard = 2
		}
		budget := rapid.Int64Range(0, 6).Draw(c.T, "budget")
		st := NewStoreWithOptions(budget, opts)
		keys := []string{"a", "b"}
		type step struct {
			key string
			n   int64
		}
		plan := make([][]step, nt)
		for i := range plan {
			for j, n := 0, rapid.IntRange(1, 3).Draw(c.T, "steps"); j < n; j++ {
				plan[i] = append(plan[i], step{rapid.SampledFrom(keys).Draw(c.T, "key"), rapid.Int64Range(1, 3).Draw(c.T, "n")})
			}
		}
		mk, desc := vfDrawPolicy(c.T, nt, 40)
		c.Logf("budget=%d fast=%d plan=%v schedule %s", budget, opts.FastPathGuard, plan, desc)
		ptr := map[string]map[*vsa.VSA]bool{"a": {}, "b": {}}
		adm := map[string]int64{}
		var fs []func()
		for i := range plan {
			fs = append(fs, func() {
				for _, s := range plan[i] {
					v := st.GetOrCreate(s.key)
					ptr[s.key][v] = true
					if v.TryConsume(s.n) {
						adm[s.key] += s.n
					}
				}
			})
		}
		res := vs.Run(mk(), nil, fs...)
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		if res.Panic != "" || res.Deadlock != "" {
			c.Failf("%s%s", res.Panic, res.Deadlock)
		}
		l := vfLive(st)
		shared := 0
		for _, k := range keys {
			if len(ptr[k]) > 1 {
				c.Failf("concurrent lookups of key %q returned %d counters", k, len(ptr[k]))
			}
			for v := range ptr[k] {
				if l[k] != v {
					c.Failf("the store holds another counter for %q than the lookups returned", k)
				}
				s, net := v.State()
				if s != budget || net != adm[k] {
					c.Failf("key %q: (%d,%d), %d admitted of a budget of %d", k, s, net, adm[k], budget)
				}
				if adm[k] > budget {
					c.Failf("key %q admitted %d of %d", k, adm[k], budget)
				}
			}
		}
		for i := range plan {
			for j := range plan[:i] {
				for _, a := range plan[i] {
					for _, b := range plan[j] {
						if a.key == b.key {
							shared++
						}
					}
				}
			}
		}
		if shared > 0 && res.Steps > 10 {
			c.NT()
		}
	})
}

func TestC08Sched(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 15000, 250000, func(c *kit.Case) {
		opts := vsa.Options{Stripes: 8}
		if rapid.IntRange(0, 2).Draw(c.T, "fast") == 0 {
			opts.FastPathGuard = 2
		}
		if rapid.IntRange(0, 2).Draw(c.T, "hier") == 0 {
			opts.HierarchicalGroups = 2
		}
		st := NewStoreWithOptions(rapid.Int64Range(1, 40).Draw(c.T, "budget"), opts)
		p := vfNewVPersister()
		T := rapid.Int64Range(1, 4).Draw(c.T, "T")
		low := rapid.Int64Range(0, T-1).Draw(c.T, "low")
		traffic := rapid.IntRange(0, 2).Draw(c.T, "traffic")
		// With traffic nothing is idle. Without, everything always is: an operation through
		// a counter that eviction has just removed is the known finding, kept out here.
		evAge := -time.Hour
		if traffic > 0 {
			evAge = time.Hour
		}
		w := NewWorker(st, p, T, low, time.Hour, 0, evAge, time.Hour)
		tr := &vfTracker{st: st, net: map[string]int64{}}
		keys := []string{"a", "b"}
		for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "prefix"); i < n; i++ {
			k := rapid.SampledFrom(keys).Draw(c.T, "k")
			c.Logf("%s", tr.do(k, st.GetOrCreate(k), rapid.IntRange(0, 5).Draw(c.T, "kind"), rapid.Int64Range(-6, 6).Draw(c.T, "n")))
		}
		failAt := rapid.IntRange(0, 6).Draw(c.T, "failAt")
		n := 0
		p.failKey = func(string) bool { n++; return n == failAt }
		pause := rapid.IntRange(0, 3).Draw(c.T, "pause")
		p.hook = func([]Commit) {
			for i := 0; i < pause; i++ {
				vs.Point("storage")
			}
		}
		var fs []func()
		var what []string
		ncyc := rapid.IntRange(1, 3).Draw(c.T, "cycles")
		if traffic == 0 && ncyc < 2 {
			ncyc = 2
		}
		for i := 0; i < ncyc; i++ {
			switch rapid.IntRange(0, 2).Draw(c.T, "cycle") {
			case 0:
				fs = append(fs, w.runCommitCycle)
				what = append(what, "commit")
			case 1:
				fs = append(fs, w.runEvictionCycle)
				what = append(what, "evict")
			case 2:
				fs = append(fs, w.runFinalFlush)
				what = append(what, "flush")
			}
		}
		add := map[string]int64{}
		ops := 0
		for i := 0; i < traffic; i++ {
			type step struct {
				key  string
				kind int
				n    int64
			}
			var plan []step
			for j, n := 0, rapid.IntRange(1, 4).Draw(c.T, "steps"); j < n; j++ {
				plan = append(plan, step{rapid.SampledFrom(keys).Draw(c.T, "key"), rapid.IntRange(0, 2).Draw(c.T, "kind"), rapid.Int64Range(-5, 5).Draw(c.T, "n")})
			}
			what = append(what, fmt.Sprint("traffic", plan))
			fs = append(fs, func() {
				for _, s := range plan {
					v := st.GetOrCreate(s.key)
					ops++
					switch s.kind {
					case 0:
						if v.TryConsume(vfVabs(s.n)) {
							add[s.key] += vfVabs(s.n)
						}
					case 1:
						if v.TryRefund(1) {
							add[s.key]--
						}
					case 2:
						v.Update(s.n)
						add[s.key] += s.n
					}
				}
			})
		}
		mk, desc := vfDrawPolicy(c.T, len(fs), 80)
		c.Logf("T=%d low=%d tasks=%v failAt=%d schedule %s", T, low, what, failAt, desc)
		res := vs.Run(mk(), nil, fs...)
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		if res.Panic != "" || res.Deadlock != "" {
			c.Failf("%s%s", res.Panic, res.Deadlock)
		}
		p.failKey, p.hook = nil, nil
		c.Logf("written: %s", vfRowsOf(p.take()))
		w.runFinalFlush()
		c.Logf("flush: %s", vfRowsOf(p.take()))
		if p.problem != "" {
			c.Failf("%s", p.problem)
		}
		for _, k := range keys {
			if want := tr.net[k] + add[k]; p.durable[k] != want {
				c.Failf("storage has %d for key %q, the operations add up to %d", p.durable[k], k, want)
			}
		}
		if p.calls > 0 && (traffic == 0 || ops > 0) {
			c.NT(fmt.Sprintf("traffic=%d", traffic))
		}
	})
}
