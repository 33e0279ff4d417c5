package core

// C08-C11: the background worker, its loops running on a fake clock (testing/synctest).

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
)

// plannedOp is an operation drawn in advance, to be performed while a batch is written.
type vfPlannedOp struct {
	key   int // index into the keys
	kind  int
	n     int64
	fresh bool // look the key up again (which counts as an access) or use a held reference
}

func vfDrawPlanned(t *rapid.T, nkeys, max int) []vfPlannedOp {
	var ps []vfPlannedOp
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "inflight"); i < n; i++ {
		ps = append(ps, vfPlannedOp{rapid.IntRange(0, nkeys-1).Draw(t, "key"), rapid.IntRange(0, 5).Draw(t, "kind"),
			rapid.Int64Range(-9, 9).Draw(t, "n"), rapid.Bool().Draw(t, "fresh")})
	}
	return ps
}

// TestC08History: arbitrary histories of operations, cycles of all three kinds, storage
// failures and operations that land during a write.
func TestC08History(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 20000, 200000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 4).Draw(c.T, "nkeys"))
			budget := rapid.Int64Range(1, 60).Draw(c.T, "budget")
			opts := vfDrawStoreOpts(c.T, true)
			st := NewStoreWithOptions(budget, opts)
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			T := vfDrawThreshold(c.T, 12)
			low := rapid.Int64Range(0, max(0, T-1)).Draw(c.T, "low")
			maxAge := time.Duration(rapid.IntRange(0, 3).Draw(c.T, "maxAge")) * time.Minute
			evAge := time.Duration(rapid.IntRange(1, 4).Draw(c.T, "evAge")) * time.Minute
			w := NewWorker(st, p, T, low, time.Hour, maxAge, evAge, time.Hour)
			tr := &vfTracker{st: st, net: map[string]int64{}}
			c.Logf("keys=%q budget=%d fast=%d cached=%v T=%d low=%d maxAge=%v evAge=%v", keys, budget, opts.FastPathGuard, opts.UseCachedGate, T, low, maxAge, evAge)
			var failures, inflight, refundsInflight, evicted int
			inCycle := map[string]bool{} // keys touched during a write since the last clean flush
			cycle := func(kind int) {
				plan := vfDrawPlanned(c.T, len(keys), 4)
				failN := rapid.IntRange(0, 5).Draw(c.T, "fail")
				slow := rapid.SampledFrom([]time.Duration{0, 0, 0, 0, 0, 3 * time.Second, 40 * time.Second, 10 * time.Minute}).Draw(c.T, "slow")
				slowFirst := rapid.Bool().Draw(c.T, "slow first")
				first := true
				held := vfLive(st)
				p.hook = func(b []Commit) {
					if !first {
						return
					}
					first = false
					if slow > 0 {
						c.Logf("  the write takes %v", slow)
						c.Class("slow write")
						if slowFirst {
							time.Sleep(slow)
						} else {
							defer time.Sleep(slow)
						}
					}
					for _, o := range plan {
						k := keys[o.key]
						var v *vsa.VSA
						if h := held[k]; h != nil && !o.fresh && vfLive(st)[k] == h {
							v = h // a reference looked up earlier
						} else {
							v = st.GetOrCreate(k)
						}
						c.Logf("  during the write: %s", tr.do(k, v, o.kind, o.n))
						inCycle[k] = true
						inflight++
						if o.kind == 3 {
							refundsInflight++
						}
					}
				}
				n := 0
				p.failKey = func(string) bool {
					n++
					if failN == 0 || (failN == 1 && n == 1) {
						failures++
						return true
					}
					return false
				}
				before := len(vfLive(st))
				switch kind {
				case 0:
					w.runCommitCycle()
				case 1:
					w.runEvictionCycle()
				case 2:
					w.runFinalFlush()
				}
				if len(vfLive(st)) < before {
					evicted++
				}
				p.hook, p.failKey = nil, nil
				c.Logf("cycle %d: %s", kind, vfRowsOf(p.take()))
				if p.problem != "" {
					c.Failf("%s", p.problem)
				}
			}
			check := func() {
				for _, k := range keys {
					v := vfLive(st)[k]
					pend := int64(0)
					if v != nil {
						_, pend = v.State()
					}
					if inCycle[k] && v != nil {
						continue // storage may be ahead of memory: settled by the next flush
					}
					if p.durable[k]+pend != tr.net[k] {
						c.Failf("key %q: storage %d + in memory %d, but the operations add up to %d", k, p.durable[k], pend, tr.net[k])
					}
				}
			}
			flush := func() {
				w.runFinalFlush()
				c.Logf("flush: %s", vfRowsOf(p.take()))
				for _, k := range keys {
					if p.durable[k] != tr.net[k] {
						c.Failf("after a successful flush storage has %d for key %q, the operations add up to %d", p.durable[k], k, tr.net[k])
					}
					delete(inCycle, k)
				}
				n := p.calls
				w.runFinalFlush()
				if p.calls != n {
					c.Failf("a second flush wrote again: %s", vfRowsOf(p.take()))
				}
			}
			for i, steps := 0, rapid.IntRange(1, 40).Draw(c.T, "steps"); i < steps; i++ {
				switch a := rapid.IntRange(0, 13).Draw(c.T, "act"); {
				case a < 6:
					k := rapid.SampledFrom(keys).Draw(c.T, "k")
					c.Logf("%s", tr.do(k, st.GetOrCreate(k), rapid.IntRange(0, 5).Draw(c.T, "kind"), rapid.Int64Range(-9, 9).Draw(c.T, "n")))
				case a < 8:
					d := time.Duration(rapid.IntRange(1, 300).Draw(c.T, "s")) * time.Second
					time.Sleep(d)
					c.Logf("wait %v", d)
				case a < 10:
					cycle(0)
				case a < 12:
					cycle(1)
				case a == 12:
					cycle(2)
				case a == 13:
					flush()
				}
				check()
			}
			flush()
			check()
			if inflight > 0 && failures > 0 {
				c.NT("operations during a write, and failed writes")
			}
			if refundsInflight > 0 {
				c.Class("refund-during-write")
			}
			if evicted > 0 {
				c.Class("evicted")
			}
		})
	})
}

// TestC08Loops: the same through Start and Stop, on the loops' own schedule.
func TestC08Loops(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 8000, 80000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 4).Draw(c.T, "nkeys"))
			budget := rapid.Int64Range(1, 200).Draw(c.T, "budget")
			st := NewStoreWithOptions(budget, vfDrawStoreOpts(c.T, true))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			T := vfDrawThreshold(c.T, 20)
			low := rapid.Int64Range(0, max(0, T-1)).Draw(c.T, "low")
			ci := time.Duration(rapid.IntRange(1, 50).Draw(c.T, "ci")) * time.Second
			ei := time.Duration(rapid.IntRange(1, 50).Draw(c.T, "ei")) * time.Second
			evAge := time.Duration(rapid.IntRange(1, 100).Draw(c.T, "evAge")) * time.Second
			maxAge := time.Duration(rapid.IntRange(0, 60).Draw(c.T, "maxAge")) * time.Second
			w := NewWorker(st, p, T, low, ci, maxAge, evAge, ei)
			c.Logf("keys=%q budget=%d T=%d low=%d commit=%v evict=%v evAge=%v maxAge=%v", keys, budget, T, low, ci, ei, evAge, maxAge)
			tr := &vfTracker{st: st, net: map[string]int64{}}
			fail := false
			p.failKey = func(string) bool { return fail }
			w.Start()
			stopped := false
			defer func() {
				if !stopped {
					w.Stop()
				}
			}()
			writes := 0
			for i, steps := 0, rapid.IntRange(1, 40).Draw(c.T, "steps"); i < steps; i++ {
				switch a := rapid.IntRange(0, 9).Draw(c.T, "act"); {
				case a < 6:
					k := rapid.SampledFrom(keys).Draw(c.T, "k")
					c.Logf("%s", tr.do(k, st.GetOrCreate(k), rapid.IntRange(0, 5).Draw(c.T, "kind"), rapid.Int64Range(-9, 9).Draw(c.T, "n")))
				case a < 9:
					d := time.Duration(rapid.IntRange(1, 90).Draw(c.T, "s")) * time.Second
					time.Sleep(d + time.Millisecond)
					kit.Settle()
					calls := p.take()
					writes += len(calls)
					c.Logf("wait %v: %s", d, vfRowsOf(calls))
				default:
					fail = !fail
					c.Logf("storage failing: %v", fail)
				}
				if p.problem != "" {
					c.Failf("%s", p.problem)
				}
				l := vfLive(st)
				for _, k := range keys {
					pend := int64(0)
					if v := l[k]; v != nil {
						_, pend = v.State()
					}
					if p.durable[k]+pend != tr.net[k] {
						c.Failf("key %q: storage %d + pending %d, but the operations add up to %d", k, p.durable[k], pend, tr.net[k])
					}
				}
			}
			fail = rapid.IntRange(0, 3).Draw(c.T, "failLast") == 0
			// Storage may take its time over the last write. (No tick coincides with this, so nothing waits
			// for a mutex meanwhile, which would stop the fake clock.)
			kit.Settle()
			if slow := rapid.SampledFrom([]time.Duration{0, 0, 0, time.Second, 20 * time.Second, 10 * time.Minute}).Draw(c.T, "slow storage"); slow > 0 {
				p.mu.Lock()
				p.hook = func([]Commit) { time.Sleep(slow) }
				p.mu.Unlock()
				c.Logf("a write takes %v", slow)
				c.Class("slow last write")
			}
			w.Stop()
			w.Stop()
			stopped = true
			c.Logf("stop (storage failing: %v): %s", fail, vfRowsOf(p.take()))
			if fail {
				fail = false
				w.runFinalFlush() // nothing may have been given up
			}
			for _, k := range keys {
				if p.durable[k] != tr.net[k] {
					c.Failf("after shutdown storage has %d for key %q, the operations add up to %d", p.durable[k], k, tr.net[k])
				}
			}
			// stopped means stopped
			n := p.calls
			time.Sleep(10 * (ci + ei))
			kit.Settle()
			if p.calls != n {
				c.Failf("storage was written after Stop")
			}
			if writes > 0 && tr.ops > 3 {
				c.NT()
			}
		})
	})
}

// TestC08StopMidWrite: Stop while the commit loop or eviction is in the middle of a write, in
// real time: somebody has to wait for a mutex here, which a fake clock does not survive. The
// write then succeeds or fails, and other operations have happened meanwhile.
func TestC08StopMidWrite(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 600, 8000, func(c *kit.Case) {
		keys := vfDrawKeys(c.T, rapid.IntRange(2, 5).Draw(c.T, "nkeys"))
		st := NewStoreWithOptions(rapid.Int64Range(20, 200).Draw(c.T, "budget"), vfDrawStoreOpts(c.T, false))
		defer st.CloseAll()
		p := vfNewVPersister()
		p.err = kit.DrawFault(c.T)
		tr := &vfTracker{st: st, net: map[string]int64{}}
		evicting := rapid.IntRange(0, 2).Draw(c.T, "who") > 0
		T, ci, ei, evAge := int64(1), 300*time.Microsecond, time.Hour, time.Hour
		if evicting {
			T, ci, ei, evAge = 1<<40, time.Hour, 300*time.Microsecond, time.Nanosecond
		}
		// A hook shared by the loops: the first write waits, then succeeds or fails.
		began, release := make(chan struct{}), make(chan bool)
		var first sync.Once
		var failing atomic.Bool
		p.hook = func([]Commit) {
			first.Do(func() {
				close(began)
				failing.Store(<-release)
			})
		}
		p.failKey = func(string) bool { return failing.Swap(false) }
		w := NewWorker(st, p, T, 0, ci, 0, evAge, ei)
		for i, n := 0, rapid.IntRange(1, 4).Draw(c.T, "before"); i < n; i++ {
			k := keys[i%len(keys)]
			c.Logf("%s", tr.do(k, st.GetOrCreate(k), 0, rapid.Int64Range(1, 5).Draw(c.T, "n")))
		}
		counters := map[string]*vsa.VSA{}
		type step struct {
			k    string
			kind int
			n    int64
		}
		var during []step
		for i, n := 0, rapid.IntRange(0, 6).Draw(c.T, "during"); i < n; i++ {
			during = append(during, step{rapid.SampledFrom(keys).Draw(c.T, "k"), rapid.IntRange(0, 5).Draw(c.T, "kind"), rapid.Int64Range(-9, 9).Draw(c.T, "m")})
		}
		fails := rapid.IntRange(0, 2).Draw(c.T, "the write fails") == 0
		pause := rapid.SampledFrom([]time.Duration{0, 100 * time.Microsecond, time.Millisecond, 5 * time.Millisecond}).Draw(c.T, "pause")
		c.Logf("keys=%q eviction writes: %v, the write fails: %v", keys, evicting, fails)
		w.Start()
		<-began
		for _, s := range during {
			if counters[s.k] == nil {
				counters[s.k] = st.GetOrCreate(s.k)
			}
			c.Logf("meanwhile %s", tr.do(s.k, counters[s.k], s.kind, s.n))
		}
		stopped := make(chan struct{})
		go func() {
			w.Stop()
			close(stopped)
		}()
		time.Sleep(pause)
		release <- fails
		select {
		case <-stopped:
		case <-time.After(60 * time.Second):
			c.Failf("Stop has not returned within 60 s of the write's end")
		}
		c.Logf("after %v stop: %s", pause, vfRowsOf(p.take()))
		for _, k := range keys {
			if p.durable[k] != tr.net[k] {
				c.Failf("after shutdown storage has %d for key %q, the operations add up to %d", p.durable[k], k, tr.net[k])
			}
		}
		if p.problem != "" {
			c.Failf("%s", p.problem)
		}
		what := "commit loop"
		if evicting {
			what = "eviction"
		}
		c.NT("stopped in the middle of a write by the " + what)
	})
}

// c09key is the reference of the commit policy for one key.
type vfC09key struct {
	pending int64
	last    time.Time
	elig    bool
	maybe   bool // eligibility not determined by the statement
}

// TestC09Policy: the commit loop decides exactly as stated.
func TestC09Policy(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 30000, 300000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 3).Draw(c.T, "nkeys"))
			st := NewStoreWithOptions(100000, vfDrawStoreOpts(c.T, false))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			T := vfDrawThreshold(c.T, 10)
			low := rapid.Int64Range(0, max(0, T-1)).Draw(c.T, "low")
			if rapid.IntRange(0, 3).Draw(c.T, "nolow") == 0 {
				low = rapid.Int64Range(-3, 0).Draw(c.T, "low0")
			}
			ci := time.Duration(rapid.IntRange(1, 4).Draw(c.T, "ci")) * time.Second
			maxAge := time.Duration(rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 6, 8, 12}).Draw(c.T, "maxAge")) * time.Second
			if maxAge > 0 {
				// just under or over a whole number of seconds
				maxAge += rapid.SampledFrom([]time.Duration{0, 0, 1, -1, 700 * time.Microsecond, -300 * time.Microsecond, 499 * time.Millisecond}).Draw(c.T, "age fraction")
			}
			w := NewWorker(st, p, T, low, ci, maxAge, 1000*time.Hour, 1000*time.Hour)
			c.Logf("keys=%q T=%d low=%d interval=%v maxAge=%v", keys, T, low, ci, maxAge)
			m := map[string]*vfC09key{}
			tr := &vfTracker{st: st, net: map[string]int64{}}
			fail := false
			p.failKey = func(string) bool { return fail }
			var plan []vfPlannedOp
			touch := func(k string, kind int, n int64) string {
				if m[k] == nil {
					m[k] = &vfC09key{elig: true}
				}
				before := tr.net[k]
				s := tr.do(k, st.GetOrCreate(k), kind, n)
				m[k].pending += tr.net[k] - before
				m[k].last = time.Now()
				return s
			}
			p.hook = func(b []Commit) {
				for _, o := range plan {
					c.Logf("  during the write: %s", touch(keys[o.key], o.kind, o.n))
				}
				plan = nil
			}
			w.Start()
			stopped := false
			defer func() {
				if !stopped {
					w.Stop()
				}
			}()
			start := time.Now()
			var thr, age, retry, held, busy int
			lastFailed := map[string]bool{}
			for cyc, n := 1, rapid.IntRange(2, 25).Draw(c.T, "cycles"); cyc <= n; cyc++ {
				// operations shortly after the cycle
				time.Sleep(rapid.SampledFrom([]time.Duration{0, 0, 1, 300 * time.Microsecond, 499 * time.Millisecond}).Draw(c.T, "after the cycle"))
				for i, o := 0, rapid.IntRange(0, 4).Draw(c.T, "ops"); i < o; i++ {
					k := rapid.SampledFrom(keys).Draw(c.T, "k")
					n := rapid.Int64Range(-6, 8).Draw(c.T, "n")
					c.Logf("%s", touch(k, rapid.IntRange(0, 6).Draw(c.T, "kind"), n))
				}
				fail = rapid.IntRange(0, 4).Draw(c.T, "fail") == 0
				plan = nil
				if rapid.IntRange(0, 2).Draw(c.T, "busy") == 0 {
					plan = vfDrawPlanned(c.T, len(keys), 3)
				}
				at := start.Add(time.Duration(cyc) * ci)
				want := map[string]int64{}
				either := map[string]bool{}
				for k, s := range m {
					byThr := s.pending != 0 && vfVabs(s.pending) >= T
					byAge := maxAge > 0 && s.pending != 0 && at.Sub(s.last) >= maxAge
					if byThr && (low <= 0 || s.elig) {
						want[k] = s.pending
						thr++
						if lastFailed[k] {
							retry++
						}
					} else if byAge {
						want[k] = s.pending
						age++
					} else if byThr {
						held++
					}
				}
				for k, s := range m {
					if !s.elig && vfVabs(s.pending) <= low {
						s.elig = true // found at or below the low watermark by this cycle
					}
					_ = k
				}
				hadPlan := len(plan) > 0
				pendBefore := map[string]int64{}
				for k, s := range m {
					pendBefore[k] = s.pending
				}
				time.Sleep(at.Sub(time.Now()))
				kit.Settle()
				calls := p.take()
				c.Logf("cycle %d (storage failing: %v): %s", cyc, fail, vfRowsOf(calls))
				got := map[string]int64{}
				for _, b := range calls {
					for _, r := range b {
						if _, dup := got[r.Key]; dup {
							c.Failf("cycle %d wrote key %q twice", cyc, r.Key)
						}
						got[r.Key] = r.Vector
					}
				}
				if p.problem != "" {
					c.Failf("%s", p.problem)
				}
				for _, k := range vfSortedKeys(want) {
					if g, ok := got[k]; !ok {
						c.Failf("cycle %d did not write key %q, pending %d (T=%d low=%d eligible, idle %v of %v)", cyc, k, want[k], T, low, at.Sub(m[k].last), maxAge)
					} else if g != want[k] {
						c.Failf("cycle %d wrote %d for key %q, pending is %d", cyc, g, k, want[k])
					}
				}
				for _, k := range vfSortedKeys(got) {
					if _, ok := want[k]; !ok && !either[k] {
						c.Failf("cycle %d wrote key %q (pending %d, T=%d low=%d) although neither threshold nor age called for it", cyc, k, pendBefore[k], T, low)
					}
				}
				if len(calls) > 1 {
					c.Failf("cycle %d called storage %d times", cyc, len(calls))
				}
				lastFailed = map[string]bool{}
				for k := range want {
					if fail {
						lastFailed[k] = true // eligibility unchanged: retried
						continue
					}
					m[k].pending -= want[k]
					m[k].elig = vfVabs(m[k].pending) <= low
				}
				if hadPlan && len(want) > 0 {
					busy++
				}
				for k, s := range m {
					if tr.net[k]-p.durable[k] != s.pending {
						c.Failf("key %q: the operations add up to %d, storage has %d, pending should be %d", k, tr.net[k], p.durable[k], s.pending)
					}
				}
			}
			fail = false
			plan = nil
			w.Stop()
			stopped = true
			for k := range m {
				if p.durable[k] != tr.net[k] {
					c.Failf("after Stop storage has %d for key %q instead of %d", p.durable[k], k, tr.net[k])
				}
			}
			if thr > 0 && (held > 0 || age > 0 || retry > 0) {
				c.NT()
			}
			for l, n := range map[string]int{"threshold": thr, "age": age, "retry": retry, "held-by-hysteresis": held, "traffic-during-write": busy} {
				if n > 0 {
					c.Class(l)
				}
			}
		})
	})
}

// TestC10Eviction: the eviction loop, next to traffic, failures and traffic during a write.
func TestC10Eviction(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 25000, 250000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 5).Draw(c.T, "nkeys"))
			budget := rapid.Int64Range(1, 100).Draw(c.T, "budget")
			st := NewStoreWithOptions(budget, vfDrawStoreOpts(c.T, true))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			ei := time.Duration(rapid.IntRange(1, 5).Draw(c.T, "ei")) * time.Second
			evAge := time.Duration(rapid.IntRange(1, 12).Draw(c.T, "evAge")) * time.Second
			w := NewWorker(st, p, 1<<40, 0, 1000*time.Hour, 0, evAge, ei)
			c.Logf("keys=%q budget=%d every %v, age %v", keys, budget, ei, evAge)
			tr := &vfTracker{st: st, net: map[string]int64{}}
			last := map[string]time.Time{}
			failing := map[string]bool{}
			p.failKey = func(k string) bool { return failing[k] }
			var plan map[string][]vfPlannedOp
			usedInWrite, mustStay := map[string]bool{}, map[string]bool{}
			var before map[string]*vsa.VSA
			dirty := map[string]bool{} // operations landed during this key's write at some time
			p.hook = func(b []Commit) {
				for _, r := range b {
					for _, o := range plan[r.Key] {
						k := r.Key
						if o.key > 0 { // another key, whose turn may be still to come
							k = keys[(o.key-1)%len(keys)]
						}
						var v *vsa.VSA
						if h := vfLive(st)[k]; h != nil && !o.fresh && k == r.Key {
							v = h
						} else {
							if h != nil && h == before[k] {
								mustStay[k] = true
							}
							v = st.GetOrCreate(k)
							last[k] = time.Now()
						}
						c.Logf("  during the write of %q: %s (fresh lookup: %v)", r.Key, tr.do(k, v, o.kind, o.n), o.fresh)
						usedInWrite[k] = true
						if k == r.Key {
							dirty[k] = true
						}
					}
				}
			}
			w.Start()
			stopped := false
			defer func() {
				if !stopped {
					w.Stop()
				}
			}()
			start := time.Now()
			var evicted, kept, failedW, saved int
			for cyc, n := 1, rapid.IntRange(1, 20).Draw(c.T, "cycles"); cyc <= n; cyc++ {
				at := start.Add(time.Duration(cyc) * ei)
				for i, o := 0, rapid.IntRange(0, 3).Draw(c.T, "ops"); i < o; i++ {
					k := rapid.SampledFrom(keys).Draw(c.T, "k")
					v := st.GetOrCreate(k)
					last[k] = time.Now()
					c.Logf("%s", tr.do(k, v, rapid.IntRange(0, 5).Draw(c.T, "kind"), rapid.Int64Range(-9, 9).Draw(c.T, "n")))
				}
				failing = map[string]bool{}
				plan = map[string][]vfPlannedOp{}
				for _, k := range keys {
					failing[k] = rapid.IntRange(0, 4).Draw(c.T, "fail") == 0
					if rapid.IntRange(0, 3).Draw(c.T, "busy") == 0 {
						plan[k] = vfDrawPlanned(c.T, len(keys)+1, 3)
					}
				}
				usedInWrite, mustStay = map[string]bool{}, map[string]bool{}
				before = vfLive(st)
				recently := map[string]time.Time{}
				for k, l := range last {
					recently[k] = l
				}
				pend, stale := map[string]int64{}, map[string]bool{}
				for k := range before {
					pend[k] = tr.net[k] - p.durable[k]
					stale[k] = at.Sub(last[k]) > evAge
				}
				time.Sleep(at.Sub(time.Now()))
				kit.Settle()
				calls := p.take()
				after := vfLive(st)
				c.Logf("eviction %d (failing %v): %s, %d -> %d keys", cyc, failing, vfRowsOf(calls), len(before), len(after))
				if p.problem != "" {
					c.Failf("%s", p.problem)
				}
				wrote := map[string]bool{}
				for _, b := range calls {
					for _, r := range b {
						if !stale[r.Key] {
							c.Failf("eviction wrote key %q, which was used %v ago (age %v)", r.Key, at.Sub(recently[r.Key]), evAge)
						}
						if wrote[r.Key] {
							c.Failf("eviction wrote key %q twice in one cycle", r.Key)
						}
						wrote[r.Key] = true
						if r.Vector != pend[r.Key] {
							c.Failf("eviction wrote %d for key %q, its remainder was %d", r.Vector, r.Key, pend[r.Key])
						}
					}
				}
				for _, k := range vfSortedKeys(before) {
					gone := after[k] != before[k]
					if gone && mustStay[k] {
						c.Failf("key %q was evicted although it was looked up during the cycle, before its turn or during its final write", k)
					}
					if gone && after[k] != nil {
						if !usedInWrite[k] {
							c.Failf("the counter of key %q was replaced", k)
						}
						// evicted, then used again during the write of another key
						if _, v := after[k].State(); v != tr.net[k]-p.durable[k] {
							c.Failf("key %q was evicted and used again: %d in memory, %d unpersisted", k, v, tr.net[k]-p.durable[k])
						}
						delete(dirty, k)
						evicted++
						continue
					}
					rest := tr.net[k] - p.durable[k] // now
					switch {
					case !stale[k]:
						if gone {
							c.Failf("key %q was evicted although it was used %v ago (age %v)", k, at.Sub(recently[k]), evAge)
						}
						kept++
					case gone:
						evicted++
						if rest != 0 {
							c.Failf("key %q was evicted with a remainder of %d that storage never accepted", k, rest)
						}
						if pend[k] != 0 && failing[k] {
							c.Failf("key %q was evicted although its final write failed", k)
						}
					default: // stale and still there
						if pend[k] != 0 && failing[k] {
							failedW++
							if wrote[k] && !usedInWrite[k] {
								_, v := after[k].State()
								if !dirty[k] && v != pend[k] {
									c.Failf("failed eviction changed key %q from %d to %d", k, pend[k], v)
								}
							}
						} else if usedInWrite[k] {
							saved++
						} else {
							c.Failf("key %q is idle for %v (age %v) and its remainder %d could be written, but it was not evicted", k, at.Sub(recently[k]), evAge, pend[k])
						}
					}
					if !gone && !dirty[k] {
						if _, v := after[k].State(); v != rest {
							c.Failf("key %q: in memory %d, unpersisted %d", k, v, rest)
						}
					}
				}
				for k := range dirty {
					if after[k] == nil {
						delete(dirty, k)
					}
				}
			}
			failing, plan = map[string]bool{}, nil
			w.Stop()
			stopped = true
			for _, k := range keys {
				if p.durable[k] != tr.net[k] {
					c.Failf("in the end storage has %d for key %q, the operations add up to %d", p.durable[k], k, tr.net[k])
				}
			}
			if evicted > 0 && (failedW > 0 || saved > 0 || kept > 0) {
				c.NT("evicted")
			}
			for l, n := range map[string]int{"kept": kept, "write-failed": failedW, "used-during-write": saved} {
				if n > 0 {
					c.Class(l)
				}
			}
		})
	})
}

// TestC11Rows: bounds on what storage sees over whole histories.
func TestC11Rows(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 15000, 150000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 6).Draw(c.T, "nkeys"))
			st := NewStoreWithOptions(1<<40, vfDrawStoreOpts(c.T, false))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			T := vfDrawThreshold(c.T, 30)
			low := rapid.Int64Range(0, max(0, T-1)).Draw(c.T, "low")
			maxAge := time.Duration(rapid.IntRange(0, 10).Draw(c.T, "maxAge")) * time.Second
			evAge := time.Duration(rapid.IntRange(1, 20).Draw(c.T, "evAge")) * time.Second
			w := NewWorker(st, p, T, low, 2*time.Second, maxAge, evAge, 3*time.Second)
			tr := &vfTracker{st: st, net: map[string]int64{}}
			fail := false
			p.failKey = func(string) bool { return fail }
			c.Logf("keys=%q T=%d low=%d maxAge=%v evAge=%v", keys, T, low, maxAge, evAge)
			w.Start()
			stopped := false
			defer func() {
				if !stopped {
					w.Stop()
				}
			}()
			start := time.Now()
			rows, cycles := 0, 0
			for i, steps := 1, rapid.IntRange(1, 30).Draw(c.T, "steps"); i <= steps; i++ {
				n := rapid.SampledFrom([]int{0, 1, 5, 40, 200}).Draw(c.T, "events")
				for j := 0; j < n; j++ {
					k := keys[(i*7+j)%len(keys)]
					tr.do(k, st.GetOrCreate(k), []int{0, 3, 5, 0, 4, 0}[(i+j)%6], int64(j%5)-2)
				}
				fail = rapid.IntRange(0, 5).Draw(c.T, "fail") == 0
				time.Sleep(start.Add(time.Duration(i)*time.Second + time.Millisecond).Sub(time.Now()))
				kit.Settle()
				calls := p.take()
				tick := 0
				if i%2 == 0 {
					tick++
				}
				if i%3 == 0 {
					tick++
				}
				cycles += tick
				c.Logf("%d events, storage failing %v, second %d: %s", n, fail, i, vfRowsOf(calls))
				if p.problem != "" {
					c.Failf("%s", p.problem)
				}
				per := map[string]int{}
				for _, b := range calls {
					for _, r := range b {
						per[r.Key]++
						rows++
						if per[r.Key] > tick {
							c.Failf("%d rows for key %q in %d cycle(s)", per[r.Key], r.Key, tick)
						}
					}
				}
			}
			fail = false
			w.Stop()
			stopped = true
			calls := p.take()
			if len(calls) > 1 {
				c.Failf("the final flush called storage %d times", len(calls))
			}
			for _, b := range calls {
				rows += len(b)
			}
			cycles++
			if p.problem != "" {
				c.Failf("%s", p.problem)
			}
			if rows > len(keys)*cycles {
				c.Failf("%d rows for %d keys and %d cycles", rows, len(keys), cycles)
			}
			for _, k := range keys {
				if p.durable[k] != tr.net[k] {
					c.Failf("storage has %d for key %q instead of %d", p.durable[k], k, tr.net[k])
				}
			}
			if tr.ops > 10*rows && rows > 0 {
				c.NT("ten times fewer rows than events")
			}
			c.Logf("%d events, %d rows, %d cycles", tr.ops, rows, cycles)
		})
	})
}

// TestC11Cancelling: traffic that stays below the threshold and cancels out writes nothing.
func TestC11Cancelling(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 10000, 100000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 4).Draw(c.T, "nkeys"))
			st := NewStoreWithOptions(1<<40, vfDrawStoreOpts(c.T, false))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			T := rapid.Int64Range(2, 20).Draw(c.T, "T")
			low := rapid.Int64Range(0, max(0, T-1)).Draw(c.T, "low")
			evAge := 100 * time.Hour
			maxAge := time.Duration(0)
			if rapid.Bool().Draw(c.T, "aging") { // pairs cancel within a second; ages are longer
				maxAge, evAge = 5*time.Second, 8*time.Second
			}
			w := NewWorker(st, p, T, low, 2*time.Second, maxAge, evAge, 3*time.Second)
			c.Logf("keys=%q T=%d low=%d maxAge=%v evAge=%v", keys, T, low, maxAge, evAge)
			w.Start()
			stopped := false
			defer func() {
				if !stopped {
					w.Stop()
				}
			}()
			net := map[string]int64{}
			ops, crossed := 0, false
			undo := func(k string) {
				v := st.GetOrCreate(k)
				if net[k] > 0 && rapid.Bool().Draw(c.T, "refund") {
					v.TryRefund(net[k])
				} else if net[k] != 0 {
					v.Update(-net[k])
				}
				net[k] = 0
				ops++
			}
			for i, steps := 0, rapid.IntRange(1, 40).Draw(c.T, "steps"); i < steps; i++ {
				k := rapid.SampledFrom(keys).Draw(c.T, "k")
				v := st.GetOrCreate(k)
				// stay strictly below the threshold whenever a cycle can look
				d := rapid.Int64Range(-(T-1), T-1).Draw(c.T, "d")
				d -= net[k]
				if d > 0 && rapid.Bool().Draw(c.T, "consume") {
					if !v.TryConsume(d) {
						c.Failf("TryConsume(%d) refused with %d available", d, v.Available())
					}
				} else {
					v.Update(d)
				}
				net[k] += d
				ops++
				c.Logf("%q -> %d", k, net[k])
				if maxAge > 0 || rapid.Bool().Draw(c.T, "cancel") {
					undo(k)
				}
				if rapid.IntRange(0, 2).Draw(c.T, "wait") == 0 {
					s := rapid.IntRange(1, 12).Draw(c.T, "s")
					time.Sleep(time.Duration(s)*time.Second + time.Millisecond)
					kit.Settle()
					c.Logf("wait %ds", s)
					crossed = true
				}
			}
			for _, k := range keys {
				if net[k] != 0 {
					undo(k)
				}
			}
			time.Sleep(20 * time.Second)
			kit.Settle()
			w.Stop()
			stopped = true
			if p.calls != 0 {
				c.Failf("traffic that cancels out below the threshold was written: %s", vfRowsOf(p.take()))
			}
			if crossed && ops > 5 {
				c.NT()
			}
		})
	})
}

var _ = fmt.Sprint

// TestC11Landing: operations land while batches are written, and later exactly cancel what
// storage is short of or ahead by: there is nothing to do then, whatever memory looks like.
func TestC11Landing(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 16000, 160000, func(c *kit.Case) {
		kit.Bubble(func() {
			keys := vfDrawKeys(c.T, rapid.IntRange(1, 3).Draw(c.T, "nkeys"))
			st := NewStoreWithOptions(1<<40, vfDrawStoreOpts(c.T, false))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			T := vfDrawThreshold(c.T, 12)
			low := rapid.Int64Range(0, max(0, T-1)).Draw(c.T, "low")
			maxAge := time.Duration(rapid.IntRange(0, 2).Draw(c.T, "maxAge")) * time.Minute
			w := NewWorker(st, p, T, low, time.Hour, maxAge, 3*time.Minute, time.Hour)
			tr := &vfTracker{st: st, net: map[string]int64{}}
			c.Logf("keys=%q T=%d low=%d maxAge=%v", keys, T, low, maxAge)
			landed, settled := map[string]bool{}, false
			for i, steps := 0, rapid.IntRange(3, 30).Draw(c.T, "steps"); i < steps; i++ {
				a := rapid.IntRange(0, 10).Draw(c.T, "act")
				if a == 10 || a == 4 { // everything is in storage, then a quiet spell and a cycle
					for _, k := range keys {
						if d := p.durable[k] - tr.net[k]; d != 0 {
							c.Logf("%s", tr.do(k, st.GetOrCreate(k), 4, d))
						}
						if landed[k] {
							settled = true
						}
					}
					time.Sleep(2*time.Minute + 30*time.Second)
					c.Logf("quiet")
					a = rapid.IntRange(6, 9).Draw(c.T, "act2")
				}
				switch {
				case a < 3:
					k := rapid.SampledFrom(keys).Draw(c.T, "k")
					c.Logf("%s", tr.do(k, st.GetOrCreate(k), rapid.IntRange(0, 5).Draw(c.T, "kind"), rapid.Int64Range(-2*max(T, 1), 2*max(T, 1)).Draw(c.T, "n")))
				case a < 4: // cancel what is missing in storage
					for _, k := range keys {
						if d := p.durable[k] - tr.net[k]; d != 0 {
							c.Logf("%s", tr.do(k, st.GetOrCreate(k), 4, d))
						}
						if landed[k] {
							settled = true
						}
					}
				case a < 6:
					d := time.Duration(rapid.IntRange(1, 300).Draw(c.T, "s")) * time.Second
					time.Sleep(d)
					c.Logf("wait %v", d)
				default:
					plan := vfDrawPlanned(c.T, len(keys), 3)
					p.hook = func(b []Commit) {
						for _, o := range plan {
							k := keys[o.key]
							c.Logf("  during the write: %s", tr.do(k, st.GetOrCreate(k), o.kind, o.n))
							landed[k] = true
						}
						plan = nil
					}
					fail := rapid.IntRange(0, 5).Draw(c.T, "fail") == 0
					p.failKey = func(string) bool { return fail }
					idle := true
					for _, k := range keys {
						idle = idle && p.durable[k] == tr.net[k]
					}
					n := p.calls
					switch a {
					case 6, 7:
						w.runCommitCycle()
					case 8:
						w.runEvictionCycle()
					case 9:
						w.runFinalFlush()
					}
					p.hook, p.failKey = nil, nil
					c.Logf("cycle %d, failing %v: %s", a, fail, vfRowsOf(p.take()))
					if p.problem != "" {
						c.Failf("%s", p.problem)
					}
					if idle && p.calls != n {
						c.Failf("storage was called although it had everything")
					}
					if idle && settled {
						c.NT("an idle cycle after operations that landed during a write were cancelled")
					}
				}
			}
		})
	})
}

// manyKeys: stores with many keys, where a cycle handles hundreds or thousands at once.
func vfManyKeys(c *kit.Case) {
	n := rapid.SampledFrom([]int{50, 300, 1000, 2000, 4000, 9000}).Draw(c.T, "keys scale") + rapid.IntRange(0, 999).Draw(c.T, "keys")
	T := vfDrawThreshold(c.T, 10)
	if rapid.Bool().Draw(c.T, "most below the threshold") {
		T = 50
	}
	st := NewStoreWithOptions(1<<40, vsa.Options{})
	defer st.CloseAll()
	p := vfNewVPersister()
	p.err = kit.DrawFault(c.T)
	maxAge := time.Duration(0)
	if rapid.Bool().Draw(c.T, "maxAge") {
		maxAge = time.Minute
	}
	w := NewWorker(st, p, T, 0, time.Hour, maxAge, 3*time.Minute, time.Hour)
	net := map[string]int64{}
	rnd := uint64(rapid.IntRange(0, 1<<30).Draw(c.T, "seed"))
	next := func(m int64) int64 {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		return int64(rnd>>33) % m
	}
	c.Logf("%d keys, T=%d, max-age %v", n, T, maxAge)
	pend := func(k string) int64 { return net[k] - p.durable[k] }
	// a write fails whole: always, or if it has a certain key in it
	drawFail := func() bool {
		bad := ""
		mode := rapid.IntRange(0, 5).Draw(c.T, "fail")
		if mode < 2 {
			bad = fmt.Sprintf("key-%d", rapid.IntRange(0, n-1).Draw(c.T, "bad key"))
			c.Logf("storage refuses writes with %s", bad)
		}
		p.failKey = func(k string) bool { return mode == 2 || k == bad }
		return mode <= 2
	}
	written := 0
	for round, rounds := 0, rapid.IntRange(1, 4).Draw(c.T, "rounds"); round < rounds; round++ {
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("key-%d", i)
			d := next(3*max(T, 1)+1) - next(3*max(T, 1)+1)
			if T == 50 && next(20) > 0 {
				d = 1 + next(3)
			}
			if next(4) == 0 {
				d = 0
			}
			st.GetOrCreate(k).Update(d)
			net[k] += d
		}
		idle := rapid.Bool().Draw(c.T, "idle")
		if idle {
			time.Sleep(2 * time.Minute)
		}
		fail := drawFail()
		want := map[string]int64{}
		for k := range net {
			if d := pend(k); d != 0 && (vfVabs(d) >= T || idle && maxAge > 0) {
				want[k] = d
			}
		}
		p.take()
		w.runCommitCycle()
		c.Logf("round %d: %d keys due, storage failing %v", round, len(want), fail)
		calls := p.take()
		got := map[string]int64{}
		for _, b := range calls {
			for _, r := range b {
				got[r.Key] += r.Vector
			}
		}
		for k, d := range want {
			if !fail && got[k] != d {
				c.Failf("%d of %d due keys: key %q has %d pending, the cycle wrote %d", len(got), len(want), k, d, got[k])
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok {
				c.Failf("key %q was written but is not due", k)
			}
		}
		if p.problem != "" {
			c.Failf("%s", p.problem)
		}
		for k, v := range vfLive(st) {
			if _, m := v.State(); m != pend(k) {
				c.Failf("after a cycle that wrote %d rows (storage failing %v) key %q: operations %d, storage %d, memory %d", len(got), fail, k, net[k], p.durable[k], m)
			}
		}
		if !fail {
			written = max(written, len(got))
		} else if len(want) > 1000 {
			c.Class("more than 1000 due rows and a failing write")
		}
	}
	fail := drawFail()
	if rapid.Bool().Draw(c.T, "evict") {
		time.Sleep(4 * time.Minute)
		w.runEvictionCycle()
		left := vfLive(st)
		for k := range net {
			if left[k] == nil && pend(k) != 0 {
				c.Failf("key %q was evicted with %d unpersisted", k, pend(k))
			}
			if left[k] != nil && (!fail || pend(k) == 0) {
				c.Failf("idle key %q was not evicted", k)
			}
		}
	}
	w.runFinalFlush()
	mem := vfLive(st)
	for k := range net {
		m := int64(0)
		if mem[k] != nil {
			_, m = mem[k].State()
		}
		if !fail && pend(k) != 0 || pend(k) != m {
			c.Failf("after the flush (storage failing %v) key %q: operations %d, storage %d, memory %d", fail, k, net[k], p.durable[k], m)
		}
	}
	if written > 200 {
		c.NT("more than 200 rows in one cycle")
	}
}

func TestC08Many(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 60, 800, func(c *kit.Case) { kit.Bubble(func() { vfManyKeys(c) }) })
}

func TestC09Many(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 60, 800, func(c *kit.Case) { kit.Bubble(func() { vfManyKeys(c) }) })
}

func TestC10Many(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 60, 800, func(c *kit.Case) { kit.Bubble(func() { vfManyKeys(c) }) })
}

func TestC11Many(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 60, 800, func(c *kit.Case) { kit.Bubble(func() { vfManyKeys(c) }) })
}

// TestC10SlowWrite: storage takes its time over the final write of an idle key: the key stays,
// with its state, until the write has been accepted, however long that takes.
func TestC10SlowWrite(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 3000, 30000, func(c *kit.Case) {
		kit.Bubble(func() {
			st := NewStoreWithOptions(100, vfDrawStoreOpts(c.T, false))
			defer st.CloseAll()
			p := vfNewVPersister()
			p.err = kit.DrawFault(c.T)
			w := NewWorker(st, p, 1000, 0, time.Hour, 0, time.Minute, time.Hour)
			n := rapid.IntRange(1, 4).Draw(c.T, "keys")
			net := map[string]int64{}
			for i := 0; i < n; i++ {
				k := fmt.Sprint("k", i)
				net[k] = int64(rapid.IntRange(-3, 9).Draw(c.T, "n"))
				st.GetOrCreate(k).Update(net[k])
			}
			slow := rapid.SampledFrom([]time.Duration{time.Second, 8 * time.Second, 2 * time.Minute, 3 * time.Hour}).Draw(c.T, "slow")
			failing := map[string]bool{}
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 3).Draw(c.T, "fail") == 0 {
					failing[fmt.Sprint("k", i)] = true
				}
			}
			p.failKey = func(k string) bool { return failing[k] }
			type write struct {
				key string
				at  time.Time
			}
			writing := make(chan write, 2*n+2)
			p.hook = func(b []Commit) {
				for _, r := range b {
					writing <- write{r.Key, time.Now()}
				}
				time.Sleep(slow)
			}
			c.Logf("net %v failing %v, a write takes %v", net, failing, slow)
			time.Sleep(2 * time.Minute)
			done := make(chan struct{})
			go func() {
				defer close(done)
				w.runEvictionCycle()
			}()
			writes := 0
			for ended := false; !ended; {
				select {
				case x := <-writing:
					k := x.key
					writes++
					for _, part := range []time.Duration{0, slow / 2, slow - time.Millisecond} {
						if time.Since(x.at) > part {
							continue // several writes at once
						}
						time.Sleep(part - time.Since(x.at))
						if v := vfLive(st)[k]; v == nil {
							c.Failf("key %q has been removed while its final write is still in progress", k)
						} else if _, got := v.State(); got != net[k] {
							c.Failf("key %q holds %d of %d while its final write is still in progress", k, got, net[k])
						}
					}
				case <-done:
					ended = true
				}
			}
			time.Sleep(slow + time.Second)
			kit.Settle()
			live := vfLive(st)
			for k, x := range net {
				switch v := live[k]; {
				case failing[k] && x != 0:
					if v == nil {
						c.Failf("key %q was removed although its final write failed", k)
					}
					if _, got := v.State(); got != x || p.durable[k] != 0 {
						c.Failf("key %q holds %d of %d after its final write failed, storage %d", k, got, x, p.durable[k])
					}
				case v != nil:
					c.Failf("key %q is idle and its remainder was accepted, but it is still there", k)
				case p.durable[k] != x:
					c.Failf("key %q is gone, storage has %d of %d", k, p.durable[k], x)
				}
			}
			if p.problem != "" {
				c.Failf("%s", p.problem)
			}
			if writes > 0 {
				c.NT()
			}
		})
	})
}
