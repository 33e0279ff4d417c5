package core

// C07: one live, isolated counter per key. No fake clock here.

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	kit "vsa/internal/verifkit"
)

func vfDrawAnyKey(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "key?") {
	case 0:
		return rapid.SampledFrom(vfOddKeys).Draw(t, "key")
	case 1:
		return rapid.StringN(0, 12, 40).Draw(t, "key")
	case 2:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "key"))
	default:
		return fmt.Sprintf("user-%d", rapid.IntRange(0, 40).Draw(t, "key"))
	}
}

func TestC07Isolation(t *testing.T) {
	kit.Run(t, 4000, 40000, func(c *kit.Case) {
		budget := rapid.Int64Range(0, 30).Draw(c.T, "budget")
		opts := vfDrawStoreOpts(c.T, true)
		deny := false
		if rapid.IntRange(0, 4).Draw(c.T, "deny") == 0 {
			// an option with a visible effect: the slack makes the gate refuse everything
			opts = vsa.Options{UseCachedGate: true, CacheInterval: time.Hour, CacheSlack: budget}
			deny = true
		}
		st := NewStoreWithOptions(budget, opts)
		if !opts.UseCachedGate && rapid.IntRange(0, 9).Draw(c.T, "plain") == 0 {
			st = NewStore(budget)
		}
		defer st.CloseAll()
		c.Logf("budget=%d deny=%v fast=%d cached=%v", budget, deny, opts.FastPathGuard, opts.UseCachedGate)
		type ref struct {
			v   *vsa.VSA
			net int64
			s   int64
		}
		m := map[string]*ref{}
		ptrs := map[*vsa.VSA]string{}
		created, deleted := 0, 0
		n := rapid.IntRange(1, 40).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			var k string
			if len(m) > 0 && rapid.Bool().Draw(c.T, "known") {
				k = rapid.SampledFrom(vfSortedKeys(m)).Draw(c.T, "k")
			} else {
				k = vfDrawAnyKey(c.T)
			}
			if rapid.IntRange(0, 9).Draw(c.T, "del") == 0 {
				st.Delete(k)
				c.Logf("Delete(%q)", k)
				if m[k] != nil {
					delete(ptrs, m[k].v)
					deleted++
				}
				delete(m, k)
			} else {
				v := st.GetOrCreate(k)
				r := m[k]
				if r == nil {
					r = &ref{v: v, s: budget}
					m[k] = r
					created++
					if other, dup := ptrs[v]; dup {
						c.Failf("keys %q and %q share a counter", k, other)
					}
					ptrs[v] = k
					if s, net := v.State(); s != budget || net != 0 {
						c.Failf("new counter for %q starts as (%d,%d), budget %d", k, s, net, budget)
					}
				} else if r.v != v {
					c.Failf("two counters for key %q", k)
				}
				switch rapid.IntRange(0, 4).Draw(c.T, "op") {
				case 0, 1:
					x := rapid.Int64Range(1, 5).Draw(c.T, "n")
					ok := v.TryConsume(x)
					c.Logf("%q consume(%d)=%v", k, x, ok)
					if deny && ok {
						c.Failf("counter of %q was not created with the configured options", k)
					}
					if ok {
						r.net += x
					} else if !opts.UseCachedGate && r.s-vfVabs(r.net) >= x {
						c.Failf("%q refused %d with %d available", k, x, r.s-vfVabs(r.net))
					}
				case 2:
					x := rapid.Int64Range(-3, 3).Draw(c.T, "n")
					v.Update(x)
					r.net += x
					c.Logf("%q update(%d)", k, x)
				case 3:
					v.Commit(r.net)
					r.s -= vfVabs(r.net)
					r.net = 0
					c.Logf("%q commit", k)
				}
			}
			seen := map[string]int{}
			st.ForEach(func(k string, mv *managedVSA) {
				seen[k]++
				if m[k] == nil {
					c.Failf("the store has key %q which was never used or was deleted", k)
				}
				if mv.instance != m[k].v {
					c.Failf("ForEach shows another counter for %q", k)
				}
			})
			for k, r := range m {
				if seen[k] != 1 {
					c.Failf("ForEach shows key %q %d times", k, seen[k])
				}
				if s, net := r.v.State(); s != r.s || net != r.net {
					c.Failf("counter of %q is (%d,%d), its own operations make it (%d,%d)", k, s, net, r.s, r.net)
				}
			}
		}
		if created >= 3 && deleted > 0 {
			c.NT()
		}
	})
}

// settleGoroutines waits for the number of goroutines to come down to want.
func vfSettleGoroutines(want int) (int, bool) {
	deadline := time.Now().Add(20 * time.Second)
	for {
		n := runtime.NumGoroutine()
		if n <= want {
			return n, true
		}
		if time.Now().After(deadline) {
			return n, false
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// TestC07Races: goroutines race to look up the same keys; background work is counted.
func TestC07Races(t *testing.T) {
	kit.Run(t, 400, 4000, func(c *kit.Case) {
		base := runtime.NumGoroutine()
		cached := rapid.IntRange(0, 3).Draw(c.T, "cached") > 0
		var opts vsa.Options
		if cached {
			opts = vsa.Options{UseCachedGate: true, CacheInterval: rapid.SampledFrom([]time.Duration{50 * time.Microsecond, time.Hour}).Draw(c.T, "interval")}
		}
		st := NewStoreWithOptions(1000000, opts)
		workers := rapid.IntRange(2, 10).Draw(c.T, "workers")
		nkeys := rapid.IntRange(1, 6).Draw(c.T, "nkeys")
		rounds := rapid.IntRange(1, 4).Draw(c.T, "rounds")
		del := rapid.IntRange(0, 2).Draw(c.T, "del")
		seed := rapid.Int64().Draw(c.T, "seed")
		c.Logf("workers=%d keys=%d rounds=%d cached=%v deletes=%d seed=%d", workers, nkeys, rounds, cached, del, seed)
		for r := 0; r < rounds; r++ {
			got := make([][]*vsa.VSA, workers)
			start := make(chan struct{})
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					rng := rand.New(rand.NewSource(seed + int64(w)))
					res := make([]*vsa.VSA, nkeys)
					<-start
					for _, k := range rng.Perm(nkeys) {
						res[k] = st.GetOrCreate(fmt.Sprintf("key-%d", k))
						res[k].Update(1)
					}
					got[w] = res
				}(w)
			}
			close(start)
			wg.Wait()
			for k := 0; k < nkeys; k++ {
				for w := 1; w < workers; w++ {
					if got[w][k] != got[0][k] {
						c.Failf("concurrent lookups of one key returned two counters")
					}
				}
			}
			l := vfLive(st)
			if len(l) != nkeys {
				c.Failf("%d counters for %d keys", len(l), nkeys)
			}
			want := base
			if cached {
				want += nkeys
			}
			if n, ok := vfSettleGoroutines(want); !ok {
				c.Failf("%d goroutines are running, expected %d (%d before, %d counters): a lookup race left background work behind", n, want, base, nkeys)
			}
			for k := 0; k < nkeys; k++ {
				if s, net := got[0][k].State(); s != 1000000 || net%int64(workers) != 0 || net <= 0 {
					c.Failf("key %d is (%d,%d) after %d updates per round", k, s, net, workers)
				}
			}
			// concurrent deletes; the next round starts anew
			if del > 0 {
				var wg sync.WaitGroup
				for w := 0; w < del; w++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < nkeys; k++ {
							st.Delete(fmt.Sprintf("key-%d", k))
						}
					}()
				}
				wg.Wait()
				if len(vfLive(st)) != 0 {
					c.Failf("deleted keys are still in the store")
				}
				if n, ok := vfSettleGoroutines(base); !ok {
					c.Failf("%d goroutines are running after deleting every key, %d before: background work was not stopped", n, base)
				}
			}
		}
		st.CloseAll()
		st.CloseAll()
		if n, ok := vfSettleGoroutines(base); !ok {
			c.Failf("%d goroutines are running after CloseAll, %d before", n, base)
		}
		if cached && workers > 2 {
			c.NT("cached-gate counters raced")
		}
	})
}

// TestC07Churn: lookups, deletions and shutdowns of the same few keys, all at once. Whatever
// the order, the background work left is that of the counters left, and nothing panics.
func TestC07Churn(t *testing.T) {
	kit.Run(t, 600, 6000, func(c *kit.Case) {
		base := runtime.NumGoroutine()
		st := NewStoreWithOptions(1000000, vsa.Options{UseCachedGate: true,
			CacheInterval: rapid.SampledFrom([]time.Duration{30 * time.Microsecond, time.Millisecond, time.Hour}).Draw(c.T, "interval")})
		workers := rapid.IntRange(2, 10).Draw(c.T, "workers")
		nkeys := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(c.T, "nkeys")
		per := rapid.SampledFrom([]int{2, 20, 200, 800}).Draw(c.T, "per worker")
		delPct := rapid.SampledFrom([]int{5, 30, 60}).Draw(c.T, "deletes")
		closers := rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(c.T, "closers")
		extra := rapid.IntRange(0, 2).Draw(c.T, "deleters during shutdown")
		seed := rapid.Int64().Draw(c.T, "seed")
		c.Logf("workers=%d x %d keys=%d deletes=%d%% closers=%d+%d seed=%d", workers, per, nkeys, delPct, closers, extra, seed)
		panics := make(chan any, workers+16)
		guard := func() {
			if r := recover(); r != nil {
				panics <- r
			}
		}
		run := func(n int, f func(w int)) {
			start := make(chan struct{})
			var wg sync.WaitGroup
			for w := 0; w < n; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer guard()
					<-start
					f(w)
				}()
			}
			close(start)
			wg.Wait()
			select {
			case r := <-panics:
				c.Failf("panic: %v", r)
			default:
			}
		}
		run(workers, func(w int) {
			rng := rand.New(rand.NewSource(seed + int64(w)))
			for i := 0; i < per; i++ {
				k := fmt.Sprintf("key-%d", rng.Intn(nkeys))
				if rng.Intn(100) < delPct {
					st.Delete(k)
				} else {
					st.GetOrCreate(k)
				}
			}
		})
		l := vfLive(st)
		if n, ok := vfSettleGoroutines(base + len(l)); !ok {
			c.Failf("%d goroutines are running, %d before, with %d counters", n, base, len(l))
		}
		if closers > 0 {
			for k := 0; k < nkeys; k++ {
				st.GetOrCreate(fmt.Sprintf("key-%d", k))
			}
			run(closers+extra, func(w int) {
				if w < closers {
					st.CloseAll()
					return
				}
				for k := 0; k < nkeys; k++ {
					st.Delete(fmt.Sprintf("key-%d", k))
				}
			})
			c.Class("concurrent shutdown")
		}
		st.CloseAll()
		if n, ok := vfSettleGoroutines(base); !ok {
			c.Failf("%d goroutines are running after CloseAll, %d before", n, base)
		}
		if workers > 2 && per >= 20 {
			c.NT()
		}
	})
}
