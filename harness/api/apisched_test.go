package verifapi_test

// C13 under the controlled scheduler: a few clients around the limit, and worker cycles.

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	kit "vsa/internal/verifkit"
	vs "vsa/internal/verifsched"
)

type vfSchedStorage struct {
	durable map[string]int64
	calls   int
	failAt  int
}

func (s *vfSchedStorage) PrintFinalMetrics() {}
func (s *vfSchedStorage) CommitBatch(b []core.Commit) error {
	s.calls++
	vs.Point("storage")
	vs.Point("storage")
	if s.calls == s.failAt {
		return kit.Faults[s.calls%len(kit.Faults)]
	}
	for _, c := range b {
		s.durable[c.Key] += c.Vector
	}
	return nil
}

func TestC13Sched(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old }()
	kit.Run(t, 12000, 200000, func(c *kit.Case) {
		limit := rapid.Int64Range(0, 5).Draw(c.T, "limit")
		opts := vsa.Options{Stripes: 8}
		switch rapid.IntRange(0, 3).Draw(c.T, "opt") {
		case 1:
			opts.FastPathGuard = rapid.Int64Range(1, 2).Draw(c.T, "guard")
		case 2:
			opts.HierarchicalGroups = 2
		case 3:
			opts.GroupCount = 2
		}
		st := core.NewStoreWithOptions(limit, opts)
		mux := http.NewServeMux()
		api.NewServer(st, limit).RegisterRoutes(mux)
		p := &vfSchedStorage{durable: map[string]int64{}, failAt: rapid.IntRange(0, 4).Draw(c.T, "failAt")}
		w := core.NewWorker(st, p, rapid.Int64Range(1, 3).Draw(c.T, "T"), 0, time.Hour, 0, time.Hour, time.Hour)
		keys := []string{"a", "b"}
		nk := rapid.IntRange(1, 2).Draw(c.T, "nkeys")
		ok := map[string]int64{}
		checks := map[string]int64{}
		rels := map[string]int64{}
		problem := ""
		hit := func(check bool, key string) {
			path := "/release"
			if check {
				path = "/check"
			}
			rec := httptest.NewRecorder()
			mux.ServeHTTP(rec, httptest.NewRequest("GET", path+"?api_key="+key, nil))
			if !check {
				rels[key]++
				if rec.Code != 204 {
					problem = fmt.Sprintf("release answered %d", rec.Code)
				}
				return
			}
			checks[key]++
			rem, err := strconv.ParseInt(rec.Header().Get("X-RateLimit-Remaining"), 10, 64)
			if err != nil || rem < 0 || rem > limit {
				problem = fmt.Sprintf("remaining %q of %d", rec.Header().Get("X-RateLimit-Remaining"), limit)
			}
			switch rec.Code {
			case 200:
				ok[key]++
			case 429:
			default:
				problem = fmt.Sprintf("check answered %d", rec.Code)
			}
		}
		for i, n := 0, rapid.IntRange(0, 5).Draw(c.T, "prefix"); i < n; i++ {
			hit(rapid.IntRange(0, 4).Draw(c.T, "what") > 0, keys[rapid.IntRange(0, nk-1).Draw(c.T, "key")])
		}
		nt := rapid.IntRange(2, 3).Draw(c.T, "clients")
		var fs []func()
		desc := ""
		for i := 0; i < nt; i++ {
			type step struct {
				check bool
				key   string
			}
			var plan []step
			for j, n := 0, rapid.IntRange(1, 3).Draw(c.T, "n"); j < n; j++ {
				s := step{rapid.IntRange(0, 3).Draw(c.T, "what") > 0, keys[rapid.IntRange(0, nk-1).Draw(c.T, "key")]}
				plan = append(plan, s)
				desc += fmt.Sprintf(" %d:%v:%s", i, s.check, s.key)
			}
			fs = append(fs, func() {
				for _, s := range plan {
					hit(s.check, s.key)
				}
			})
		}
		cyc := rapid.IntRange(0, 2).Draw(c.T, "cycles")
		for i := 0; i < cyc; i++ {
			if rapid.IntRange(0, 2).Draw(c.T, "cycle") == 0 {
				fs = append(fs, func() { core.VerifFinalFlush(w) })
			} else {
				fs = append(fs, func() { core.VerifCommitCycle(w) })
			}
		}
		mk, sd := vfDrawPolicy(c.T, len(fs), 60)
		pre := ok["a"] + ok["b"]
		c.Logf("limit=%d fast=%d groups=%d hier=%d clients:%s cycles=%d failAt=%d schedule %s", limit, opts.FastPathGuard, opts.GroupCount, opts.HierarchicalGroups, desc, cyc, p.failAt, sd)
		res := vs.Run(mk(), nil, fs...)
		if res.Outside {
			c.Class("not judged: blocks outside the scheduler")
			return
		}
		if res.Panic != "" || res.Deadlock != "" {
			c.Failf("%s%s", res.Panic, res.Deadlock)
		}
		if problem != "" {
			c.Failf("%s", problem)
		}
		p.failAt = 0
		core.VerifFinalFlush(w)
		near := false
		for _, k := range keys[:nk] {
			if checks[k]+rels[k] == 0 {
				continue
			}
			net := limit - st.GetOrCreate(k).Available()
			eff := ok[k] - net
			c.Logf("%s: %d checks, %d admitted, %d releases, net %d, stored %d", k, checks[k], ok[k], rels[k], net, p.durable[k])
			if net < 0 || net > limit || eff < 0 || eff > rels[k] || eff > ok[k] {
				c.Failf("key %q: %d admitted, %d releases, but %d of %d remain", k, ok[k], rels[k], limit-net, limit)
			}
			if rels[k] == 0 {
				if want := min(checks[k], limit); ok[k] != want {
					c.Failf("key %q: %d of %d checks admitted with a limit of %d", k, ok[k], checks[k], limit)
				}
			}
			if p.durable[k] != net {
				c.Failf("key %q: storage has %d, the requests add up to %d", k, p.durable[k], net)
			}
			if checks[k] > limit && ok[k] > 0 {
				near = true
			}
		}
		if near && ok["a"]+ok["b"] >= pre {
			c.NT()
		}
	})
}
