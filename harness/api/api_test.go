// Package verifapi_test: C12, C13 and the API half of C28, through the exported API only.
package verifapi_test

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	kit "vsa/internal/verifkit"
)

func vfQuiet() func() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		kit.Broken("%v", err)
	}
	old := os.Stdout
	os.Stdout = null
	return func() { os.Stdout = old; null.Close() }
}

// storage records what it accepted.
type vfStorage struct {
	mu      sync.Mutex
	durable map[string]int64
	fail    func(call int) bool
	calls   int
	rejects int
	during  func()
	onRow   func(k string, v int64)
}

func vfNewStorage() *vfStorage { return &vfStorage{durable: map[string]int64{}} }

func (s *vfStorage) PrintFinalMetrics() {}

func (s *vfStorage) CommitBatch(b []core.Commit) error {
	s.mu.Lock()
	s.calls++
	n := s.calls
	during := s.during
	s.mu.Unlock()
	if during != nil {
		during()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail != nil && s.fail(n) {
		s.rejects++
		return kit.Faults[s.rejects%len(kit.Faults)]
	}
	for _, c := range b {
		s.durable[c.Key] += c.Vector
		if s.onRow != nil {
			s.onRow(c.Key, c.Vector)
		}
	}
	return nil
}

var vfOddKeys = []string{"alice", "bob", "Alice", "alice ", " alice", "\x00", "é", "e\u0301", "a&b", "a=b", "a%20b", "a+b", "a b", "api_key", "日本", "../a", "a;b", "a#b", "?", "\xff", "a\nb", "0", vfLongKey, vfLongKey + "x", vfHugeKey, vfHugeKey + "x"}

var vfLongKey = strings.Repeat("k", 5000)

var vfHugeKey = strings.Repeat("h", 70000)

func vfDrawOpts(t *rapid.T, cached bool) vsa.Options {
	var o vsa.Options
	o.Stripes = rapid.SampledFrom([]int{0, 8, 16}).Draw(t, "stripes")
	switch rapid.IntRange(0, 6).Draw(t, "opt") {
	case 6: // may refuse on old data; not for every test
		if cached {
			o.UseCachedGate = true
			o.CacheInterval = rapid.SampledFrom([]time.Duration{time.Millisecond, 30 * time.Millisecond, time.Hour}).Draw(t, "cache interval")
			o.CacheSlack = rapid.Int64Range(0, 4).Draw(t, "slack")
			o.GroupCount = rapid.IntRange(0, 3).Draw(t, "groups")
		}
	case 5:
		o.PerPUpdateChooser = true
	case 1:
		o.FastPathGuard = rapid.Int64Range(1, 5).Draw(t, "fast")
	case 2:
		o.HierarchicalGroups = rapid.IntRange(2, 9).Draw(t, "hier")
	case 3:
		o.GroupCount = rapid.IntRange(2, 9).Draw(t, "groups")
	case 4:
		o.CheapUpdateChooser = true
		o.FastPathGuard = 2
		o.HierarchicalGroups = 3
	}
	return o
}

type vfReply struct {
	code              int
	limit, rem, state string
	retry             string
}

func vfDo(mux http.Handler, method, path, rawQuery string) vfReply {
	return vfDoBody(mux, method, path, rawQuery, "")
}

// drawBody: what a body says about keys is of no concern.
func vfDrawBody(t *rapid.T, method string) string {
	if method == "GET" || method == "HEAD" || rapid.Bool().Draw(t, "no body") {
		return ""
	}
	return "api_key=someone-else"
}

func vfDoBody(mux http.Handler, method, path, rawQuery, body string) vfReply {
	r := httptest.NewRequest(method, path, strings.NewReader(body))
	if body != "" {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	r.URL.RawQuery = rawQuery
	w := httptest.NewRecorder()
	mux.ServeHTTP(w, r)
	h := w.Result().Header
	return vfReply{w.Code, h.Get("X-RateLimit-Limit"), h.Get("X-RateLimit-Remaining"), h.Get("X-RateLimit-Status"), h.Get("Retry-After")}
}

func vfQ(key string) string { return "api_key=" + url.QueryEscape(key) }

// wellFormed checks a response to a check on its own and returns (admitted, remaining).
func vfWellFormed(r vfReply, limit int64) (ok bool, rem int64, bad string) {
	if r.code != 200 && r.code != 429 {
		return false, 0, fmt.Sprintf("status %d", r.code)
	}
	if r.limit != strconv.FormatInt(limit, 10) {
		return false, 0, fmt.Sprintf("reported limit %q, configured %d", r.limit, limit)
	}
	rem, err := strconv.ParseInt(r.rem, 10, 64)
	if err != nil || rem < 0 || rem > limit {
		return false, 0, fmt.Sprintf("reported remaining %q of %d", r.rem, limit)
	}
	if r.code == 200 {
		if r.state != "OK" || r.retry != "" {
			return false, 0, fmt.Sprintf("admitted with status %q retry %q", r.state, r.retry)
		}
		return true, rem, ""
	}
	if r.state != "Exceeded" {
		return false, 0, fmt.Sprintf("denied with status %q", r.state)
	}
	if n, err := strconv.Atoi(r.retry); err != nil || n < 0 {
		return false, 0, fmt.Sprintf("denied with Retry-After %q", r.retry)
	}
	return false, rem, ""
}

// TestC12Model: request histories over several keys, with the worker's commits (on a fake
// clock) in between, against a counter per key.
func TestC12Model(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 20000, 250000, func(c *kit.Case) {
		kit.Bubble(func() {
			limit := rapid.SampledFrom([]int64{0, 1, 1, 2, 3, 5, 8, 13, 1000, 1 << 40}).Draw(c.T, "limit")
			opts := vfDrawOpts(c.T, true)
			st := core.NewStoreWithOptions(limit, opts)
			defer st.CloseAll()
			mux := http.NewServeMux()
			api.NewServer(st, limit).RegisterRoutes(mux)
			keys := rapid.Permutation(vfOddKeys).Draw(c.T, "keys")[:rapid.IntRange(1, 4).Draw(c.T, "nkeys")]
			// model: what is taken in total, and how much of it is uncommitted
			taken, pending := map[string]int64{}, map[string]int64{}
			p := vfNewStorage()
			p.onRow = func(k string, v int64) { pending[k] -= v }
			failing := false
			p.fail = func(int) bool { return failing }
			T := rapid.Int64Range(1, 6).Draw(c.T, "T")
			var maxAge time.Duration
			if rapid.IntRange(0, 2).Draw(c.T, "age") == 0 {
				maxAge = 50 * time.Millisecond
			}
			w := core.NewWorker(st, p, T, 0, 10*time.Millisecond, maxAge, 1000*time.Hour, time.Hour)
			w.Start()
			defer w.Stop()
			c.Logf("limit=%d keys=%q T=%d maxAge=%v cached gate=%v slack=%d", limit, keys, T, maxAge, opts.UseCachedGate, opts.CacheSlack)
			adm, den, noop, eff, bad := 0, 0, 0, 0, 0
			probe := func(k string) {
				// the state of another key, seen through its counter
				if s, n := st.GetOrCreate(k).State(); s-n != limit-taken[k] || n != pending[k] {
					c.Failf("key %q: scalar %d, pending %d; %d taken, %d pending", k, s, n, taken[k], pending[k])
				}
			}
			n := rapid.IntRange(1, 60).Draw(c.T, "steps")
			for i := 0; i < n; i++ {
				k := rapid.SampledFrom(keys).Draw(c.T, "key")
				switch rapid.IntRange(0, 11).Draw(c.T, "what") {
				default:
					rq := vfQ(k)
					switch rapid.IntRange(0, 7).Draw(c.T, "form") {
					case 0:
						rq = "x=1&" + rq + "&api_key=other"
					case 1:
						rq += "&api_ke=zz"
					}
					m := rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "POST", "POST", "HEAD", "PUT"}).Draw(c.T, "method")
					r := vfDoBody(mux, m, "/check", rq, vfDrawBody(c.T, m))
					ok, rem, why := vfWellFormed(r, limit)
					if why != "" {
						c.Failf("check %q: %s", k, why)
					}
					// a cached gate may refuse on old data or for its slack, but not admit too much
					if want := taken[k] < limit; ok != want && (ok || !opts.UseCachedGate) {
						c.Failf("check %q: %d, with %d of %d taken", k, r.code, taken[k], limit)
					}
					if ok {
						taken[k]++
						pending[k]++
						adm++
					} else {
						den++
					}
					c.Logf("check %q = %d remaining %d", k, r.code, rem)
					if rem != limit-taken[k] {
						c.Failf("check %q reports %d remaining, %d of %d taken", k, rem, taken[k], limit)
					}
				case 6, 7:
					m := rapid.SampledFrom([]string{"GET", "POST", "POST", "HEAD"}).Draw(c.T, "method")
					r := vfDoBody(mux, m, "/release", vfQ(k), vfDrawBody(c.T, m))
					if r.code != 204 {
						c.Failf("release %q: status %d", k, r.code)
					}
					if pending[k] > 0 {
						pending[k]--
						taken[k]--
						eff++
					} else {
						noop++
					}
					c.Logf("release %q, now %d taken, %d pending", k, taken[k], pending[k])
				case 8:
					path := rapid.SampledFrom([]string{"/check", "/release"}).Draw(c.T, "path")
					rq := rapid.SampledFrom([]string{"", "api_key=", "apikey=x", "API_KEY=x", "x=api_key", "api_key", "api_key&key=a"}).Draw(c.T, "query")
					m := rapid.SampledFrom([]string{"GET", "POST"}).Draw(c.T, "method")
					if r := vfDoBody(mux, m, path, rq, vfDrawBody(c.T, m)); r.code != 400 {
						c.Failf("%s?%s: status %d", path, rq, r.code)
					}
					bad++
					c.Logf("%s?%s = 400", path, rq)
				case 9, 10:
					failing = rapid.IntRange(0, 2).Draw(c.T, "failing") == 0
					d := time.Duration(rapid.IntRange(1, 80).Draw(c.T, "ms")) * time.Millisecond
					before := p.calls
					time.Sleep(d)
					kit.Settle()
					if p.calls > before {
						c.Class("commit")
					}
					c.Logf("worker for %v (storage down: %v): %d writes, pending %v", d, failing, p.calls-before, pending)
				case 11:
					for _, k := range keys {
						probe(k)
					}
				}
			}
			for _, k := range keys {
				probe(k)
			}
			if core.VerifHas(st, "") {
				c.Failf("requests without a key created a counter")
			}
			if v := ""; st.GetOrCreate(v) != nil {
				if s, n := st.GetOrCreate(v).State(); s != limit || n != 0 {
					c.Failf("requests without a key changed the counter of the empty key: (%d,%d)", s, n)
				}
			}
			failing = false
			w.Stop()
			for _, k := range keys {
				if p.durable[k] != taken[k] {
					c.Failf("storage has %d for key %q after shutdown, %d taken", p.durable[k], k, taken[k])
				}
			}
			if adm > 0 && den > 0 && eff > 0 {
				c.NT()
				if opts.UseCachedGate {
					c.Class("cached gate")
				}
				if noop > 0 {
					c.Class("refused release")
				}
				if bad > 0 {
					c.Class("no key")
				}
			}
		})
	})
}

// TestC13Load: concurrent clients and a running worker.
func TestC13Load(t *testing.T) {
	defer vfQuiet()()
	kit.Run(t, 1500, 12000, func(c *kit.Case) {
		limit := rapid.SampledFrom([]int64{0, 1, 1, 2, 5, 20, 60, 200, 1000}).Draw(c.T, "limit")
		opts := vfDrawOpts(c.T, false)
		st := core.NewStoreWithOptions(limit, opts)
		defer st.CloseAll()
		mux := http.NewServeMux()
		api.NewServer(st, limit).RegisterRoutes(mux)
		nk := rapid.IntRange(1, 3).Draw(c.T, "nkeys")
		T := rapid.Int64Range(1, 10).Draw(c.T, "T")
		low := rapid.Int64Range(0, T-1).Draw(c.T, "low")
		p := vfNewStorage()
		failEvery := rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(c.T, "failEvery")
		var off sync.Map
		p.fail = func(n int) bool {
			if _, x := off.Load(0); x {
				return false
			}
			return failEvery > 0 && n%failEvery == 0
		}
		slow := rapid.IntRange(0, 2).Draw(c.T, "slow")
		p.during = func() { time.Sleep(time.Duration(slow*50) * time.Microsecond) }
		w := core.NewWorker(st, p, T, low, time.Duration(rapid.IntRange(10, 200).Draw(c.T, "interval"))*time.Microsecond, 0, time.Hour, 200*time.Microsecond)
		clients := rapid.IntRange(2, 8).Draw(c.T, "clients")
		per := rapid.SampledFrom([]int{1, 3, 12, 60, 60, 300, 600}).Draw(c.T, "per")
		relPct := rapid.SampledFrom([]int{0, 0, 10, 30, 60}).Draw(c.T, "releases")
		seed := rapid.Uint64().Draw(c.T, "seed")
		c.Logf("limit=%d fast=%d hier=%d groups=%d keys=%d T=%d low=%d failEvery=%d clients=%d x %d releases=%d%% seed=%d",
			limit, opts.FastPathGuard, opts.HierarchicalGroups, opts.GroupCount, nk, T, low, failEvery, clients, per, relPct, seed)
		w.Start()
		type tally struct{ checks, ok, rel int64 }
		counts := make([][]tally, clients)
		probs := make([]string, clients)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < clients; g++ {
			counts[g] = make([]tally, nk)
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := seed + uint64(g)*0x9e3779b97f4a7c15 + 1
				<-start
				for i := 0; i < per; i++ {
					x ^= x << 13
					x ^= x >> 7
					x ^= x << 17
					k := int(x>>8) % nk
					key := fmt.Sprintf("k%d", k)
					if int(x>>33)%100 < relPct {
						counts[g][k].rel++
						if r := vfDo(mux, "GET", "/release", vfQ(key)); r.code != 204 {
							probs[g] = fmt.Sprintf("release: status %d", r.code)
						}
						continue
					}
					counts[g][k].checks++
					ok, _, bad := vfWellFormed(vfDo(mux, "GET", "/check", vfQ(key)), limit)
					if bad != "" {
						probs[g] = bad
					}
					if ok {
						counts[g][k].ok++
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		early := rapid.IntRange(0, 3).Draw(c.T, "settle") == 0
		if early {
			time.Sleep(time.Millisecond)
		}
		off.Store(0, true)
		w.Stop()
		for _, b := range probs {
			if b != "" {
				c.Failf("%s", b)
			}
		}
		contended := false
		for k := 0; k < nk; k++ {
			key := fmt.Sprintf("k%d", k)
			var tot tally
			for g := range counts {
				tot.checks += counts[g][k].checks
				tot.ok += counts[g][k].ok
				tot.rel += counts[g][k].rel
			}
			if tot.checks+tot.rel == 0 {
				continue
			}
			v := st.GetOrCreate(key)
			avail := v.Available()
			net := limit - avail // successes minus effective releases
			eff := tot.ok - net
			if net < 0 || net > limit {
				c.Failf("%s: %d of %d remain", key, avail, limit)
			}
			if eff < 0 || eff > tot.rel || eff > tot.ok {
				c.Failf("%s: %d admitted, %d releases, yet %d of %d remain", key, tot.ok, tot.rel, avail, limit)
			}
			if tot.ok < tot.checks && tot.ok < limit {
				c.Failf("%s: checks were refused, but only %d of %d were ever admitted", key, tot.ok, limit)
			}
			if tot.rel == 0 {
				want := tot.checks
				if want > limit {
					want = limit
				}
				if tot.ok != want {
					c.Failf("%s: %d of %d checks admitted with a limit of %d", key, tot.ok, tot.checks, limit)
				}
			}
			if got := p.durable[key]; got != net {
				c.Failf("%s: storage has %d after shutdown, %d admitted minus %d effective releases make %d", key, got, tot.ok, eff, net)
			}
			if tot.ok > 0 && tot.checks > limit {
				contended = true
			}
		}
		if contended {
			c.NT()
			if p.calls > nk {
				c.Class("writes under load")
			}
			if p.rejects > 0 {
				c.Class("failed writes")
			}
		}
	})
}
