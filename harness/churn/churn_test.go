// Package verifchurn_test: C27, the churn telemetry, through its exported functions, the
// Prometheus text it exposes and what it prints.
package verifchurn_test

import (
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus/promhttp"
	"pgregory.net/rapid"
	"vsa"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/telemetry/churn"
	kit "vsa/internal/verifkit"
)

func capture(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		kit.Broken("%v", err)
	}
	old := os.Stdout
	os.Stdout = w
	ch := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	return <-ch
}

func exposed() string {
	w := httptest.NewRecorder()
	promhttp.Handler().ServeHTTP(w, httptest.NewRequest("GET", "/metrics", nil))
	if w.Code != 200 {
		kit.Broken("metrics: %d %s", w.Code, w.Body.String())
	}
	return w.Body.String()
}

type counts struct{ naive, rows, batches, batchRows, errs float64 }

func (a counts) minus(b counts) counts {
	return counts{a.naive - b.naive, a.rows - b.rows, a.batches - b.batches, a.batchRows - b.batchRows, a.errs - b.errs}
}

func (a counts) String() string {
	return fmt.Sprintf("%v admitted, %v rows, %v batches with %v rows, %v errors", a.naive, a.rows, a.batches, a.batchRows, a.errs)
}

func value(text, name string) float64 {
	for _, l := range strings.Split(text, "\n") {
		if v, ok := strings.CutPrefix(l, name+" "); ok {
			f, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
			if err != nil {
				kit.Broken("metric line %q", l)
			}
			return f
		}
	}
	return math.NaN()
}

func read(text string) counts {
	return counts{
		value(text, "vsa_naive_writes_total"), value(text, "vsa_commits_rows_total"),
		value(text, "vsa_rows_per_batch_count"), value(text, "vsa_rows_per_batch_sum"), value(text, "vsa_commit_errors_total"),
	}
}

var bounds = []float64{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}

// Keys that cannot occur in any output by chance: no two letters of a key are adjacent in
// anything the telemetry has a reason to print.
func drawKey(t *rapid.T, i int) string {
	n := rapid.IntRange(4, 24).Draw(t, "keylen")
	const abc = "QXZJKVWYqxzjkvwy"
	if rapid.IntRange(0, 15).Draw(t, "long key") == 0 {
		s := rapid.Uint64().Draw(t, "letters")
		b := make([]byte, rapid.SampledFrom([]int{63, 64, 255, 256, 1023, 1024, 1025, 5000, 70000}).Draw(t, "long"))
		for j := range b {
			s = s*6364136223846793005 + 1442695040888963407
			b[j] = abc[s>>60]
		}
		return string(b) + strings.Repeat("q", i)
	}
	b := make([]byte, n)
	for j := range b {
		b[j] = abc[rapid.IntRange(0, len(abc)-1).Draw(t, "letter")]
	}
	return string(b) + strings.Repeat("q", i)
}

func leaks(text string, keys []string) string {
	low := strings.ToLower(text)
	for _, k := range keys {
		k = strings.ToLower(k)
		for _, f := range []string{k[:4], k[len(k)-4:], k, fmt.Sprintf("%x", k)} {
			if i := strings.Index(low, f); i >= 0 {
				return fmt.Sprintf("%q of key %q appears in %q", f, k, text[max(0, i-60):min(len(text), i+40)])
			}
		}
	}
	return ""
}

// The module's state outlives a case and each bubble starts at the same instant, so every
// case first moves beyond everything earlier cases have recorded.
var passed time.Duration

const maxWindow = time.Hour

func bubble(c *kit.Case, f func()) string {
	return capture(func() {
		kit.Bubble(func() {
			start := time.Now()
			defer func() {
				churn.Enable(churn.Config{})
				passed += time.Since(start) + 3*maxWindow
			}()
			time.Sleep(passed)
			start = time.Now()
			f()
		})
	})
}

func environment(c *kit.Case) {
	os.Setenv("VSA_CHURN_LIVE", rapid.SampledFrom([]string{"0", "1", "1"}).Draw(c.T, "live"))
	os.Setenv("TERM", rapid.SampledFrom([]string{"", "dumb", "xterm-256color"}).Draw(c.T, "term"))
	if rapid.Bool().Draw(c.T, "nocolor") {
		os.Setenv("NO_COLOR", "1")
	} else {
		os.Unsetenv("NO_COLOR")
	}
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

type point struct {
	at                  time.Duration
	naive, rows, ab, ne int64
}

var (
	ansi    = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]")
	printed = regexp.MustCompile(`(global_churn=\S+) (write_reduction_est=\S+) (naive=\S+) (commits=\S+) .*\n.*top key(?:=\S+ |: \()((?:churn=\S+ abs=\S+ net=\S+)|none)`)
)

// TestC27Model: every exported number against a model, over histories of events,
// reconfigurations and reports.
func TestC27Model(t *testing.T) {
	kit.Run(t, 1200, 15000, func(c *kit.Case) {
		environment(c)
		var keys []string
		for i := 0; i < rapid.IntRange(1, 5).Draw(c.T, "nkeys"); i++ {
			keys = append(keys, drawKey(c.T, i))
		}
		var events, disabledEvents, reports int
		var last string
		type keyTotal struct {
			ab, ne int64
			at     time.Duration
		}
		var lines [][]string // what may be printed about each report (equals may be picked freely)
		out := bubble(c, func() {
			base := exposed()
			b0 := read(base)
			hist0 := make([]float64, len(bounds))
			for i, le := range bounds {
				hist0[i] = value(base, fmt.Sprintf(`vsa_rows_per_batch_bucket{le="%v"}`, le))
			}
			hist := make([]float64, len(bounds))
			var want counts
			on, rate := false, 0.0
			var interval, window, sinceEnable time.Duration
			var now time.Duration
			var total point
			var pts []point
			wr, cr := math.NaN(), math.NaN()
			tracked, per := 0, map[string]*keyTotal{}
			touch := func(key string, ab, ne int64) {
				if per[key] == nil {
					per[key] = &keyTotal{}
				}
				per[key].ab += ab
				per[key].ne += ne
				per[key].at = now
			}
			for i, n := 0, rapid.IntRange(3, 60).Draw(c.T, "steps"); i < n; i++ {
				switch k := rapid.IntRange(0, 11).Draw(c.T, "op"); {
				case i == 0 || k == 0:
					on = i == 0 && rapid.IntRange(0, 4).Draw(c.T, "on first") > 0 || rapid.IntRange(0, 2).Draw(c.T, "on") > 0
					rate = rapid.SampledFrom([]float64{0, 1, 1, 2, -1}).Draw(c.T, "rate")
					interval = ms(rapid.SampledFrom([]int{0, 1, 7, 50, 1000}).Draw(c.T, "interval"))
					window = ms(rapid.SampledFrom([]int{1, 20, 300, 5000, 600000}).Draw(c.T, "window")) + 333
					cfg := churn.Config{Enabled: on, SampleRate: rate, LogInterval: interval, Window: window,
						TopN: rapid.IntRange(0, 3).Draw(c.T, "topn"), KeyHashLen: rapid.SampledFrom([]int{0, 2, 8, 16, 40}).Draw(c.T, "hashlen")}
					c.Logf("enable %+v", cfg)
					churn.Enable(cfg)
					sinceEnable = 0
					if churn.Enabled() != on {
						c.Failf("Enabled() is %v", !on)
					}
				case k <= 4:
					key := rapid.SampledFrom(append([]string{""}, keys...)).Draw(c.T, "key")
					adm := rapid.IntRange(0, 3).Draw(c.T, "adm") > 0
					c.Logf("request %q %v", key, adm)
					churn.ObserveRequest(key, adm)
					events++
					if !on {
						disabledEvents++
						break
					}
					if adm {
						want.naive++
						total.naive++
						if key != "" && rate >= 1 {
							total.ab++
							touch(key, 1, 0)
						}
					}
				case k <= 6:
					size := rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 3, 4, 5, 64, 65, 1024, 1025, 5000}).Draw(c.T, "size")
					c.Logf("batch %d", size)
					churn.ObserveBatch(size)
					events++
					if on && size > 0 {
						want.rows += float64(size)
						want.batchRows += float64(size)
						want.batches++
						total.rows += int64(size)
						for j, le := range bounds {
							if float64(size) <= le {
								hist[j]++
							}
						}
					}
				case k == 7:
					key := rapid.SampledFrom(append([]string{""}, keys...)).Draw(c.T, "key")
					v := rapid.Int64Range(-40, 40).Draw(c.T, "v")
					if rapid.Bool().Draw(c.T, "small") {
						v %= 4
					}
					c.Logf("commit %q %d", key, v)
					churn.ObserveCommit(key, v)
					events++
					if on && key != "" && v != 0 && rate >= 1 {
						total.ne += max(v, -v)
						touch(key, 0, max(v, -v))
					}
				case k == 8:
					m := rapid.IntRange(-1, 3).Draw(c.T, "n")
					c.Logf("error %d", m)
					churn.ObserveCommitError(m)
					events++
					if on && m > 0 {
						want.errs += float64(m)
					}
				default:
					d := ms(rapid.SampledFrom([]int{1, 3, 8, 60, 400, 2500}).Draw(c.T, "sleep"))
					c.Logf("sleep %v", d)
					time.Sleep(d)
					kit.Settle()
					if on && interval > 0 {
						// reports happen at every multiple of the interval since Enable; far-back
						// ones matter only while inside the window
						first := sinceEnable/interval + 1
						for x := first; x*interval <= sinceEnable+d; x++ {
							p := total
							p.at = now + x*interval - sinceEnable
							pts = append(pts, p)
							for pts[0].at < p.at-window {
								pts = pts[1:]
							}
							o := pts[0]
							wr = 1 - float64(p.rows-o.rows)/float64(max(1, p.naive-o.naive))
							cr = float64(p.ab-o.ab) / float64(max(1, p.ne-o.ne))
							reports++
							// keys unused for two windows are forgotten; the top key is the one with
							// the highest ratio, then with the most traffic
							var top []keyTotal
							ratio := -1.0
							for k, t := range per {
								if t.at < p.at-2*window {
									delete(per, k)
									continue
								}
								switch r := float64(t.ab) / float64(max(1, t.ne)); {
								case r > ratio || r == ratio && t.ab > top[0].ab:
									ratio, top = r, []keyTotal{*t}
								case r == ratio && t.ab == top[0].ab:
									top = append(top, *t)
								}
							}
							tracked = len(per)
							s := fmt.Sprintf("global_churn=%.3f write_reduction_est=%.3f naive=%d commits=%d", cr, wr, p.naive-o.naive, p.rows-o.rows)
							var any []string
							for _, t := range top {
								any = append(any, s+fmt.Sprintf(" churn=%.3f abs=%d net=%d", ratio, t.ab, t.ne))
							}
							if len(top) == 0 {
								any = []string{s + " none"}
							}
							lines = append(lines, any)
						}
					}
					sinceEnable += d
					now += d
				}
				if i < n-1 && rapid.IntRange(0, 3).Draw(c.T, "look") > 0 {
					continue
				}
				last = exposed()
				if got := read(last).minus(b0); got != want {
					c.Failf("exported %v, expected %v", got, want)
				}
				for j, le := range bounds {
					if got := value(last, fmt.Sprintf(`vsa_rows_per_batch_bucket{le="%v"}`, le)) - hist0[j]; got != hist[j] {
						c.Failf("exported %v batches of at most %v rows, expected %v", got, le, hist[j])
					}
				}
				if !math.IsNaN(wr) {
					if g := value(last, "vsa_write_reduction_ratio"); math.Abs(g-wr) > 1e-9 {
						c.Failf("exported write reduction %v, expected %v", g, wr)
					}
					if g := value(last, "vsa_churn_ratio"); math.Abs(g-cr) > 1e-9 {
						c.Failf("exported churn ratio %v, expected %v", g, cr)
					}
					if g := value(last, "vsa_keys_tracked"); g != float64(tracked) {
						c.Failf("exported %v tracked keys, %d were used while sampled", g, tracked)
					}
				}
				if l := leaks(last, keys); l != "" {
					c.Failf("exported metrics: %s", l)
				}
			}
		})
		if l := leaks(out, keys); l != "" {
			c.Failf("printed output: %s", l)
		}
		if os.Getenv("VSA_CHURN_LIVE") == "0" {
			got := printed.FindAllStringSubmatch(ansi.ReplaceAllString(out, ""), -1)
			for i, m := range got {
				s := strings.Join(m[1:5], " ") + " " + m[5]
				if i >= len(lines) || !slices.Contains(lines[i], s) {
					c.Failf("report %d of %d says %q, expected %q", i, len(got), s, append(lines, nil)[min(i, len(lines))])
				}
			}
			if len(got) != len(lines) {
				c.Failf("%d reports printed, %d were due", len(got), len(lines))
			}
		}
		if events > 4 && reports > 0 && strings.Contains(out, "top key=") {
			c.NT("reported with a top key")
			if disabledEvents > 0 {
				c.Class("events while disabled")
			}
		}
	})
}

// TestC27Sampling: which keys are sampled at which rate. The churn ratio after 2^i admitted
// requests of key i, without any commit, is the set of sampled keys as a bit mask.
func TestC27Sampling(t *testing.T) {
	kit.Run(t, 1200, 15000, func(c *kit.Case) {
		environment(c)
		var keys []string
		n := rapid.IntRange(1, 10).Draw(c.T, "nkeys")
		for i := 0; i < n; i++ {
			keys = append(keys, drawKey(c.T, i))
		}
		r1 := drawRate(c.T, "r1")
		r2 := drawRate(c.T, "r2")
		if r2 < r1 {
			r1, r2 = r2, r1
		}
		full := 1<<n - 1
		some := false
		out := bubble(c, func() {
			window := ms(rapid.IntRange(20, 400).Draw(c.T, "window"))
			measure := func(rate float64) int {
				cfg := churn.Config{Enabled: true, SampleRate: rate, LogInterval: window / 4, Window: window, TopN: n}
				churn.Enable(cfg)
				defer churn.Enable(churn.Config{})
				time.Sleep(4 * window) // leave everything earlier behind
				kit.Settle()
				for _, i := range rapid.Permutation(seq(n)).Draw(c.T, "order") {
					for j := 0; j < 1<<i; j++ {
						churn.ObserveRequest(keys[i], true)
					}
				}
				time.Sleep(window / 4)
				kit.Settle()
				text := exposed()
				m := value(text, "vsa_churn_ratio")
				if m != math.Trunc(m) || m < 0 || m > float64(full) {
					c.Failf("churn ratio %v after %d requests without commits", m, full)
				}
				mask := int(m)
				tracked := value(text, "vsa_keys_tracked")
				if tracked != float64(ones(mask)) {
					c.Failf("%v keys tracked, %d of the used keys are sampled", tracked, ones(mask))
				}
				// commits are sampled by the same rule
				net := 0
				for i, k := range keys {
					churn.ObserveCommit(k, int64(i+1)*int64(1-2*(i%2)))
					if mask>>i&1 == 1 {
						net += i + 1
					}
				}
				time.Sleep(window / 4)
				kit.Settle()
				if g, w := value(exposed(), "vsa_churn_ratio"), float64(mask)/float64(max(1, net)); math.Abs(g-w) > 1e-9 {
					c.Failf("rate %v, keys %q: requests sampled as %b; with commits the churn ratio is %v, expected %v", rate, keys, mask, g, w)
				}
				return mask
			}
			m1 := measure(r1)
			m2 := measure(r2)
			c.Logf("keys %q: rate %v samples %b, rate %v samples %b", keys, r1, m1, r2, m2)
			if m1&^m2 != 0 {
				c.Failf("a key sampled at rate %v is not sampled at %v", r1, r2)
			}
			for _, x := range []struct {
				r float64
				m int
			}{{r1, m1}, {r2, m2}} {
				if x.r <= 0 && x.m != 0 {
					c.Failf("keys are sampled at rate %v", x.r)
				}
				if x.r >= 1 && x.m != full {
					c.Failf("keys are left out at rate %v", x.r)
				}
			}
			again := r1
			if rapid.Bool().Draw(c.T, "which") {
				again, m1 = r2, m2
			}
			if m := measure(again); m != m1 {
				c.Failf("rate %v samples %b, before %b", again, m, m1)
			}
			some = m1 != 0 && m1 != full || m2 != 0 && m2 != full
		})
		if l := leaks(out, keys); l != "" {
			c.Failf("printed output: %s", l)
		}
		if some {
			c.NT()
		}
	})
}

func drawRate(t *rapid.T, name string) float64 {
	if rapid.IntRange(0, 3).Draw(t, name+" edge") == 0 {
		return rapid.SampledFrom([]float64{0, 1, -0.5, 1.5, 1e-18, 0.5, 1e-300, 1 - 1e-16, 0.9999999}).Draw(t, name)
	}
	return float64(rapid.IntRange(0, 1000).Draw(t, name)) / 1000
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func ones(m int) (n int) {
	for ; m != 0; m &= m - 1 {
		n++
	}
	return n
}

type storage struct {
	mu                  sync.Mutex
	fail                func() bool
	rows, batches, errs int
	nerr                int
	net                 int64  // sum of the accepted rows' magnitudes
	during              func() // called while a batch is being written
}

func (s *storage) PrintFinalMetrics() {}

func (s *storage) CommitBatch(b []core.Commit) error {
	if s.during != nil {
		s.during()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail() {
		if churn.Enabled() {
			s.errs++
		}
		s.nerr++
		return kit.Faults[s.nerr%len(kit.Faults)]
	}
	if churn.Enabled() {
		s.rows += len(b)
		s.batches++
		for _, r := range b {
			s.net += max(r.Vector, -r.Vector)
		}
	}
	return nil
}

// TestC27Worker: what the API and the worker report, through commits, evictions, failures
// and the final flush.
func TestC27Worker(t *testing.T) {
	kit.Run(t, 3000, 40000, func(c *kit.Case) {
		environment(c)
		var keys []string
		for i := 0; i < rapid.IntRange(1, 6).Draw(c.T, "nkeys"); i++ {
			keys = append(keys, drawKey(c.T, i))
		}
		p := &storage{}
		var evictions, flushed, nrows int
		var metrics string
		out := bubble(c, func() {
			b0 := read(exposed())
			limit := rapid.Int64Range(0, 40).Draw(c.T, "limit")
			st := core.NewStoreWithOptions(limit, vsa.Options{})
			mux := http.NewServeMux()
			api.NewServer(st, limit).RegisterRoutes(mux)
			T := rapid.Int64Range(1, 12).Draw(c.T, "T")
			maxAge := ms(rapid.SampledFrom([]int{0, 0, 30, 500}).Draw(c.T, "maxage"))
			evAge := ms(rapid.SampledFrom([]int{40, 40, 200, 3600000}).Draw(c.T, "evage"))
			failing, fate := 0, rapid.IntRange(0, 3).Draw(c.T, "failures")
			p.fail = func() bool {
				if fate == 0 {
					return false
				}
				failing++
				return failing%(fate+1) == 0
			}
			w := core.NewWorker(st, p, T, 0, ms(10), maxAge, evAge, ms(rapid.SampledFrom([]int{15, 70}).Draw(c.T, "evint")))
			rate := rapid.SampledFrom([]float64{0, 0.3, 1}).Draw(c.T, "rate")
			// Reports would only print; the summary line is exercised by the other tests.
			set := func(on bool) { churn.Enable(churn.Config{Enabled: on, SampleRate: rate}) }
			on := rapid.IntRange(0, 4).Draw(c.T, "on") > 0
			// In some cases every key is sampled all the time and a report right before and one
			// right after give the churn ratio of the whole case.
			ratio := on && rate == 1 && rapid.IntRange(0, 2).Draw(c.T, "ratio") > 0
			if ratio {
				churn.Enable(churn.Config{Enabled: true, SampleRate: 1, LogInterval: time.Minute, Window: 10 * time.Minute})
				time.Sleep(time.Minute + time.Millisecond)
			} else {
				set(on)
			}
			begun := time.Now()
			w.Start()
			stopped := false
			defer func() {
				if !stopped {
					w.Stop()
				}
				st.CloseAll()
			}()
			var want float64
			call := func(path, key string, m int) (adm int) {
				for j := 0; j < m; j++ {
					r := httptest.NewRequest("GET", path+"?api_key="+url.QueryEscape(key), nil)
					rw := httptest.NewRecorder()
					mux.ServeHTTP(rw, r)
					if path == "/check" && rw.Code == 200 {
						adm++
					}
				}
				return adm
			}
			// Requests that arrive while a batch is being written.
			type req struct {
				path, key string
				n         int
			}
			var arriving []req
			for i, n := 0, rapid.IntRange(0, 12).Draw(c.T, "arriving"); i < n; i++ {
				arriving = append(arriving, req{rapid.SampledFrom([]string{"/check", "/check", "/release"}).Draw(c.T, "path"), rapid.SampledFrom(keys).Draw(c.T, "arriving key"), rapid.IntRange(1, 12).Draw(c.T, "arriving times")})
			}
			c.Logf("arriving while batches are written, one per batch: %v", arriving)
			writes := 0
			p.during = func() {
				if writes++; writes%2 == 0 && len(arriving) > 0 {
					a := arriving[0]
					arriving = arriving[1:]
					if adm := call(a.path, a.key, a.n); on {
						want += float64(adm)
					}
				}
			}
			verify := func(when string) {
				kit.Settle()
				metrics = exposed()
				p.mu.Lock()
				exp := counts{want, float64(p.rows), float64(p.batches), float64(p.rows), float64(p.errs)}
				p.mu.Unlock()
				if got := read(metrics).minus(b0); got != exp {
					c.Failf("%s: exported %v; happened %v", when, got, exp)
				}
			}
			// The loops tick at multiples of 5ms; act in between.
			time.Sleep(time.Millisecond)
			for i, n := 0, rapid.IntRange(2, 40).Draw(c.T, "steps"); i < n; i++ {
				switch k := rapid.IntRange(0, 9).Draw(c.T, "op"); {
				case k <= 5:
					key := rapid.SampledFrom(keys).Draw(c.T, "key")
					path := "/check"
					if k == 5 {
						path = "/release"
					}
					m := rapid.IntRange(1, 20).Draw(c.T, "times")
					adm := call(path, key, m)
					c.Logf("%s %q x%d: %d admitted", path, key, m, adm)
					if on {
						want += float64(adm)
					}
				case k == 7 && rapid.Bool().Draw(c.T, "direct"):
					key := rapid.SampledFrom(keys).Draw(c.T, "key")
					d := rapid.Int64Range(-30, 30).Draw(c.T, "update")
					c.Logf("update %q %d", key, d)
					st.GetOrCreate(key).Update(d)
				case k == 6:
					httpGet(mux, "/check")
					c.Logf("check without a key")
				case k == 7 && !ratio && rapid.IntRange(0, 2).Draw(c.T, "toggle?") == 1:
					on = !on
					set(on)
					c.Logf("enabled=%v", on)
				default:
					d := ms(5 * rapid.SampledFrom([]int{1, 2, 4, 12, 50, 120}).Draw(c.T, "sleep"))
					c.Logf("sleep %v", d)
					time.Sleep(d)
				}
				if rapid.IntRange(0, 5).Draw(c.T, "look") == 3 {
					verify("after " + lastStep(c))
				}
			}
			kit.Settle()
			r0 := p.rows
			w.Stop()
			stopped = true
			verify("after Stop")
			if ratio {
				time.Sleep(time.Minute - time.Since(begun))
				kit.Settle()
				cr := want / math.Max(1, float64(p.net))
				if g := value(exposed(), "vsa_churn_ratio"); math.Abs(g-cr) > 1e-9 {
					c.Failf("exported churn ratio %v, expected %v: %v admitted, rows of %d in all were accepted", g, cr, want, p.net)
				}
				c.Class("churn ratio over the whole case")
			}
			flushed, nrows = p.rows-r0, p.rows
		})
		evictions = strings.Count(out, "Final commit for")
		if l := leaks(metrics, keys); l != "" {
			c.Failf("exported metrics: %s", l)
		}
		if nrows > 0 && (evictions > 0 || flushed > 0) {
			c.NT()
			if evictions > 0 {
				c.Class("evictions")
			}
			if flushed > 0 {
				c.Class("rows in the final flush")
			}
			if p.errs > 0 {
				c.Class("failed writes")
			}
		}
	})
}

func lastStep(c *kit.Case) string {
	tr := c.Trace()
	if i := strings.LastIndex(tr, "; "); i >= 0 {
		return tr[i+2:]
	}
	return tr
}

func httpGet(mux http.Handler, path string) int {
	rw := httptest.NewRecorder()
	mux.ServeHTTP(rw, httptest.NewRequest("GET", path, nil))
	return rw.Code
}

var hashed = regexp.MustCompile(`top key=(\S*) `)

// TestC27Concurrent: concurrent observers, reports and reconfigurations lose no count.
func TestC27Concurrent(t *testing.T) {
	os.Setenv("VSA_CHURN_LIVE", "0")
	kit.Run(t, 150, 1500, func(c *kit.Case) {
		workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
		per := rapid.SampledFrom([]int{20, 100, 400}).Draw(c.T, "per")
		rate := rapid.SampledFrom([]float64{0, 0.5, 1}).Draw(c.T, "rate")
		seed := rapid.Uint64Range(1, 1<<40).Draw(c.T, "seed")
		reconf := rapid.Bool().Draw(c.T, "reconf")
		hl := rapid.IntRange(1, 16).Draw(c.T, "hashlen")
		c.Logf("%d observers x %d, rate %v, reconfigured %v, seed %d", workers, per, rate, reconf, seed)
		cfg := churn.Config{Enabled: true, SampleRate: rate, LogInterval: 50 * time.Microsecond, Window: time.Millisecond, TopN: 2, KeyHashLen: hl}
		b0 := read(exposed())
		want := make([]counts, workers)
		keys := []string{"KEYQXZJone", "KEYQXZJtwo", "KEYQXZJthree"}
		out := capture(func() {
			churn.Enable(cfg)
			defer churn.Enable(churn.Config{})
			var wg sync.WaitGroup
			for g := 0; g < workers; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := seed + uint64(g)*0x9e3779b97f4a7c15
					for i := 0; i < per; i++ {
						x = x*6364136223846793005 + 1442695040888963407
						k := keys[(x>>40)%3]
						switch (x >> 33) % 5 {
						case 0, 1:
							churn.ObserveRequest(k, true)
							want[g].naive++
						case 2:
							churn.ObserveRequest(k, false)
						case 3:
							n := int((x >> 50) % 7)
							churn.ObserveBatch(n)
							if n > 0 {
								want[g].batches++
								want[g].rows += float64(n)
								want[g].batchRows += float64(n)
							}
							churn.ObserveCommit(k, int64(x>>60)-7)
						default:
							churn.ObserveCommitError(1)
							want[g].errs++
						}
					}
				}()
			}
			if reconf {
				for i := 0; i < 3; i++ {
					time.Sleep(100 * time.Microsecond)
					cfg.SampleRate = float64(i) / 2
					churn.Enable(cfg)
				}
			}
			wg.Wait()
		})
		text := exposed()
		var sum counts
		for _, w := range want {
			sum = sum.minus(counts{}.minus(w))
		}
		if got := read(text).minus(b0); got != sum {
			c.Failf("exported %v; happened %v", got, sum)
		}
		if l := leaks(out+text, keys); l != "" {
			c.Failf("output: %s", l)
		}
		for _, m := range hashed.FindAllStringSubmatch(out, -1) {
			if strings.Trim(m[1], "0123456789abcdef") != "" {
				c.Failf("the top key is printed as %q", m[1])
			}
		}
		c.NT()
	})
}
