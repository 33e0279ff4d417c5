package verifbins_test

// C14: the built rate-limiter server, terminated at arbitrary moments under load.

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

var (
	mockRow  = regexp.MustCompile(`KEY:\s*(\S+)\s+VECTOR:\s*(-?\d+)`)
	redisRow = regexp.MustCompile(`KEYS=\[counter:(\S+) commit:\S+\] ARGS=\[(-?\d+) `)
	kafkaRow = regexp.MustCompile(`VALUE=(\{.*?\}) HEADERS=`)
	metric   = regexp.MustCompile(`(?m)^(Attempted|Admits|Refunds|Writes)\s+(-?\d+)\s*$`)
)

// written returns what the process reported to have handed to storage, per key.
func written(adapter, out string) map[string]int64 {
	w := map[string]int64{}
	switch adapter {
	case "mock":
		for _, m := range mockRow.FindAllStringSubmatch(out, -1) {
			n, _ := strconv.ParseInt(m[2], 10, 64)
			w[m[1]] += n
		}
	case "redis":
		for _, m := range redisRow.FindAllStringSubmatch(out, -1) {
			n, _ := strconv.ParseInt(m[2], 10, 64)
			w[m[1]] += n
		}
	case "kafka":
		for _, m := range kafkaRow.FindAllStringSubmatch(out, -1) {
			var v struct {
				Key string `json:"key"`
				VC  int64  `json:"vc"`
			}
			if err := json.Unmarshal([]byte(m[1]), &v); err != nil {
				kit.Broken("demo line of the kafka adapter: %v in %s", err, m[1])
			}
			w[v.Key] += v.VC
		}
	}
	return w
}

type account struct{ ok, denied, unkCheck, rel, unkRel, other int64 }

func (a *account) add(b account) {
	a.ok += b.ok
	a.denied += b.denied
	a.unkCheck += b.unkCheck
	a.rel += b.rel
	a.unkRel += b.unkRel
	a.other += b.other
}

func TestC14Shutdown(t *testing.T) { shutdowns(t, false, 500, 8000) }

// TestC14Stalled: the same with clients that announce a body and never send it: the server
// cannot finish with them, and the graceful part of the shutdown runs into its time limit.
func TestC14Stalled(t *testing.T) { shutdowns(t, true, 3, 30) }

func shutdowns(t *testing.T, stall bool, quick, thorough int) {
	bin := kit.Bin("ratelimiter-api")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "srv")
	if err != nil {
		kit.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	resp := startResp()
	kit.Run(t, quick, thorough, func(c *kit.Case) {
		c.Slow(300 * time.Second)
		adapter := rapid.SampledFrom([]string{"mock", "mock", "redis-server", "redis-server", "redis", "kafka"}).Draw(c.T, "adapter")
		// Storage that needs a second and more for each row of the last flush.
		slowRow := time.Duration(0)
		if stall && rapid.Bool().Draw(c.T, "slow storage") {
			adapter = "redis-server"
			slowRow = rapid.SampledFrom([]time.Duration{1100 * time.Millisecond, 1600 * time.Millisecond}).Draw(c.T, "a row takes")
		}
		limit := rapid.SampledFrom([]int64{1, 5, 40, 300, 1000000}).Draw(c.T, "limit")
		mode := rapid.SampledFrom([]string{"checks", "checks", "private releases", "mixed"}).Draw(c.T, "mode")
		T := rapid.SampledFrom([]int64{1, 2, 7, 50, 100000}).Draw(c.T, "threshold")
		if mode == "private releases" {
			T = 100000 // nothing is committed while releases come in, so each one is exact
		}
		if slowRow > 0 {
			T = 100000
		}
		low := rapid.SampledFrom([]int64{0, 0, 1, T - 1}).Draw(c.T, "low")
		args := []string{
			"-rate_limit", fmt.Sprint(limit), "-commit_threshold", fmt.Sprint(T), "-commit_low_watermark", fmt.Sprint(max(0, min(low, T-1))),
			"-commit_interval", rapid.SampledFrom([]string{"1ms", "3ms", "20ms", "1h"}).Draw(c.T, "interval"),
			"-persistence_adapter", strings.TrimSuffix(adapter, "-server"),
		}
		if mode != "private releases" {
			args = append(args, "-commit_max_age", rapid.SampledFrom([]string{"0s", "2ms", "30ms"}).Draw(c.T, "max age"))
		}
		switch rapid.IntRange(0, 3).Draw(c.T, "options") {
		case 1:
			args = append(args, "-vsa_fast_path_guard", "4")
		case 2:
			args = append(args, "-vsa_hierarchical_groups", "4", "-vsa_per_p_update_chooser")
		case 3:
			args = append(args, "-vsa_cheap_update_chooser", "-vsa_stripes", "8")
		}
		switch rapid.IntRange(0, 5).Draw(c.T, "more options") {
		case 1:
			args = append(args, "-vsa_group_count", "3")
		case 2:
			args = append(args, "-churn_metrics", "-churn_log_interval", "5ms", "-churn_sample", "0.5")
		}
		// Keys that are evicted between two bursts of traffic (far apart, see KNOWN_FINDINGS).
		evict := mode == "checks" && slowRow == 0 && rapid.IntRange(0, 24).Draw(c.T, "evictions between bursts") == 13
		if evict {
			limit = 1000000
			args[1] = "1000000"
			args = append(args, "-eviction_age", "1s", "-eviction_interval", "50ms")
		}
		nc := rapid.IntRange(1, 6).Draw(c.T, "clients")
		nk := rapid.IntRange(1, 4).Draw(c.T, "keys")
		relOf := 0
		if mode != "checks" {
			relOf = rapid.IntRange(1, 6).Draw(c.T, "releases of ten")
		}
		seed := rapid.Uint64Range(1, 1<<40).Draw(c.T, "seed")
		// So many keys that the last flush is a large one.
		many := !evict && slowRow == 0 && rapid.IntRange(0, 19).Draw(c.T, "many keys") == 13
		if many {
			nk = rapid.SampledFrom([]int{60, 129, 260, 1001, 2049}).Draw(c.T, "many") + rapid.IntRange(0, 30).Draw(c.T, "more")
		}
		stalled := 0
		if stall {
			stalled = rapid.IntRange(1, 3).Draw(c.T, "stalled")
		}
		quota := 1 << 30
		if rapid.IntRange(0, 3).Draw(c.T, "finite traffic") == 2 {
			quota = rapid.IntRange(1, 60).Draw(c.T, "requests")
		}
		if slowRow > 0 {
			nk = 9
		}
		if many {
			quota = (nk + nc - 1) / nc
		}
		burst := 0
		if evict {
			burst = rapid.IntRange(1, 40).Draw(c.T, "first burst")
			quota = burst + rapid.IntRange(0, 40).Draw(c.T, "second burst")
		}
		delay := time.Duration(rapid.IntRange(0, 60).Draw(c.T, "run for (ms)")) * time.Millisecond
		// Supervisors and impatient users send the signal again.
		var again []time.Duration
		if rapid.IntRange(0, 3).Draw(c.T, "signal again") == 2 {
			for i, n := 0, rapid.IntRange(1, 3).Draw(c.T, "times"); i < n; i++ {
				again = append(again, rapid.SampledFrom([]time.Duration{0, 200 * time.Microsecond, time.Millisecond, 5 * time.Millisecond, 100 * time.Millisecond}).Draw(c.T, "after"))
			}
		}
		sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT}).Draw(c.T, "signal")
		c.Logf("%s %v mode=%s clients=%d keys=%d releases %d/10 quota=%d, stalled clients %d, a row takes %v, %v after %v, again after %v, seed %d", adapter, args, mode, nc, nk, relOf, quota, stalled, slowRow, sig, delay, again, seed)
		fake := newFakeRedis()
		if adapter == "redis-server" {
			resp.mu.Lock()
			resp.f, resp.plan, resp.n, resp.gate = fake, nil, 0, nil
			if slowRow > 0 {
				resp.gate = func(int) { time.Sleep(slowRow) }
			}
			resp.mu.Unlock()
			args = append(args, "-redis_addr", resp.addr)
		}
		run := func(extra time.Duration) (early bool) {
			p := kit.StartServer(c, bin, base, func(a string) []string { return append([]string{"-http_addr", a}, args...) }, "/check")
			defer p.Kill()
			acc := make([]map[string]*account, nc)
			bad := make(chan string, nc)
			var wg sync.WaitGroup
			stop := make(chan struct{})
			for i := 0; i < nc; i++ {
				acc[i] = map[string]*account{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := seed + uint64(i)*7919
					rnd := func(n int) int {
						x = x*6364136223846793005 + 1442695040888963407
						return int((x >> 33) % uint64(n))
					}
					cl := kit.NewClient(p.Addr)
					defer cl.Close()
					model := map[string]int64{}
					for q := 0; q < quota; q++ {
						select {
						case <-stop:
							return
						default:
						}
						if evict && q == burst {
							time.Sleep(1700 * time.Millisecond)
						}
						k := fmt.Sprintf("key%d", rnd(nk))
						if many {
							k = fmt.Sprintf("key%d", (q*nc+i)%nk)
						}
						if mode == "private releases" {
							k = fmt.Sprintf("c%d-%s", i, k)
						}
						a := acc[i][k]
						if a == nil {
							a = &account{}
							acc[i][k] = a
						}
						rel := rnd(10) < relOf
						path, method := "/check?api_key="+k, "GET"
						if rel {
							path, method = "/release?api_key="+k, "POST"
						}
						code, _, _, sent, err := cl.Do(method, path, 60*time.Second)
						switch {
						case err != nil && sent && rel:
							a.unkRel++
							return
						case err != nil && sent:
							a.unkCheck++
							return
						case err != nil:
							return
						case rel && code/100 == 2:
							a.rel++
							if mode == "private releases" && model[k] > 0 {
								model[k]--
								a.other-- // an effective release
							}
						case !rel && code == 200:
							a.ok++
							model[k]++
							if mode == "private releases" && model[k] > limit {
								bad <- fmt.Sprintf("key %s: admitted beyond its limit of %d", k, limit)
								return
							}
						case !rel && code == 429:
							a.denied++
							if mode == "private releases" && model[k] < limit {
								bad <- fmt.Sprintf("key %s: refused with %d of %d used", k, model[k], limit)
								return
							}
						default:
							bad <- fmt.Sprintf("%s answered %d", path, code)
							return
						}
					}
				}()
			}
			if evict || many && rapid.IntRange(0, 3).Draw(c.T, "all of it") > 0 || quota < 1000 && rapid.Bool().Draw(c.T, "wait for the traffic") {
				wg.Wait()
			} else {
				time.Sleep(delay)
			}
			for i := 0; i < stalled; i++ {
				conn, err := net.Dial("tcp", p.Addr)
				if err != nil {
					kit.Broken("%v", err)
				}
				defer conn.Close()
				if _, err := fmt.Fprintf(conn, "POST /check?api_key=stalled HTTP/1.1\r\nHost: x\r\nContent-Length: 9\r\n\r\nabc"); err != nil {
					kit.Broken("%v", err)
				}
			}
			time.Sleep(extra)
			p.Signal(sig)
			for _, d := range again {
				time.Sleep(d)
				p.Signal(sig)
			}
			code := p.Exit(120 * time.Second)
			close(stop)
			wg.Wait()
			out := p.Output()
			if code == -1 && extra == 0 {
				// Killed by the signal: it may have come before the process was ready to handle it.
				c.Class("signalled too early")
				if adapter == "redis-server" {
					fake = newFakeRedis()
					resp.mu.Lock()
					resp.f = fake
					resp.mu.Unlock()
				}
				return true
			}
			select {
			case m := <-bad:
				c.Failf("%s", m)
			default:
			}
			if code == -1000 {
				c.Failf("the server does not exit after %v:\n%s", sig, tail(out))
			}
			if code != 0 && stalled == 0 { // it may complain about clients that hold it up
				c.Failf("the server exits with code %d after %v:\n%s", code, sig, tail(out))
			}
			w := written(adapter, out)
			if adapter == "redis-server" {
				resp.mu.Lock()
				for k := range fake.data {
					if key, ok := strings.CutPrefix(k, "counter:"); ok {
						w[key] = -fake.scalar(k)
					}
				}
				resp.mu.Unlock()
			}
			total := map[string]*account{}
			for i := range acc {
				for k, a := range acc[i] {
					if total[k] == nil {
						total[k] = &account{}
					}
					total[k].add(*a)
				}
			}
			var keys []string
			for k := range total {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			var sum, admits, adv int64
			var unk, unkC, unkR int64
			for _, k := range keys {
				a := *total[k]
				lo, hi := a.ok-a.rel-a.unkRel, a.ok+a.unkCheck
				if mode == "private releases" {
					lo = a.ok + a.other - a.unkRel
					hi = a.ok + a.other + a.unkCheck
				} else {
					lo = max(lo, 0)
				}
				c.Class(mode)
				if w[k] < lo || w[k] > hi {
					c.Failf("key %s: %d admitted (+%d unanswered), %d releases answered (+%d unanswered): storage has %d, expected between %d and %d\n%s",
						k, a.ok, a.unkCheck, a.rel, a.unkRel, w[k], lo, hi, tail(out))
				}
				if hi > 0 && mode != "mixed" {
					c.Class("exact")
				}
				if w[k] > limit {
					c.Failf("key %s: storage has %d, the limit is %d", k, w[k], limit)
				}
				sum += w[k]
				admits += a.ok
				adv += a.denied
				unk += a.unkCheck + a.unkRel
				unkC += a.unkCheck
				unkR += a.unkRel
			}
			if stalled > 0 {
				if n := w["stalled"]; n < 0 || n > min(int64(stalled), limit) {
					c.Failf("storage has %d for the key of %d stalled requests", n, stalled)
				}
				sum += w["stalled"]
				unkC += int64(stalled)
				delete(w, "stalled")
				c.Class("with stalled clients")
			}
			for k, n := range w {
				if total[k] == nil && n != 0 {
					c.Failf("storage has %d for key %q, which nobody used\n%s", n, k, tail(out))
				}
			}
			if adapter == "mock" {
				m := map[string]int64{}
				for _, x := range metric.FindAllStringSubmatch(out, -1) {
					m[x[1]], _ = strconv.ParseInt(x[2], 10, 64)
				}
				if len(m) == 4 {
					// A request that never got an answer may have been handled after the last flush:
					// net/http can close a connection as idle while a request arrives on it.
					if d := m["Admits"] - m["Refunds"] - sum; d > unkC || d < -unkR {
						c.Failf("the server reports %d admitted and %d refunded, storage has %d\n%s", m["Admits"], m["Refunds"], sum, tail(out))
					}
					c.Class("summary compared")
				}
			}
			if many && len(w) > 50 {
				c.Class("many keys written")
			}
			if evict && strings.Contains(out, "Evicting ") {
				c.Class("evicted between bursts")
			}
			if admits > 0 && sum > 0 {
				l := "after the traffic"
				if unk > 0 {
					l = "with requests in flight"
				}
				c.NT(l, adapter)
				if adv > 0 {
					c.Class("with refusals")
				}
			}
			return false
		}
		if run(0) {
			run(3 * time.Second)
		}
	})
}
