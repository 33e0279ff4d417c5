package verifbins_test

// C31: the built server, started with drawn flags, behaves as the flags say. A case starts several
// servers with different flags and drives them side by side. Times are only ever bounded from below
// by what the flags promise (nothing may happen earlier); what must happen gets a minute.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	kit "vsa/internal/verifkit"
)

type scene struct {
	what    string
	args    []string
	refused bool // the process must end by itself instead of serving
	drive   func(s *served) (nt bool, bad string)
	prepare func(slot *respServer) []string
}

type served struct {
	p       *kit.Proc
	began   time.Time // before the process was started
	cl      *kit.Client
	slot    *respServer
	limit   int64
	admits  map[string]int64
	first   map[string]time.Time // before the first and the last request for a key was sent
	last    map[string]time.Time
	remains int64 // as answered last
}

// check sends one request and says whether it was admitted.
func (s *served) check(key string) (ok bool, bad string) {
	now := time.Now()
	if _, is := s.first[key]; !is {
		s.first[key] = now
	}
	s.last[key] = now
	code, h, body, _, err := s.cl.Do("GET", "/check?api_key="+key, patience)
	if err != nil || code != 200 && code != 429 {
		return false, fmt.Sprintf("check of %q: %d %v %s", key, code, err, body)
	}
	if g := h.Get("X-Ratelimit-Limit"); g != fmt.Sprint(s.limit) {
		return false, fmt.Sprintf("the answers say the limit is %q, it is %d", g, s.limit)
	}
	s.remains, err = strconv.ParseInt(h.Get("X-Ratelimit-Remaining"), 10, 64)
	if err != nil {
		return false, fmt.Sprintf("remaining is %q", h.Get("X-Ratelimit-Remaining"))
	}
	if code == 200 {
		s.admits[key]++
	}
	return code == 200, ""
}

func (s *served) stop() (string, string) {
	s.p.Signal(syscall.SIGTERM)
	if code := s.p.Exit(2 * patience); code != 0 {
		return "", fmt.Sprintf("exit code %d after SIGTERM", code)
	}
	return s.p.Output(), ""
}

// rows reads what the mock adapter has printed: the rows of every key in order, and until when at
// the latest they were written.
func (s *served) rows() (map[string][]int64, time.Time) {
	out := s.p.Output()
	at := time.Now()
	m := map[string][]int64{}
	for _, x := range mockRow.FindAllStringSubmatch(out, -1) {
		n, _ := strconv.ParseInt(x[2], 10, 64)
		m[x[1]] = append(m[x[1]], n)
	}
	return m, at
}

func sum(a []int64) (n int64) {
	for _, x := range a {
		n += x
	}
	return n
}

// until polls f until it says done or complains.
func until(f func() (bool, string)) string {
	t0 := time.Now()
	for {
		// what f saw must be older than the deadline before that counts
		late := time.Since(t0) > patience
		done, bad := f()
		if bad != "" && (late || !strings.HasPrefix(bad, "not yet: ")) {
			return bad
		}
		if done {
			return ""
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func drawDur(c *kit.Case, label string, of ...string) (string, time.Duration) {
	s := rapid.SampledFrom(of).Draw(c.T, label)
	d, err := time.ParseDuration(s)
	if err != nil {
		kit.Broken("%v", err)
	}
	return s, d
}

func scenePolicy(c *kit.Case) scene {
	T := rapid.SampledFrom([]int64{1, 2, 3, 5, 20, 50}).Draw(c.T, "T")
	low := rapid.SampledFrom([]int64{0, 0, 1, T / 2, T - 1}).Draw(c.T, "low")
	low = min(max(low, 0), T-1)
	is, I := drawDur(c, "interval", "1ms", "5ms", "60ms", "400ms", "1h")
	as, A := drawDur(c, "max age", "0s", "0s", "20ms", "250ms", "1h")
	args := []string{"-commit_threshold", fmt.Sprint(T), "-commit_low_watermark", fmt.Sprint(low), "-commit_interval", is, "-commit_max_age", as}
	switch rapid.IntRange(0, 2).Draw(c.T, "eviction") {
	case 1:
		args = append(args, "-eviction_age", "1ms", "-eviction_interval", "1h")
	case 2:
		args = append(args, "-eviction_age", "1h", "-eviction_interval", "3ms")
	}
	n := map[string]int64{}
	var keys []string
	for i, nk := 0, rapid.IntRange(1, 3).Draw(c.T, "keys"); i < nk; i++ {
		k := fmt.Sprintf("key%d", i)
		keys = append(keys, k)
		n[k] = max(1, rapid.SampledFrom([]int64{T - 1, T - 1, T, T + 1, 2*T + 1, low, low + 1}).Draw(c.T, "requests"))
	}
	if rapid.Bool().Draw(c.T, "small budget") { // just enough, possibly below the threshold
		most := int64(0)
		for _, x := range n {
			most = max(most, x)
		}
		args = append(args, "-rate_limit", fmt.Sprint(most))
	}
	return scene{what: fmt.Sprintf("policy, requests %v", n), args: args, drive: func(s *served) (bool, string) {
		for _, k := range keys {
			for i := int64(0); i < n[k]; i++ {
				if ok, bad := s.check(k); bad != "" || !ok {
					return false, fmt.Sprintf("request %d of %d for %q refused %s", i, n[k], k, bad)
				}
			}
		}
		look := func() (bool, string) {
			m, at := s.rows()
			all := true
			for k := range m {
				if n[k] == 0 {
					return false, fmt.Sprintf("rows for %q, which nobody used", k)
				}
			}
			for _, k := range keys {
				if len(m[k]) > 0 && at.Before(s.began.Add(I)) {
					return false, fmt.Sprintf("key %q is written %v after the start", k, at.Sub(s.began))
				}
				for i, v := range m[k] {
					if v < 1 || sum(m[k]) > n[k] {
						return false, fmt.Sprintf("rows %v for %q after %d admissions", m[k], k, n[k])
					}
					if v >= T {
						continue
					}
					if A == 0 {
						return false, fmt.Sprintf("a row of %d for %q, the threshold is %d (rows %v)", v, k, T, m[k])
					}
					if at.Before(s.first[k].Add(A)) || i == len(m[k])-1 && sum(m[k]) == n[k] && at.Before(s.last[k].Add(A)) {
						return false, fmt.Sprintf("a row of %d for %q, below the threshold of %d, %v after the last use", v, k, T, at.Sub(s.last[k]))
					}
				}
				left := n[k] - sum(m[k])
				// Admissions that land during a write can leave more than the low watermark
				// behind, and then the key waits for its age or the end.
				due := left >= T && (low == 0 || len(m[k]) == 0)
				if I != time.Hour && (due || left > 0 && A > 0 && A != time.Hour) {
					all = false
				}
			}
			if !all {
				return false, fmt.Sprintf("not yet: admitted %v, written only %v", n, m)
			}
			return true, ""
		}
		if bad := until(look); bad != "" {
			return false, bad
		}
		for i := 0; i < 10; i++ { // nothing more may come
			time.Sleep(8 * time.Millisecond)
			if _, bad := look(); bad != "" && !strings.HasPrefix(bad, "not yet: ") {
				return false, bad
			}
		}
		before, _ := s.rows()
		if _, bad := s.stop(); bad != "" {
			return false, bad
		}
		m, _ := s.rows()
		held, thr := false, false
		for _, k := range keys {
			if sum(m[k]) != n[k] {
				return false, fmt.Sprintf("at the end rows %v for %q after %d admissions", m[k], k, n[k])
			}
			held = held || sum(before[k]) < n[k]
			thr = thr || len(before[k]) > 0
		}
		return held || thr, ""
	}}
}

func sceneEviction(c *kit.Case) scene {
	as, A := drawDur(c, "age", "100ms", "350ms", "1h")
	es, E := drawDur(c, "interval", "4ms", "60ms", "300ms", "1h")
	n := rapid.Int64Range(1, 20).Draw(c.T, "requests")
	never := A == time.Hour || E == time.Hour
	return scene{what: fmt.Sprintf("eviction, %d requests", n), args: []string{"-commit_threshold", "1000", "-commit_interval", "1h", "-eviction_age", as, "-eviction_interval", es}, drive: func(s *served) (bool, string) {
		const k = "key"
		for i := int64(0); i < n; i++ {
			if ok, bad := s.check(k); bad != "" || !ok {
				return false, fmt.Sprintf("request %d refused %s", i, bad)
			}
		}
		look := func() (bool, string) {
			m, at := s.rows()
			got := sum(m[k])
			switch {
			case never && len(m) > 0:
				return false, fmt.Sprintf("rows %v, although nothing is to be committed or evicted within the hour", m)
			case len(m[k]) > 0 && at.Before(s.began.Add(E)):
				return false, fmt.Sprintf("written %v after the start", at.Sub(s.began))
			case got > s.admits[k]:
				return false, fmt.Sprintf("rows %v after %d admissions", m[k], s.admits[k])
			case got == s.admits[k] && at.Before(s.last[k].Add(A)):
				return false, fmt.Sprintf("rows %v, %v after the last use", m[k], at.Sub(s.last[k]))
			case got < s.admits[k] && !never:
				return false, fmt.Sprintf("not yet: rows %v after %d admissions", m[k], s.admits[k])
			}
			return true, ""
		}
		if never {
			for t0 := time.Now(); time.Since(t0) < 30*time.Millisecond+min(A, E, 400*time.Millisecond); time.Sleep(5 * time.Millisecond) {
				if _, bad := look(); bad != "" {
					return false, bad
				}
			}
			if ok, bad := s.check(k); bad != "" || !ok || s.remains != s.limit-n-1 {
				return false, fmt.Sprintf("the key is to stay in memory, but the next request finds %d remaining after %d requests (admitted %v) %s", s.remains, n, ok, bad)
			}
			out, bad := s.stop()
			if w := written("mock", out); bad == "" && w[k] != n+1 {
				bad = fmt.Sprintf("at the end %d is written, %d were admitted", w[k], n+1)
			}
			return false, bad
		}
		if bad := until(look); bad != "" {
			return false, bad
		}
		// Dropped as well as written: the next request finds a fresh counter. It may come while the
		// eviction is under way and keep the key.
		used := n
		for i := 0; ; i++ {
			time.Sleep(40*time.Millisecond + min(A, E))
			if ok, bad := s.check(k); bad != "" || !ok {
				return false, fmt.Sprintf("refused: %s", bad)
			}
			if s.remains == s.limit-1 {
				break
			}
			if s.remains != s.limit-used-1 || i > 50 {
				return false, fmt.Sprintf("after the eviction %d of %d remain, %d were used before", s.remains, s.limit, used)
			}
			used++
			time.Sleep(A)
		}
		_, bad := s.stop()
		return true, bad
	}}
}

func sceneAdapter(c *kit.Case) scene {
	name := rapid.SampledFrom([]string{"mock", "redis", "redis", "redis-server", "redis-server", "kafka", "kafka", "postgres", "Redis", "mysql", "mock,redis"}).Draw(c.T, "adapter")
	n := rapid.IntRange(1, 12).Draw(c.T, "requests")
	T := rapid.SampledFrom([]int{1, 3, 100}).Draw(c.T, "T")
	args := []string{"-persistence_adapter", strings.TrimSuffix(name, "-server"), "-commit_interval", "3ms", "-commit_threshold", fmt.Sprint(T)}
	sc := scene{what: fmt.Sprintf("adapter, %d requests", n)}
	switch name {
	case "mock", "redis", "redis-server", "kafka":
	default:
		sc.refused, sc.args = true, args
		return sc
	}
	if name == "mock" && rapid.Bool().Draw(c.T, "default adapter") {
		args = args[2:]
	}
	ttl := 24 * time.Hour
	if rapid.Bool().Draw(c.T, "ttl given") {
		var s string
		s, ttl = drawDur(c, "ttl", "1s", "2s", "1500ms", "1ms", "90s", "1h0m0.3s", "48h", "2400h", "0s", "-1s")
		args = append(args, "-redis_marker_ttl", s)
		if ttl <= 0 {
			ttl = 24 * time.Hour
		}
	}
	topic := "vsa-commits"
	if rapid.Bool().Draw(c.T, "topic given") {
		topic = rapid.SampledFrom([]string{"t", "a.b_c", "commits", "VSA"}).Draw(c.T, "topic")
		args = append(args, "-kafka_topic", topic)
	}
	sc.args = args
	if name == "redis-server" || name == "kafka" && rapid.Bool().Draw(c.T, "address given") {
		sc.prepare = func(slot *respServer) []string { return []string{"-redis_addr", slot.addr} }
	}
	sc.drive = func(s *served) (bool, string) {
		for i := 0; i < n; i++ {
			if ok, bad := s.check(fmt.Sprintf("key%d", i%3)); bad != "" || !ok {
				return false, fmt.Sprintf("request %d refused %s", i, bad)
			}
			if i%4 == 3 {
				time.Sleep(4 * time.Millisecond)
			}
		}
		out, bad := s.stop()
		if bad != "" {
			return false, bad
		}
		for what, mark := range map[string]string{"mock": "VECTOR: ", "redis": "[redis-demo]", "kafka": "[kafka-demo]"} {
			if what != name && strings.Contains(out, mark) {
				return false, fmt.Sprintf("%s was asked for, but %s is used:\n%s", name, what, tail(out))
			}
		}
		w := written(strings.TrimSuffix(name, "-server"), out)
		long := func(d time.Duration) bool { return d >= ttl && d <= ttl+time.Second }
		markers := 0
		switch name {
		case "redis-server":
			s.slot.mu.Lock()
			for k, e := range s.slot.f.data {
				if key, ok := strings.CutPrefix(k, "counter:"); ok {
					w[key] = -s.slot.f.scalar(k)
				} else if strings.HasPrefix(k, "commit:") {
					markers++
					if d := e.exp - s.slot.f.now; e.exp == 0 || !long(d) {
						bad = fmt.Sprintf("a marker expires after %v (0s: never), %v was asked for", d, ttl)
					}
				}
			}
			s.slot.mu.Unlock()
		case "redis":
			for _, m := range regexp.MustCompile(`ARGS=\[-?\d+ (\d+)\]`).FindAllStringSubmatch(out, -1) {
				markers++
				if d, err := strconv.ParseInt(m[1], 10, 64); err != nil || !long(time.Duration(d)*time.Second) {
					bad = fmt.Sprintf("a marker lives for %s s, %v was asked for", m[1], ttl)
				}
			}
		case "kafka":
			for _, m := range regexp.MustCompile(`TOPIC=(\S*) `).FindAllStringSubmatch(out, -1) {
				if m[1] != topic {
					bad = fmt.Sprintf("topic %q instead of %q", m[1], topic)
				}
			}
		}
		if bad == "" && strings.HasPrefix(name, "redis") && markers == 0 {
			bad = "no marker\n" + tail(out)
		}
		for k, v := range s.admits {
			if bad == "" && w[k] != v {
				bad = fmt.Sprintf("%d written for %q, %d were admitted\n%s", w[k], k, v, tail(out))
			}
		}
		return true, bad
	}
	return sc
}

var (
	churnLine = regexp.MustCompile(`churn summary: .* naive=(-?\d+) commits=(-?\d+) sample=(\S+) topN=(\d+)`)
	topLine   = regexp.MustCompile(`top key=(\S+) churn`)
)

func sceneTelemetry(c *kit.Case) scene {
	on := rapid.IntRange(0, 3).Draw(c.T, "on") > 0
	ls, L := drawDur(c, "log interval", "3ms", "20ms", "250ms", "0s", "1h")
	rate := rapid.SampledFrom([]string{"0", "1", "1", "0.25", "7"}).Draw(c.T, "rate")
	hash := rapid.SampledFrom([]int{1, 4, 8, 15, 16, 20, 0}).Draw(c.T, "hash length")
	top := rapid.SampledFrom([]int{1, 3, 50, 0}).Draw(c.T, "top n")
	n := rapid.Int64Range(1, 30).Draw(c.T, "requests")
	T := rapid.SampledFrom([]int64{1, 4, 100}).Draw(c.T, "T")
	args := []string{"-churn_log_interval", ls, "-churn_sample", rate, "-churn_key_hash_len", fmt.Sprint(hash), "-churn_top_n", fmt.Sprint(top),
		"-commit_interval", "4ms", "-commit_threshold", fmt.Sprint(T)}
	if on {
		args = append(args, "-churn_metrics")
	}
	wantRate := map[string]string{"0": "0.00", "1": "1.00", "7": "1.00", "0.25": "0.25"}[rate]
	wantTop, wantHash := top, min(hash, 16)
	if top == 0 {
		wantTop = 50
	}
	if hash == 0 {
		wantHash = 8
	}
	logs := on && L > 0 && L != time.Hour
	return scene{what: fmt.Sprintf("telemetry, %d requests", n), args: args, drive: func(s *served) (bool, string) {
		for i := int64(0); i < n; i++ {
			if ok, bad := s.check(fmt.Sprintf("QXZJKV%d", i%2)); bad != "" || !ok {
				return false, fmt.Sprintf("request %d refused %s", i, bad)
			}
		}
		look := func() (bool, string) {
			out := s.p.Output()
			at := time.Now()
			lines := churnLine.FindAllStringSubmatch(out, -1)
			if !logs && strings.Contains(out, "churn summary") {
				return false, "a summary is logged, none was asked for"
			}
			if len(lines) > 0 && at.Before(s.began.Add(L)) {
				return false, fmt.Sprintf("a summary is logged %v after the start", at.Sub(s.began))
			}
			if !logs {
				return true, ""
			}
			for _, l := range lines {
				naive, _ := strconv.ParseInt(l[1], 10, 64)
				if l[3] != wantRate || l[4] != fmt.Sprint(wantTop) || naive > n {
					return false, fmt.Sprintf("after %d admissions, a sampling rate of %s and a top n of %d are logged as: %s", n, rate, top, l[0])
				}
			}
			tops := topLine.FindAllStringSubmatch(out, -1)
			for _, l := range tops {
				if len(l[1]) != wantHash || rate == "0" {
					return false, fmt.Sprintf("a key is shown as %q, the length is %d, the rate %s", l[1], wantHash, rate)
				}
			}
			if len(lines) < 6 || rate != "0" && rate != "0.25" && len(tops) == 0 {
				return false, fmt.Sprintf("not yet: no summary of all keys\n%s", tail(out))
			}
			return true, ""
		}
		if bad := until(look); bad != "" {
			return false, bad
		}
		if !logs {
			time.Sleep(40 * time.Millisecond)
			if _, bad := look(); bad != "" {
				return false, bad
			}
		}
		_, bad := s.stop()
		return logs, bad
	}}
}

func sceneBudget(c *kit.Case) scene {
	limit := rapid.SampledFrom([]int64{0, 1, 5, 9, 20, 33, 70}).Draw(c.T, "limit")
	args := []string{"-rate_limit", fmt.Sprint(limit), "-commit_interval", rapid.SampledFrom([]string{"1ms", "1h", "1h"}).Draw(c.T, "commits"), "-commit_threshold", fmt.Sprint(rapid.IntRange(1, 8).Draw(c.T, "T"))}
	lo, later := limit, limit // at once, and once the cache has been refreshed
	pause := 200 * time.Microsecond
	add := func(flag string, of ...int64) int64 {
		v := rapid.SampledFrom(of).Draw(c.T, flag)
		if v != 0 {
			args = append(args, "-"+flag, fmt.Sprint(v))
		}
		return v
	}
	if rapid.Bool().Draw(c.T, "cached") {
		is, I := drawDur(c, "cache interval", "20us", "1ms", "1h", "1h")
		args = append(args, "-vsa_use_cached_gate", "-vsa_cache_interval", is)
		slack := add("vsa_cache_slack", 0, 0, 0, 1, 3, 5, 9, 20, 40)
		grouped := add("vsa_group_count", 0, 0, 1, 2, 3, 8, 500)
		gs := add("vsa_group_slack", 0, 0, 3, 7, 50)
		if grouped > 1 { // else it is about nothing
			slack += gs
		}
		pause = 2 * time.Millisecond
		commits := args[3] == "1ms"
		switch {
		case limit <= slack:
			lo, later, limit = 0, 0, 0 // nothing is ever far enough from the limit
		case I == time.Hour && !commits:
		case I == time.Hour: // what is committed no longer counts, and the cache never knew
			lo, later = limit-slack, limit-slack
		case !commits:
			lo, later = limit-slack, limit-slack
		default: // what is committed may count twice until the cache is refreshed
			lo, later = (limit-slack)/2, limit-slack
		}
	} else {
		add("vsa_fast_path_guard", 0, 0, 1, 4, 1000)
		add("vsa_group_count", 0, 0, 1, 3, 200)
		add("vsa_group_slack", 0, 0, 2, 100)
	}
	add("vsa_stripes", 0, 0, 1, 8, 9, 64, 1000)
	add("vsa_hierarchical_groups", 0, 0, 2, 7)
	switch rapid.IntRange(0, 2).Draw(c.T, "chooser") {
	case 1:
		args = append(args, "-vsa_cheap_update_chooser")
	case 2:
		args = append(args, "-vsa_per_p_update_chooser")
	}
	return scene{what: fmt.Sprintf("budget, %d..%d to be admitted", lo, limit), args: args, drive: func(s *served) (bool, string) {
		for i := int64(0); i < s.limit+3; i++ {
			if _, bad := s.check("key"); bad != "" {
				return false, bad
			}
			time.Sleep(pause)
		}
		if n := s.admits["key"]; n >= lo && n < later {
			if bad := until(func() (bool, string) {
				if _, bad := s.check("key"); bad != "" {
					return false, bad
				}
				if s.admits["key"] < later {
					return false, "not yet: refused too early"
				}
				return true, ""
			}); bad != "" {
				return false, fmt.Sprintf("%s: %d requests admitted, %d are to be", bad, s.admits["key"], later)
			}
		}
		if n := s.admits["key"]; n < lo || n > limit {
			return false, fmt.Sprintf("%d of %d requests admitted, between %d and %d are to be", n, s.limit+3, lo, limit)
		}
		out, bad := s.stop()
		if w := written("mock", out); bad == "" && w["key"] != s.admits["key"] {
			bad = fmt.Sprintf("%d written, %d were admitted", w["key"], s.admits["key"])
		}
		return s.limit > 0, bad
	}}
}

// sceneWatermark: while a write is under way more is admitted than the low watermark allows, so the
// key must not be written again for reaching the threshold until it has been down there.
func sceneWatermark(c *kit.Case) scene {
	T := rapid.Int64Range(2, 12).Draw(c.T, "T")
	low := rapid.SampledFrom([]int64{0, 1, T / 2, T - 1, T - 1}).Draw(c.T, "low")
	during := low + rapid.Int64Range(1, T).Draw(c.T, "during the write")
	held, proceed := make(chan int, 100), make(chan bool)
	var once sync.Once
	sc := scene{what: fmt.Sprintf("watermark, %d admissions during the write", during), args: []string{"-persistence_adapter", "redis", "-commit_interval", "4ms",
		"-commit_threshold", fmt.Sprint(T), "-commit_low_watermark", fmt.Sprint(low)}}
	sc.prepare = func(slot *respServer) []string {
		slot.mu.Lock()
		slot.gate = func(n int) {
			select {
			case held <- n:
			default:
			}
			<-proceed
		}
		slot.mu.Unlock()
		return []string{"-redis_addr", slot.addr}
	}
	sc.drive = func(s *served) (bool, string) {
		defer once.Do(func() { close(proceed) })
		checks := func(n int64) (bad string) {
			for i := int64(0); i < n && bad == ""; i++ {
				var ok bool
				if ok, bad = s.check("key"); !ok && bad == "" {
					bad = "refused"
				}
			}
			return
		}
		releases := func(n int64) (bad string) {
			for i := int64(0); i < n && bad == ""; i++ {
				code, _, body, _, err := s.cl.Do("POST", "/release?api_key=key", patience)
				if err != nil || code != 204 {
					bad = fmt.Sprintf("release: %d %s %v", code, body, err)
				}
			}
			return
		}
		stored := func() int64 {
			s.slot.mu.Lock()
			defer s.slot.mu.Unlock()
			return -s.slot.f.scalar("counter:key")
		}
		scripts := func() int {
			s.slot.mu.Lock()
			defer s.slot.mu.Unlock()
			return s.slot.n
		}
		if bad := checks(T); bad != "" {
			return false, bad
		}
		select {
		case <-held:
		case <-time.After(patience):
			return false, fmt.Sprintf("%d admissions, the threshold, are not written", T)
		}
		if bad := checks(during); bad != "" {
			return false, bad
		}
		retried := len(held) > 0 // the client was impatient: which of its attempts counts is open
		once.Do(func() { close(proceed) })
		if bad := until(func() (bool, string) { return stored() >= T, fmt.Sprintf("not yet: %d written, not %d", stored(), T) }); bad != "" {
			return false, bad
		}
		total := T + during
		if more := T - during; more > 0 {
			if bad := checks(more); bad != "" {
				return false, bad
			}
			total += more
		}
		nt := false
		if low == 0 {
			if bad := until(func() (bool, string) {
				return stored() >= total, fmt.Sprintf("not yet: without a low watermark %d are written, not %d", stored(), total)
			}); bad != "" {
				return false, bad
			}
		} else if !retried {
			nt = true
			before := scripts()
			time.Sleep(60 * time.Millisecond)
			if scripts() != before || stored() != T {
				return false, fmt.Sprintf("%d are written although the key (threshold %d) has not been down to %d since the last write, with %d admitted during it", stored(), T, low, during)
			}
			// down to the watermark and up again, until a commit cycle has seen it there
			pending := total - T
			for t0 := time.Now(); stored() == T; {
				late := time.Since(t0) > patience
				if bad := releases(pending - low); bad != "" {
					return false, bad
				}
				time.Sleep(30 * time.Millisecond)
				if bad := checks(T - low); bad != "" {
					return false, bad
				}
				pending = T
				for i := 0; i < 30 && stored() == T; i++ {
					time.Sleep(10 * time.Millisecond)
				}
				if late && stored() == T {
					return false, fmt.Sprintf("after going down to %d and up to %d again nothing is written", low, T)
				}
			}
			if bad := checks(1); bad != "" {
				return false, bad
			}
			total = s.limit - s.remains
		}
		if _, bad := s.stop(); bad != "" {
			return false, bad
		}
		if stored() != total {
			return false, fmt.Sprintf("%d written at the end, %d were admitted and not released", stored(), total)
		}
		return nt, ""
	}
	return sc
}

// sceneWindow: a summary keeps counting what came after the first one for a minute.
func sceneWindow(c *kit.Case) scene {
	n := rapid.Int64Range(1, 30).Draw(c.T, "requests")
	ls := rapid.SampledFrom([]string{"3ms", "10ms", "40ms"}).Draw(c.T, "log interval")
	return scene{what: fmt.Sprintf("window, %d requests", n), args: []string{"-churn_metrics", "-churn_log_interval", ls, "-commit_interval", "4ms", "-commit_threshold", "1"}, drive: func(s *served) (bool, string) {
		lines := func() [][]string { return churnLine.FindAllStringSubmatch(s.p.Output(), -1) }
		if bad := until(func() (bool, string) { return len(lines()) > 0, "not yet: no summary" }); bad != "" {
			return false, bad
		}
		for i := int64(0); i < n; i++ {
			if ok, bad := s.check("key"); bad != "" || !ok {
				return false, fmt.Sprintf("request %d refused %s", i, bad)
			}
		}
		from := len(lines()) + 1 // that one may have been under way
		if bad := until(func() (bool, string) { return len(lines()) > from+25, "not yet: too few summaries" }); bad != "" {
			return false, bad
		}
		all := lines()
		if time.Since(s.began) > 50*time.Second {
			return false, "" // too slow a machine to tell
		}
		for _, l := range all[from:] {
			if naive, _ := strconv.ParseInt(l[1], 10, 64); naive != n {
				return false, fmt.Sprintf("%d requests within the last minute: %s", n, l[0])
			}
		}
		_, bad := s.stop()
		return true, bad
	}}
}

// scenePace: what is to happen every few milliseconds happens eight times in half a second, once the
// machine lets it.
func scenePace(c *kit.Case) scene {
	what := rapid.SampledFrom([]string{"commits", "evictions", "summaries"}).Draw(c.T, "what")
	every := rapid.SampledFrom([]string{"1ms", "3ms", "8ms"}).Draw(c.T, "interval")
	var args []string
	switch what {
	case "commits":
		args = []string{"-commit_threshold", "1", "-commit_interval", every}
	case "evictions":
		args = []string{"-rate_limit", "1", "-commit_interval", "1h", "-eviction_age", "1ms", "-eviction_interval", every}
	case "summaries":
		args = []string{"-churn_metrics", "-churn_log_interval", every, "-commit_interval", "1h"}
	}
	return scene{what: what + " every " + every, args: args, drive: func(s *served) (bool, string) {
		if what == "evictions" {
			s.limit = 1
		}
		var when []time.Time // when the i-th one had been seen
		n := 0
		bad := until(func() (bool, string) {
			switch what {
			case "commits": // one row after each request
				if _, bad := s.check(fmt.Sprintf("key%d", n)); bad != "" {
					return false, bad
				}
				if bad := until(func() (bool, string) {
					m, _ := s.rows()
					return len(m[fmt.Sprintf("key%d", n)]) > 0, "not yet: a due row is not written"
				}); bad != "" {
					return false, bad
				}
				n++
			case "evictions": // each makes room for one more
				time.Sleep(15 * time.Millisecond)
				ok, bad := s.check("key")
				if bad != "" {
					return false, bad
				}
				if ok {
					n++
				}
			case "summaries":
				n = len(churnLine.FindAllStringSubmatch(s.p.Output(), -1))
			}
			now := time.Now()
			for len(when) < n {
				when = append(when, now)
			}
			for i := 8; i < len(when); i++ {
				if when[i].Sub(when[i-8]) < 500*time.Millisecond {
					return true, ""
				}
			}
			return false, fmt.Sprintf("not yet: no eight %s within half a second; the interval is %s", what, every)
		})
		if bad == "" {
			_, bad = s.stop()
		}
		return true, bad
	}}
}

func TestC31Flags(t *testing.T) {
	bin := kit.Bin("ratelimiter-api")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "flags")
	if err != nil {
		kit.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	_ = os.Setenv("VSA_CHURN_LIVE", "0")
	_ = os.Setenv("NO_COLOR", "1")
	var slots []*respServer
	for i := 0; i < 16; i++ {
		slots = append(slots, startResp())
	}
	kinds := map[string]func(*kit.Case) scene{"policy": scenePolicy, "eviction": sceneEviction, "adapter": sceneAdapter, "telemetry": sceneTelemetry, "budget": sceneBudget,
		"watermark": sceneWatermark, "window": sceneWindow, "pace": scenePace}
	names := []string{"budget", "telemetry", "adapter", "eviction", "policy", "budget", "eviction", "policy", "watermark", "window", "pace"}
	kit.Run(t, 76, 1200, func(c *kit.Case) {
		c.Slow(400 * time.Second)
		n := rapid.SampledFrom([]int{16, 16, 12, 8, 8, 4, 2, 1}).Draw(c.T, "servers")
		bads, nts, used := make([]string, n), make([]bool, n), make([]string, n)
		var all []*kit.Proc
		defer func() {
			for _, p := range all {
				p.Kill()
			}
		}()
		var wg sync.WaitGroup
		defer wg.Wait()
		for i := 0; i < n; i++ {
			used[i] = rapid.SampledFrom(names).Draw(c.T, "kind")
			sc := kinds[used[i]](c)
			slots[i].mu.Lock()
			slots[i].f, slots[i].plan, slots[i].n, slots[i].gate = newFakeRedis(), nil, 0, nil
			slots[i].mu.Unlock()
			args := sc.args
			c.Logf("%s: %v", sc.what, args)
			if sc.prepare != nil {
				args = append(append([]string{}, args...), sc.prepare(slots[i])...)
			}
			if sc.refused {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ctx, cancel := context.WithTimeout(context.Background(), patience)
					defer cancel()
					cmd := exec.CommandContext(ctx, bin, append([]string{"-http_addr", "127.0.0.1:0"}, args...)...)
					out, err := cmd.CombinedOutput()
					if ctx.Err() != nil {
						bads[i] = fmt.Sprintf("%v: the server runs, with an adapter that does not exist:\n%s", args, tail(string(out)))
					} else if err == nil {
						bads[i] = fmt.Sprintf("%v: the server ends without an error:\n%s", args, tail(string(out)))
					}
				}()
				continue
			}
			began := time.Now()
			p := kit.StartServer(c, bin, base, func(a string) []string {
				began = time.Now()
				return append([]string{"-http_addr", a}, args...)
			}, "/check")
			all = append(all, p)
			s := &served{p: p, began: began, cl: kit.NewClient(p.Addr), slot: slots[i], limit: 1000, admits: map[string]int64{}, first: map[string]time.Time{}, last: map[string]time.Time{}}
			if i := slices.Index(args, "-rate_limit"); i >= 0 {
				s.limit, _ = strconv.ParseInt(args[i+1], 10, 64)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer s.cl.Close()
				var bad string
				if nts[i], bad = sc.drive(s); bad != "" {
					bads[i] = fmt.Sprintf("%v: %s\n%s", args, bad, tail(p.Output()))
				}
			}()
		}
		wg.Wait()
		for i, b := range bads {
			if b != "" {
				c.Failf("%s", b)
			}
			if nts[i] {
				c.NT(used[i])
			}
		}
		c.AddEvals(n - 1)
	})
}
