package verifpersist_test

// C18: the shim between the worker and the adapters, and the factory.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"vsa/internal/ratelimiter/core"
	ps "vsa/internal/ratelimiter/persistence"
	kit "vsa/internal/verifkit"
)

type adapter struct {
	mu    sync.Mutex
	calls [][]ps.CommitEntry
	fail  error
}

func (a *adapter) CommitBatch(_ context.Context, e []ps.CommitEntry) error {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.calls = append(a.calls, append([]ps.CommitEntry(nil), e...))
	return a.fail
}

var (
	idsMu sync.Mutex
	ids   = map[string]bool{} // over the life of the process
)

func freshID(id string) string {
	idsMu.Lock()
	defer idsMu.Unlock()
	if id == "" {
		return "empty identifier"
	}
	if ids[id] {
		return "identifier " + id + " used twice"
	}
	ids[id] = true
	return ""
}

func drawCommits(t *rapid.T, max int) []core.Commit {
	var b []core.Commit
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "rows"); i < n; i++ {
		b = append(b, core.Commit{Key: drawUTF8(t, "key"), Vector: rapid.Int64().Draw(t, "v")})
	}
	for n := drawBulk(t, 5000); len(b) < n; {
		b = append(b, core.Commit{Key: fmt.Sprint(len(b)), Vector: int64(len(b))})
	}
	return b
}

func forwarded(calls [][]ps.CommitEntry, b []core.Commit) string {
	if len(b) == 0 {
		for _, x := range calls {
			if len(x) > 0 {
				return "an empty batch was forwarded with entries"
			}
		}
		return ""
	}
	if len(calls) != 1 {
		return fmt.Sprintf("forwarded %d times", len(calls))
	}
	if len(calls[0]) != len(b) {
		return fmt.Sprintf("%d entries forwarded of %d", len(calls[0]), len(b))
	}
	for i, e := range calls[0] {
		if e.Key != b[i].Key || e.Vector != b[i].Vector {
			return fmt.Sprintf("entry %d arrives as %q:%d instead of %q:%d", i, e.Key, e.Vector, b[i].Key, b[i].Vector)
		}
		if why := freshID(e.CommitID); why != "" {
			return why
		}
	}
	return ""
}

func TestC18Shim(t *testing.T) {
	kit.Run(t, 20000, 200000, func(c *kit.Case) {
		a := &adapter{}
		p := ps.NewIdemShim(a)
		fails := 0
		rows := 0
		for i, n := 0, rapid.IntRange(1, 6).Draw(c.T, "batches"); i < n; i++ {
			b := drawCommits(c.T, 6)
			keep := append([]core.Commit(nil), b...)
			a.calls, a.fail = nil, nil
			if rapid.IntRange(0, 2).Draw(c.T, "fail") == 0 {
				a.fail = kit.DrawFault(c.T)
				fails++
			}
			err := p.CommitBatch(b)
			c.Logf("%d commits, adapter error %v -> %v", len(b), a.fail, err)
			if len(a.calls) > 0 && (err != nil) != (a.fail != nil) {
				c.Failf("adapter returned %v, shim returned %v", a.fail, err)
			}
			if len(a.calls) == 0 && err != nil {
				c.Failf("shim failed on its own: %v", err)
			}
			if why := forwarded(a.calls, keep); why != "" {
				c.Failf("%s", why)
			}
			rows += len(b)
		}
		p.PrintFinalMetrics()
		if rows > 1 && fails > 0 {
			c.NT()
		}
	})
}

func TestC18Concurrent(t *testing.T) {
	kit.Run(t, 300, 3000, func(c *kit.Case) {
		a := &adapter{}
		p := ps.NewIdemShim(a)
		g := rapid.IntRange(2, 8).Draw(c.T, "goroutines")
		per := rapid.IntRange(1, 30).Draw(c.T, "per")
		size := rapid.IntRange(1, 8).Draw(c.T, "size")
		c.Logf("%d goroutines x %d batches of %d", g, per, size)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < per; j++ {
					var b []core.Commit
					for k := 0; k < size; k++ {
						b = append(b, core.Commit{Key: fmt.Sprintf("%d/%d/%d", i, j, k), Vector: int64(j*100 + k)})
					}
					_ = p.CommitBatch(b)
				}
			}()
		}
		wg.Wait()
		seen := map[string]int{}
		for _, b := range a.calls {
			for k, e := range b {
				var x, j, kk int
				if n, _ := fmt.Sscanf(e.Key, "%d/%d/%d", &x, &j, &kk); n != 3 || kk != k || e.Vector != int64(j*100+k) {
					c.Failf("entry %q:%d at position %d", e.Key, e.Vector, k)
				}
				seen[e.Key]++
				if why := freshID(e.CommitID); why != "" {
					c.Failf("%s", why)
				}
			}
		}
		if len(seen) != g*per*size {
			c.Failf("%d of %d entries forwarded", len(seen), g*per*size)
		}
		for k, n := range seen {
			if n != 1 {
				c.Failf("entry %s forwarded %d times", k, n)
			}
		}
		c.NT()
	})
}

func captureOut(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		kit.Broken("%v", err)
	}
	old := os.Stdout
	os.Stdout = w
	ch := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		ch <- string(b)
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	s := <-ch
	r.Close()
	return s
}

var (
	redisLine = regexp.MustCompile(`^\[redis-demo\] EVAL .* KEYS=\[(\S*) (\S*)\] ARGS=\[(-?\d+) (\d+)\]`)
	kafkaLine = regexp.MustCompile(`^\[kafka-demo\] TOPIC=(\S+) KEY=(\S+) VALUE=(\{.*\}) HEADERS=`)
	mockLine  = regexp.MustCompile(`^\s+- KEY: (\S+)\s+VECTOR: (-?\d+)\s*$`)
)

// TestC18Factory: every adapter by name, seen from its output (or, for Redis with an
// address, from a server).
func TestC18Factory(t *testing.T) {
	srv := startResp()
	kit.Run(t, 6000, 60000, func(c *kit.Case) {
		name := rapid.SampledFrom([]string{"mock", "", "redis", "kafka", "redis+addr"}).Draw(c.T, "adapter")
		opts := ps.DemoOptions{}
		ttl := rapid.SampledFrom([]time.Duration{0, -1, time.Second, 90 * time.Second, time.Hour}).Draw(c.T, "ttl")
		opts.RedisMarkerTTL = ttl
		opts.KafkaTopic = rapid.SampledFrom([]string{"", "my-topic"}).Draw(c.T, "topic")
		f := newFakeRedis()
		if name == "redis+addr" {
			if rapid.IntRange(0, 9).Draw(c.T, "dial") != 0 {
				name = "redis" // connections are slow
			} else {
				opts.RedisAddr = srv.addr
				srv.mu.Lock()
				srv.f, srv.plan, srv.n = f, nil, 0
				srv.mu.Unlock()
			}
		}
		p, err := ps.BuildPersister(strings.TrimSuffix(name, "+addr"), opts)
		if err != nil || p == nil {
			c.Failf("adapter %q: %v", name, err)
		}
		var all []core.Commit
		total := map[string]int64{}
		out := captureOut(func() {
			for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "batches"); i < n; i++ {
				var b []core.Commit
				for j, m := 0, rapid.IntRange(0, 4).Draw(c.T, "rows"); j < m; j++ {
					v := rapid.Int64Range(-1000, 1000).Draw(c.T, "v")
					if v == 0 {
						v = 1
					}
					b = append(b, core.Commit{Key: fmt.Sprintf("user-%d", rapid.IntRange(0, 5).Draw(c.T, "key")), Vector: v})
					total[b[j].Key] += v
				}
				all = append(all, b...)
				if err = p.CommitBatch(b); err != nil {
					return
				}
			}
		})
		if err != nil {
			c.Failf("CommitBatch through %q: %v", name, err)
		}
		c.Logf("%s ttl=%v topic=%q: %v", name, ttl, opts.KafkaTopic, all)
		if name == "redis+addr" {
			for k, v := range total {
				if got := f.scalar(ps.RedisCounterKey(k)); got != -v {
					c.Failf("counter of %s is %d after commits of %d", k, got, v)
				}
			}
			if len(all) > 0 {
				c.NT(name)
			}
			return
		}
		var got []core.Commit
		for _, l := range strings.Split(out, "\n") {
			switch name {
			case "redis":
				if m := redisLine.FindStringSubmatch(l); m != nil {
					key := strings.TrimPrefix(m[1], "counter:")
					id := strings.TrimPrefix(m[2], "commit:"+key+":")
					if m[1] != ps.RedisCounterKey(key) || m[2] != ps.RedisCommitMarkerKey(key, id) {
						c.Failf("keys %q %q", m[1], m[2])
					}
					if why := freshID(id); why != "" {
						c.Failf("%s", why)
					}
					var v int64
					fmt.Sscan(m[3], &v)
					want := ttl
					if want <= 0 {
						want = 24 * time.Hour
					}
					var secs int64
					fmt.Sscan(m[4], &secs)
					if time.Duration(secs)*time.Second < want {
						c.Failf("markers live %ds, configured %v", secs, want)
					}
					got = append(got, core.Commit{Key: key, Vector: v})
				}
			case "kafka":
				if m := kafkaLine.FindStringSubmatch(l); m != nil {
					want := opts.KafkaTopic
					if want != "" && m[1] != want {
						c.Failf("topic %q, configured %q", m[1], want)
					}
					var d ps.CommitMessage
					if err := json.Unmarshal([]byte(m[3]), &d); err != nil {
						c.Failf("%s: %v", m[3], err)
					}
					if d.CommitID != m[2] {
						c.Failf("message keyed %q for commit %q", m[2], d.CommitID)
					}
					if why := freshID(d.CommitID); why != "" {
						c.Failf("%s", why)
					}
					got = append(got, core.Commit{Key: d.Key, Vector: d.Vector})
				}
			default:
				if m := mockLine.FindStringSubmatch(l); m != nil {
					var v int64
					fmt.Sscan(m[2], &v)
					got = append(got, core.Commit{Key: m[1], Vector: v})
				}
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(all) {
			c.Failf("adapter %q received %v, handed over %v", name, got, all)
		}
		if len(all) > 1 {
			c.NT(name)
		}
	})
}

func TestC18Unknown(t *testing.T) {
	kit.Run(t, 8000, 80000, func(c *kit.Case) {
		name := rapid.OneOf(rapid.SampledFrom([]string{"Redis", "REDIS", " redis", "redis ", "mock2", "Mock", "kafka\x00", "postgresql", "pg", "rediss", "null", "none", "postgres"}), rapid.StringN(1, 8, 20)).Draw(c.T, "name")
		if name == "mock" || name == "redis" || name == "kafka" {
			return
		}
		p, err := ps.BuildPersister(name, ps.DemoOptions{})
		c.Logf("%q -> %v", name, err)
		if err == nil || p != nil {
			c.Failf("unknown adapter %q gave (%v, %v)", name, p, err)
		}
		c.NT()
	})
}
